"""Recorded dumps of the real code, validated against spec/DumpTrace.tla."""
import json, os, struct
from base import Broken

WHAT = {"C01": "does not return", "C02": "packet list", "C03": "damage reporting"}


def record(run, gen, out, seed, extra=()):
    """Records traces; a crash of the process is attributed to the dump in progress."""
    crashed = []
    for _ in range(4):
        args = ["-prop", gen] + list(extra)
        if crashed:
            args += ["-crashed", ",".join(map(str, crashed))]
        p = run.run_harness(args, out=out, seed=seed, ok=None)
        if p.returncode == 0:
            return json.load(open(os.path.join(out, "record.json")))
        prog = os.path.join(out, "progress")
        if p.returncode == 3 or not os.path.exists(prog):
            raise Broken("harness failed (%d):\n%s" % (p.returncode, p.stderr[-3000:]))
        cur = struct.unpack("<q", open(prog, "rb").read(8))[0]
        if cur < 0 or cur in crashed:
            raise Broken("harness died outside a dump (%d):\n%s" % (p.returncode, p.stderr[-3000:]))
        crashed.append(cur)
    # several inputs kill the process: record what there is up to the last one
    p = run.run_harness(["-prop", gen, "-crashed", ",".join(map(str, crashed)), "-upto", str(max(crashed))] + list(extra),
                        out=out, seed=seed, ok=None)
    if p.returncode != 0:
        raise Broken("harness keeps dying:\n%s" % p.stderr[-3000:])
    return json.load(open(os.path.join(out, "record.json")))


def validate(run, out, prop):
    env = dict(TRACES=os.path.join(out, "traces.ndjson"), INFLATE=os.path.join(out, "inflate.ndjson"), PROP=prop)
    return run.prints(run.tlc("DumpTrace", env=env, args=["-continue"]), "REJECT")


def short(b):
    h = bytes(b).hex()
    return h if len(h) <= 160 else h[:160] + "...(%d octets)" % len(b)


def check(run, gen=None, prop=None, seed=None, extra=(), tag="", recorded=None):
    """One batch: record, validate, confirm rejected traces by running the real code again."""
    gen, prop, seed = gen or run.prop, prop or run.prop, run.seed if seed is None else seed
    out = os.path.join(run.work, "rec.%s.%d%s" % (gen, seed, tag))
    if recorded:
        out, meta = recorded
    else:
        meta = record(run, gen, out, seed, extra)
    rejected = validate(run, out, prop)
    run.traces += meta["traces"]
    kinds = run.detail.setdefault("case_kinds", {})
    for k, n in meta["kinds"].items():
        kinds[k] = kinds.get(k, 0) + n
    traces = {}
    if rejected or not run.samples:
        want = {r["trace"] for r in rejected}
        with open(os.path.join(out, "traces.ndjson")) as f:
            for i, l in enumerate(f):
                if want or i % 997 == 3 or len(run.samples) < 1:
                    t = json.loads(l)
                    if t["id"] in want:
                        traces[t["id"]] = t
                    elif len(run.samples) < 4 and len(t["data"]) < 200:
                        run.samples.append(dict(input=short(t["data"]), options=[k for k, v in t["opt"].items() if v],
                                                listed=[x["n"] for x in t["items"]], error=t["err"]))
    if rejected:
        rejected.sort(key=lambda r: len(traces[r["trace"]]["data"]))
        confirmed = 0
        hung = 0
        for r in rejected[:25]:
            t = traces[r["trace"]]
            hung += t["out"] == "hang"
            if t["out"] == "hang" and hung > 3:
                continue
            if t["out"] != "crash":    # run it again, alone
                o2 = os.path.join(run.work, "again")
                run.run_harness(["-prop", gen, "-only", str(r["trace"])] + list(extra), out=o2, seed=seed, ok=None)
                again = [json.loads(l) for l in open(os.path.join(o2, "traces.ndjson"))]
                if not again or not validate(run, o2, prop):
                    continue
                t = again[0]
            confirmed += 1
            got = t["items"][r["entry"] - 1] if len(t["items"]) >= r["entry"] else None
            run.violation("%s: %s (entry %d at octet %d) for input %s options %s" % (
                prop, r["why"], r["entry"], r["at"], short(t["data"]), [k for k, v in t["opt"].items() if v]),
                dict(input=bytes(t["data"]).hex(), options=t["opt"], seed=seed, generator=gen, case=t["id"], why=r["why"],
                     entry=r["entry"], expected=r["expected"], observed=got, error=t["err"], outcome=t["out"],
                     supplied=t["via"], arguments=t["argv"], panic=meta.get("panics", {}).get(str(t["id"]), ""),
                     reproduce="run parse.New(options).Parse() on the input octets" if not t["via"] else
                               "run the command with these arguments on the input octets" if t["via"] == "args" else "supply the input octets by: " + t["via"]))
            if confirmed >= 10:
                break
        if not confirmed and all(traces[r["trace"]]["out"] == "hang" for r in rejected):
            # slow only on a busy machine: each of them returned in time when it ran alone
            run.detail["slow_dumps_that_returned_alone"] = run.detail.get("slow_dumps_that_returned_alone", 0) + len(rejected)
            return []
        if not confirmed:
            # not reproducible alone: the outcome depends on what ran before, which no dump may
            again = os.path.join(run.work, "whole")
            record(run, gen, again, seed, extra)
            rej2 = validate(run, again, prop)
            if {r["trace"] for r in rej2} & {r["trace"] for r in rejected}:
                r = rejected[0]
                t = traces[r["trace"]]
                run.violation("%s: %s, only after earlier dumps, for input %s" % (prop, r["why"], short(t["data"])),
                              dict(input=bytes(t["data"]).hex(), options=t["opt"], seed=seed, generator=gen,
                                   case=t["id"], expected=r["expected"], observed=t["items"]))
            else:
                raise Broken("rejected traces could not be reproduced: %s" % rejected[:2])
    return rejected


def batches(run, n_thorough, gen=None, prop=None, quick=1):
    """quick: one batch; thorough: several batches with different seeds."""
    n = n_thorough if run.thorough() else quick
    path = compositions(run)
    for i in range(n):
        check(run, gen, prop, seed=run.seed + 7919 * i, extra=("-composed", path))
        if run.violations:
            break


def compositions(run):
    """Sequences of packets as they occur in practice (spec/Compositions.tla); the octets are chosen by the harness."""
    path = os.path.join(run.work, "compositions.ndjson")
    if os.path.exists(path):
        return path
    cases = []
    for kind, most in (("key", 5), ("secret", 4), ("message", 5)) if not run.thorough() else (("key", 6), ("secret", 6), ("message", 6)):
        out = run.tlc("Compositions", env=dict(KIND=kind, MAX=str(most)))
        run.no_error("Compositions", out)
        got = run.prints(out, "CASE")
        if not got:
            raise Broken("Compositions emitted nothing")
        run.detail.setdefault("emitted_behaviours", {})["Compositions %s %d" % (kind, most)] = len(got)
        cases += got
    cases.sort(key=lambda c: (len(c), c))
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    return path


def emitted(run, module, env, prop=None):
    """Model-checks a specification that emits its behaviours, replays them and validates what the code did."""
    out = run.tlc(module, env=env)
    run.no_error(module, out)
    cases = run.prints(out, "CASE")
    if not cases:
        raise Broken(module + " emitted no behaviour")
    d = os.path.join(run.work, "emit.%s.%s" % (module, "-".join(env.values())))
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "cases.ndjson")
    cases.sort(key=lambda c: (len(c), c))
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    run.detail.setdefault("emitted_behaviours", {})["%s %s" % (module, env)] = len(cases)
    check(run, gen="FILE", prop=prop, extra=("-in", path), tag=os.path.basename(d))


def parallel(run, gen, prop, seeds):
    """Several recorders at once, one seed each; then their traces are validated."""
    from concurrent.futures import ThreadPoolExecutor
    def one(seed):
        out = os.path.join(run.work, "rec.%s.%d" % (gen, seed))
        return seed, out, record(run, gen, out, seed)
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(one, seeds))
    for seed, out, meta in done:
        run.detail["dumps_run"] = run.detail.get("dumps_run", 0) + meta["ran"]
        if seed == seeds[0] or meta["odd"]:
            check(run, gen, prop, seed, recorded=(out, meta))
        else:
            for k, n in meta["kinds"].items():
                kinds = run.detail.setdefault("case_kinds", {})
                kinds[k] = kinds.get(k, 0) + n
            run.traces += meta["traces"]
        if run.violations:
            return
