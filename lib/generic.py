"""Recorded behaviours of other parts of the system, validated against their own trace specifications."""
import json, os
from base import Broken


def record(run, cmd, out, extra=(), seed=None, timeout=600):
    run.run_harness(["-cmd", cmd] + list(extra), out=out, seed=seed, timeout=timeout)
    return json.load(open(os.path.join(out, "record.json")))


def validate(run, module, out, env=None, heap="8g"):
    e = dict(TRACES=os.path.join(out, "traces.ndjson"))
    e.update(env or {})
    return run.prints(run.tlc(module, env=e, args=["-continue"], heap=heap), "REJECT")


def emit(run, module, env, prefix, name):
    """Model-checks a specification and writes what it emits as lines of JSON; returns the path."""
    out = run.tlc(module, env=env)
    run.no_error(module, out)
    items = run.prints(out, prefix)
    if not items:
        raise Broken(module + " emitted nothing")
    items.sort(key=lambda x: json.dumps(x, sort_keys=True))
    path = os.path.join(run.work, name)
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")
    run.detail.setdefault("emitted_behaviours", {})["%s %s" % (module, env)] = len(items)
    return path, items


def shorten(x, n=300):
    s = json.dumps(x) if not isinstance(x, str) else x
    return s if len(s) <= n else s[:n] + "..."


def check(run, cmd, module, extra=(), env=None, seed=None, describe=None, size=None, timeout=600):
    """Record, validate; a rejected trace must be rejected again when everything is recorded a second time."""
    seed = run.seed if seed is None else seed
    out = os.path.join(run.work, "rec.%s.%d" % (cmd, seed))
    meta = record(run, cmd, out, extra, seed, timeout)
    rejected = validate(run, module, out, env)
    run.traces += meta["traces"]
    kinds = run.detail.setdefault("case_kinds", {})
    for k, n in meta.get("kinds", {}).items():
        kinds[k] = kinds.get(k, 0) + n
    want = {r["trace"] for r in rejected}
    traces, n = {}, 0
    with open(os.path.join(out, "traces.ndjson")) as f:
        for i, l in enumerate(f):
            if want or (len(run.samples) < 5 and i % 97 == 5):
                t = json.loads(l)
                if t["id"] in want:
                    traces[t["id"]] = t
                elif len(run.samples) < 5 and len(l) < 3000 and i % 97 == 5:
                    run.samples.append(t)
    if rejected:
        again = os.path.join(run.work, "again.%s.%d" % (cmd, seed))
        record(run, cmd, again, extra, seed, timeout)
        rej2 = {r["trace"] for r in validate(run, module, again, env)}
        both = [r for r in rejected if r["trace"] in rej2]
        if not both:
            if len({r["trace"] for r in rejected}) >= 1 and rej2:
                both = rejected      # rejected in both recordings, on different schedules
            else:
                raise Broken("rejected traces could not be reproduced: %s" % shorten(rejected[:2]))
        both.sort(key=lambda r: len(json.dumps(traces[r["trace"]])))
        seen = set()
        for r in both:
            if r["trace"] in seen:
                continue
            seen.add(r["trace"])
            t = traces[r["trace"]]
            what = describe(t, r) if describe else shorten(t)
            run.violation("%s: %s: %s" % (run.prop, r["why"], what), dict(seed=seed, command=cmd, rejected=r, trace=t))
            if len(run.violations) >= 20:
                break
    return rejected
