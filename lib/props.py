"""What each property's check does."""
import os

import dumptrace
from base import Broken

DUMP_ASSUMPTIONS = [
    "the entries returned by the public parser are what the user sees (rendering is C13)",
    "decompression results come from the Go standard library run separately by the harness",
    "inputs are bounded to a few kilobytes, with a handful up to 70 kB",
]


def dump_prop(n):
    def f(run):
        run.exhaustive = False
        run.assumptions = DUMP_ASSUMPTIONS
        dumptrace.batches(run, n)
        return "model_checking"
    return f


CHECKS = {p: dump_prop(6) for p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C11", "C12", "C16", "C22", "C23")}


def histories(module, quick, thorough, n):
    def f(run):
        run.exhaustive = False
        run.assumptions = DUMP_ASSUMPTIONS + ["histories are exhaustive over the listed alphabets up to the listed depth, random beyond"]
        for env in (quick + thorough if run.thorough() else quick):
            dumptrace.emitted(run, module, env)
            if run.violations:
                return "model_checking"
        dumptrace.batches(run, n)
        return "model_checking"
    return f


CHECKS["C09"] = histories("SessionHistories", [dict(ALPHABET="core", DEPTH="5"), dict(ALPHABET="wide", DEPTH="3")],
                          [dict(ALPHABET="core", DEPTH="6")], 8)
CHECKS["C10"] = histories("ExpiryHistories", [dict(ALPHABET="wide", PACKETS="2", SUBS="2"), dict(ALPHABET="core", PACKETS="2", SUBS="3"),
                                              dict(ALPHABET="core", PACKETS="3", SUBS="2")],
                          [dict(ALPHABET="simple", PACKETS="2", SUBS="4"), dict(ALPHABET="wide", PACKETS="2", SUBS="3"),
                           dict(ALPHABET="core", PACKETS="3", SUBS="3")], 8)


def c01(run):
    run.exhaustive = False
    run.assumptions = ["a run that has not returned after 45 s is counted as hanging", "inputs up to 1 MB (quick: 100 kB)"]
    n = 24 if run.thorough() else 8
    dumptrace.parallel(run, "C01", "C01", [run.seed * 1000 + i for i in range(n)])
    return "model_checking"


CHECKS["C01"] = c01


import generic


def c13(run):
    run.exhaustive = False
    run.assumptions = ["JSON outputs are compared as the trees they decode to", "trees of the exhaustive part have short marker strings"]
    path, _ = generic.emit(run, "RenderTrees", dict(NODES="4" if run.thorough() else "3"), "TREE", "trees.ndjson")
    for i in range(4 if run.thorough() else 1):
        generic.check(run, "render", "RenderTrace", extra=("-in", path) if i == 0 else (), seed=run.seed + 7919 * i)
        if run.violations:
            break
    return "model_checking"


CHECKS["C13"] = c13


def c14(run):
    run.exhaustive = False
    run.assumptions = ["lines of the body have at most 76 characters, as the format requires",
                       "header lines are well-formed (a key, a colon, a space, a value; the value may be missing)",
                       "document structures are exhaustive up to the listed bounds, contents and line ends random"]
    path, _ = generic.emit(run, "ArmorDocs", dict(PRE="1", HEAD="1", POST="1"), "DOC", "docs.ndjson")
    for i in range(4 if run.thorough() else 1):
        generic.check(run, "armor", "ArmorTrace", extra=("-in", path), seed=run.seed + 7919 * i)
        if run.violations:
            break
    return "model_checking"


CHECKS["C14"] = c14


def c15(run):
    run.exhaustive = False
    run.assumptions = ["a source signals a failure by an error other than end of data", "at most two empty reads in a row",
                       "schedules are exhaustive in units of data; unit sizes and contents are random"]
    units = "7" if run.thorough() else "5"
    path, _ = generic.emit(run, "SourceSchedules", dict(UNITS=units, EMPTY="2"), "SCHED", "schedules.ndjson")
    for i in range(6 if run.thorough() else 1):
        generic.check(run, "source", "SourceTrace", extra=("-in", path, "-units", units), seed=run.seed + 7919 * i)
        if run.violations:
            break
    return "model_checking"


CHECKS["C15"] = c15


def c20(run):
    run.exhaustive = False
    run.assumptions = ["operation sequences are exhaustive up to the listed depth and sizes, random beyond",
                       "which end-of-data error is returned is not judged, nor where the cursor stays when the destination of a copy fails"]
    allof = os.path.join(run.work, "histories.ndjson")
    with open(allof, "w") as f:
        for size in range(5 if run.thorough() else 3):
            p, _ = generic.emit(run, "CursorHistories", dict(SIZE=str(size), DEPTH="2"), "HIST", "h.ndjson")
            f.write(open(p).read())
    for i in range(4 if run.thorough() else 1):
        generic.check(run, "cursor", "CursorTrace", extra=("-in", allof), seed=run.seed + 7919 * i,
                      describe=lambda t, r: "operation %d of %s on %d octets: %s" % (
                          r["at"], [(o["op"], o["raw"]) for o in t["ops"][:r["at"]]], t["far"] or len(t["buf"]), r["op"]))
        if run.violations:
            break
    return "model_checking"


CHECKS["C20"] = c20


def c17(run):
    run.exhaustive = False
    run.assumptions = ["the clipboard tool is a script of the check", "help output is not judged",
                       "single runs are exhaustive up to the listed number of deviations from the default, histories over the core alphabet up to the listed depth"]
    allof = os.path.join(run.work, "runs.ndjson")
    deep = run.thorough()
    with open(allof, "w") as f:
        for env in (dict(MODE="single", DEPTH="3"), dict(MODE="history", DEPTH="3" if deep else "2")):
            p, _ = generic.emit(run, "CliHistories", env, "RUNS", "r.ndjson")
            f.write(open(p).read())
    exe = run.build_cli()
    for i in range(3 if deep else 1):
        generic.check(run, "runs", "CliTrace", extra=("-in", allof, "-bin", exe), seed=run.seed + 7919 * i,
                      describe=lambda t, r: "run %d of %s: code %d, stdout %s, stderr %s" % (
                          r["at"], [x["argv"] for x in t["runs"][:r["at"]]], t["runs"][r["at"] - 1]["code"],
                          generic.shorten(t["runs"][r["at"] - 1]["stdout"], 100), generic.shorten(t["runs"][r["at"] - 1]["stderr"], 100)))
        if run.violations:
            break
    return "model_checking"


CHECKS["C17"] = c17

NET_ASSUMPTIONS = ["the network is replaced at the HTTP transport of the standard library"]


def c18(run):
    run.exhaustive = False
    run.assumptions = NET_ASSUMPTIONS + ["listings are exhaustive in units of half pages up to the listed number; contents are random"]
    path, _ = generic.emit(run, "GitHubListings", dict(N="6" if run.thorough() else "5"), "LIST", "lists.ndjson")
    for i in range(4 if run.thorough() else 1):
        generic.check(run, "github", "GitHubTrace", extra=("-in", path), seed=run.seed + 7919 * i)
        if run.violations:
            break
    return "model_checking"


def c19(run):
    run.exhaustive = False
    run.assumptions = NET_ASSUMPTIONS + ["all combinations of configuration, kind of user ID and answer; values within a kind are random"]
    path, _ = generic.emit(run, "KeyServerCases", {}, "CASE", "cases.ndjson")
    for i in range(4 if run.thorough() else 1):
        generic.check(run, "hkp", "KeyServerTrace", extra=("-in", path), seed=run.seed + 7919 * i)
        if run.violations:
            break
    return "model_checking"


CHECKS["C18"] = c18
CHECKS["C19"] = c19


def c21(run):
    run.exhaustive = False
    run.assumptions = ["nobody changes the option set while dumps that use it are running",
                       "interleavings of calls are exhaustive for the listed numbers of dumps; dumps at the same time are scheduled by the Go runtime, under the race detector",
                       "the local time zone is fixed"]
    deep = run.thorough()
    out = run.tlc("SessionRuns", env=dict(MODE="packets", N="3", KINDS="all" if deep else "few", CTX="shared"))
    run.no_error("SessionRuns", out)
    allof = os.path.join(run.work, "runs.ndjson")
    with open(allof, "w") as f:
        for env in (dict(MODE="calls", N="2", KINDS="all", CTX="mixed"),
                    dict(MODE="coarse", N="3", KINDS="some" if deep else "few", CTX="shared")):
            p, _ = generic.emit(run, "SessionRuns", env, "RUN", "r.ndjson")
            f.write(open(p).read())

    def describe(t, r):
        e = t["events"][r["at"] - 1]
        return "%s: dump %d (%s) after %s: %s" % (t["kind"], e["s"], generic.shorten(t["inputs"][e["s"] - 1], 120),
                                                  [(x["s"], x["op"]) for x in t["events"][:r["at"]]][-12:], generic.shorten(e["text"], 150))
    # the race detector first: a process that dies has no traces
    exe = run.build_race()
    for i in range(3 if deep else 1):
        d = os.path.join(run.work, "race%d" % i)

        def once():
            return run.run_harness(["-cmd", "sessions-race", "-bin", run.harness], out=d, seed=run.seed + 7919 * i, ok=None, exe=exe, memory=0,
                                   env=dict(GORACE="halt_on_error=1 exitcode=66 atexit_sleep_ms=0"))
        p = once()
        if p.returncode != 0:
            certain = p.returncode == 66 and "gpgpdump/" in p.stderr.replace("verifharness", "")
            again = p if certain else once()
            if p.returncode == 3 or again.returncode == 0:
                raise Broken("race run ended with %d, then %d: %s" % (p.returncode, again.returncode, p.stderr[-2000:]))
            why = "data race" if p.returncode == 66 else "process ended with %d" % p.returncode
            run.violation("C21: dumps at the same time: %s: %s" % (why, generic.shorten(p.stderr, 600)), dict(stderr=p.stderr[-6000:]))
            return "model_checking"
        import json
        m = json.load(open(os.path.join(d, "record.json")))
        run.detail["dumps_under_race_detector"] = run.detail.get("dumps_under_race_detector", 0) + m["traces"]
    for i in range(3 if deep else 1):
        generic.check(run, "sessions", "SessionTrace", extra=("-in", allof), seed=run.seed + 7919 * i, describe=describe)
        if run.violations:
            break
    return "model_checking"


CHECKS["C21"] = c21


def c24(run):
    run.exhaustive = False
    run.assumptions = NET_ASSUMPTIONS + ["all combinations of command, answer and options; the data within a class is random"]
    path, _ = generic.emit(run, "NetRuns", {}, "RUN", "runs.ndjson")
    exe = run.build_cli()
    for i in range(3 if run.thorough() else 1):
        generic.check(run, "netruns", "NetTrace", extra=("-in", path, "-bin", exe), seed=run.seed + 7919 * i,
                      describe=lambda t, r: "%s: %s: code %d, stdout %s, local %s" % (
                          t["kind"], t["argv"], t["code"], generic.shorten(t["stdout"], 100), generic.shorten(t["local"], 150)))
        if run.violations:
            break
    return "model_checking"


CHECKS["C24"] = c24


def with_options(f):
    """First the option sets themselves: histories of settings."""
    def g(run):
        allof = os.path.join(run.work, "options.ndjson")
        deep = run.thorough()
        with open(allof, "w") as o:
            for env in (dict(ALPHABET="all", DEPTH="2"), dict(ALPHABET="few", DEPTH="6" if deep else "4")):
                p, _ = generic.emit(run, "OptionHistories", env, "HIST", "o.ndjson")
                o.write(open(p).read())
        for i in range(4 if deep else 1):
            generic.check(run, "options", "OptionTrace", extra=("-in", allof), seed=run.seed + 7919 * i,
                          describe=lambda t, r: "call %d of %s: %s" % (
                              r["at"], [(o["op"], o["c"], o["name"], o["flag"]) for o in t["ops"][:r["at"]]], generic.shorten(r["op"], 400)))
        return f(run) if not run.violations else "model_checking"
    return g


CHECKS["C12"] = with_options(CHECKS["C12"])


def with_bulk(f):
    """Afterwards the same property on large inputs, which are described rather than written out."""
    def g(run):
        level = f(run)
        if not run.violations:
            run.assumptions = list(run.assumptions) + ["large bodies are a short head followed by equal octets"]
            generic.check(run, "bulk", "BulkTrace", extra=("-prop", run.prop),
                          describe=lambda t, r: "%s via %s, %d octets: entry %d of %s, error %s" % (
                              t["kind"], t["via"] or "memory", t["size"], r["at"] + 1,
                              [(p["tag"], p["n"] or p["total"]) for p in t["packets"][:5]], t["err"]))
        return level
    return g


for _p in ("C02", "C03", "C08", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19", "C23", "C24"):
    CHECKS[_p] = with_bulk(CHECKS[_p])
