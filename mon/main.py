"Entry point: python -m mon.main C01 [--tier T] [--seed N] [--replay FILE]"
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

from . import core


def known_keys(prop):
    "Keys of this property listed as known findings: {key: text}"
    known = {}
    path = os.path.join(core.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("known: "):
                continue
            fields = line[len("known: "):].split(" ", 2)
            if fields[0] == "property=" + prop:
                known[fields[1].split("=", 1)[1]] = fields[2]
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--kind")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    args = ap.parse_args()
    tier = "thorough" if args.tier == "thorough" else "quick"
    t0 = time.time()
    home = os.getcwd()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % args.prop.lower())
    os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl")
    os.environ["TMPDIR"] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        code = run(args, tier, t0)
    finally:
        os.chdir(home)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(args, tier, t0):
    prop, seed = args.prop, args.seed
    mod = importlib.import_module("mon.checks." + prop.lower())
    assert mod.PROP == prop
    import gpkit
    if not os.path.abspath(gpkit.__file__).startswith(core.GPDIR):
        print("gpkit was not imported from %s" % core.REPO)
        return 2
    cpu_limit = getattr(mod, "CPU_LIMIT", 90)
    chunklen = getattr(mod, "CHUNK", 25)
    if args.replay:
        rep = json.load(open(args.replay if os.path.isabs(args.replay)
                             else os.path.join(core.VERIF, args.replay)))
        kind, start, stop = rep["chunk"]
        chunks, seed, tier = [(kind, start, stop)], rep["seed"], rep["tier"]
        mod.TIER = tier
    else:
        mod.TIER = tier
        chunks = []
        for kind, (_, quick, thorough) in mod.KINDS.items():
            if args.kind and kind != args.kind:
                continue
            n = int((quick if tier == "quick" else thorough)*args.scale)
            size = getattr(mod, "CHUNKS", {}).get(kind, chunklen)
            chunks += [(kind, i, min(i+size, n)) for i in range(0, n, size)]
        # interleave kinds so that a deadline cuts all of them evenly
        chunks.sort(key=lambda c: (c[1], c[0]))
    deadline = t0 + (getattr(mod, "QUICK_S", 300) if tier == "quick"
                     else getattr(mod, "THOROUGH_S", 3000))
    events, sigs, samples, skips = {}, set(), [], {}
    violations, errors, cases, lost = [], [], 0, 0
    bykind, done = {}, 0
    for chunk, res in core.run_chunks(mod, chunks, seed, args.jobs, deadline,
                                      cpu_limit):
        if res is None:
            lost += 1
            continue
        done += 1
        cases += res["cases"]
        bykind[chunk[0]] = bykind.get(chunk[0], 0) + res["cases"]
        for k, v in res["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in res["skips"].items():
            skips[k] = skips.get(k, 0) + v
        sigs.update(res["sigs"])
        if len(samples) < 6:
            samples += res["samples"][:2]
        for v in res["violations"]:
            v["chunk"] = list(chunk)
            violations.append(v)
        errors += res["errors"]
    known = known_keys(prop)
    new = [v for v in violations if v["key"] not in known]
    evidence = {
        "property": prop, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs),
            "rule": mod.RULE, "samples": samples[:6],
            "cases_by_kind": bykind, "monitor_events": events,
            "skipped": skips, "chunks_cut_by_deadline": len(chunks)-done-lost,
            "chunks_lost": lost,
            "known_findings_seen": sorted({v["key"] for v in violations
                                           if v["key"] in known}),
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(time.time()-t0, 2), "violations": len(new)}
    evdir = os.path.join(core.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not args.replay:
        tmp = os.path.join(evdir, ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(evidence, f, indent=1, default=str)
        os.replace(tmp, os.path.join(evdir, prop + ".json"))
    for key, what in known.items():
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, key, what))
    if errors:
        print("HARNESS ERRORS: %i" % len(errors))
        for e in errors[:3]:
            print(e["case"], e["err"])
    print("%s %s seed=%s: %i cases (%i distinct non-trivial), %i violations,"
          " %.1fs" % (prop, tier, seed, cases, len(sigs), len(new),
                      time.time()-t0))
    print("events:", json.dumps(events, sort_keys=True))
    if skips:
        print("skips:", json.dumps(skips, sort_keys=True))
    if new:
        repdir = os.path.join(evdir, "replays")
        os.makedirs(repdir, exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault(v["key"], []).append(v)
        for i, (key, vs) in enumerate(sorted(seen.items(),
                                             key=lambda kv: -len(kv[1]))):
            if i >= 8:
                break
            v = vs[0]
            path = os.path.join(repdir, "%s-%i.json" % (prop, i))
            kind, start, _ = v["chunk"]
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier,
                           "chunk": [kind, start, v["case"][1]+1],
                           "case": v["case"], "key": key, "count": len(vs),
                           "msg": v["msg"],
                           "cmd": "./run.sh %s --replay %s" % (prop, path)},
                          f, indent=1)
            print("  [%s] x%i case %s: %s" % (key, len(vs), v["case"],
                                             v["msg"][:700]))
            if i == 0:
                first = path
        print("VIOLATION property=%s replay=%s" % (prop, first))
        return 1
    if errors or lost:
        print("INCONCLUSIVE: harness errors or lost chunks (%i)" % lost)
        return 2
    if not args.replay and not args.kind and args.scale == 1.0:
        short = {k: (events.get(k, 0), n) for k, n in mod.NEED.items()
                 if events.get(k, 0) < n}
        if short or cases == 0:
            print("INCONCLUSIVE: monitors not reached often enough: %s" % short)
            return 2
    return 0


if __name__ == "__main__":
    main()
