#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's working tree and the harness, searches, reports, writes the evidence."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jobs = max(1, min(8, os.cpu_count() or 1))
    build = os.path.join(V, "build")
    targets = [f"{build}/{prop}.bin"]
    extra = open(f"{V}/harness/{prop}.cpp").read().split("// needs:")[1:]
    targets += [f"{build}/{t}" for t in (extra[0].split("\n")[0].split() if extra else [])]
    r = subprocess.run(["make", "-C", V, f"-j{jobs}"] + targets, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        print(r.stdout[-4000:]); print(f"ERROR: the build for {prop} failed"); return 2
    built = time.time() - t0
    replays = os.path.join(V, "replays"); os.makedirs(replays, exist_ok=True)
    with tempfile.TemporaryDirectory(prefix=f"verif-{prop}-") as scratch:
        out = os.path.join(scratch, "report.json")
        env = dict(os.environ, VERIF_BUILD=build, VERIF_DIR=V, TMPDIR=scratch)
        seconds = "300" if tier == "quick" else "600"
        r = subprocess.run([targets[0], "--seed", str(seed), "--tier", tier, "--jobs", str(jobs), "--seconds", seconds, "--replays", replays, "--out", out, "--scratch", scratch], env=env, cwd=scratch)
        try: rep = json.load(open(out))
        except Exception as e: print(f"ERROR: the harness of {prop} ended with {r.returncode} and no report: {e}"); return 2
    known = [k for k in json.load(open(f"{V}/known_findings.json"))["findings"] if k["property"] == prop]
    unknown_ids = set(rep["known"]) - {k["id"] for k in known}
    cov = {"evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"], "rule": rep["rule"], "samples": rep["samples"],
           "facets": rep["facets"], "search_s": rep["search_s"], "build_s": round(built, 1), "budget_cut": rep["budget_cut"],
           "known_findings_met": rep["known"], "unconfirmed": rep.get("unconfirmed", [])}
    v = rep["violations"]
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
               "assumptions": ["generated-input search: says nothing about inputs it did not generate", "/repo built with g++ -O1 and the address and undefined-behaviour sanitizers, with shims for the argument parser and range headers"],
               "wall_s": round(time.time() - t0, 2), "violations": len(v)}, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    for k in known: print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for f in rep["facets"]: print(f"{prop} {f['facet']}: {f['evaluations']} cases, {f['distinct_nontrivial']} distinct non-trivial")
    if unknown_ids: print(f"ERROR: harness names findings that are not listed: {unknown_ids}"); return 2
    for x in v:
        print(f"--- {prop} {x['facet']}: {x['message'][:2000]}\n--- case:\n{x['case'][:2000]}")
        print(f"VIOLATION property={prop} replay={x['replay']}")
    return 1 if v else 0
if __name__ == "__main__": sys.exit(main())
