#!/usr/bin/env python3
"""seedrun.py [ID...]      runs the check of every planted bug's property on a scratch copy of /repo with the bug,
                            and records which check caught it in seeded/RESULTS.json; prints the table.
   seedrun.py -also C01,C05 ID...   further checks on it"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def run(sid, props):
    t = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(t, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.run(["git", "-C", repo, "apply", os.path.join(S, sid, "patch.diff")], check=True)
        env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=os.path.join(t, "b"), VERIF_EVIDENCE=os.path.join(t, "e"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
        out = {}
        for p in props:
            t0 = time.time()
            r = subprocess.run([os.path.join(V, "check"), p, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            hit = r.returncode == 1 and ("VIOLATION property=%s " % p) in r.stdout
            out[p] = dict(caught=hit, rc=r.returncode, s=round(time.time() - t0, 1))
            why = [l for l in r.stdout.splitlines() if l.startswith("case:")]
            i = r.stdout.find("case:")
            print(sid, p, "CAUGHT" if hit else "missed rc=%d" % r.returncode, "%.0fs" % (time.time() - t0), r.stdout[i:i + 260].replace("\n", " | ") if i >= 0 else r.stdout[-200:], flush=True)
        return out
    finally:
        shutil.rmtree(t)


def main():
    a = sys.argv[1:]
    also = []
    if a and a[0] == "-also":
        also, a = a[1].split(","), a[2:]
    f = os.path.join(S, "RESULTS.json")
    res = json.load(open(f)) if os.path.exists(f) else {}
    ids = a or sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d)))
    for i in ids:
        p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        res.setdefault(i, {}).update(run(i, [p] + [x for x in also if x != p]))
        json.dump(res, open(f, "w"), indent=1, sort_keys=True)
    print("%d bugs, own check catches %d" % (len(res), sum(any(v["caught"] for p, v in r.items()) for r in res.values())))


main()
