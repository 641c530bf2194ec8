#!/usr/bin/env python3
"""Applies each planted change of /verif/seeded to /repo in turn, runs checks against it, undoes it,
and prints which checks reported a violation. Not a check: nothing registered in MANIFEST.json uses it.

usage: seeded.py [--all] [ID...]   (--all: every check instead of the one of the change's property)
"""
import json, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def git(*a):
    return subprocess.run(["git", "-C", REPO, *a], capture_output=True, text=True)

def main():
    args = sys.argv[1:]
    everything = "--all" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(VERIF + "/seeded"))
    properties = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
    if git("status", "--porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    missed = 0
    for i in ids:
        d = f"{VERIF}/seeded/{i}"
        own = json.load(open(d + "/meta.json"))["property"]
        if git("apply", d + "/patch.diff").returncode:
            print(f"{i:28} does not apply", flush=True)
            continue
        try:
            caught, silent = [], []
            for p in properties if everything else [own]:
                r = subprocess.run(["python3", VERIF + "/tools/check.py", p, "quick"], capture_output=True, text=True, cwd=VERIF)
                if r.returncode == 1 and f"VIOLATION property={p} " in r.stdout:
                    caught.append(p)
                elif r.returncode not in (0, 1):
                    silent.append(p + "?")
        finally:
            git("checkout", "--", ".")
        ok = own in caught
        missed += not ok
        print(f"{i:28} {own} {'caught' if ok else 'MISSED'}  by {' '.join(caught + silent) or '-'}", flush=True)
    sys.exit(1 if missed else 0)

main()
