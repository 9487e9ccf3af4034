#!/usr/bin/env python3
"""Development aid: runs the check of each planted bug on a patched scratch copy of /repo.

usage: seeded.py [ID...]      environment: VERIF_SEED, VERIF_REPO, JOBS
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(name):
    d = os.path.join(HERE, "seeded", name)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    work = tempfile.mkdtemp(prefix="seeded-")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["cp", "-r", os.environ.get("VERIF_REPO", "/repo"), repo], check=True)
        r = subprocess.run(["git", "-C", repo, "apply", os.path.join(d, "patch.diff")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return name, prop, "patch does not apply: " + r.stdout
        env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=os.path.join(work, "evidence"))
        r = subprocess.run([sys.executable, os.path.join(HERE, "bin", "check.py"), prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        last = r.stdout.strip().split("\n")
        if r.returncode == 1:
            return name, prop, "caught: " + (last[-2] if len(last) > 1 else "")[:200]
        return name, prop, "MISSED (%d) %s" % (r.returncode, last[-1][:300])
    finally:
        shutil.rmtree(work)


def main():
    names = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "3"))) as ex:
        for name, prop, res in ex.map(one, names):
            print(prop, name, res, flush=True)


main()
