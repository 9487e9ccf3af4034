#!/usr/bin/env python3
"""Demonstrates the binding: changes one recorded result at a time in logs of real runs and
shows that the specification refuses every corrupted log at the changed call.

usage: corrupt.py [PROPERTY...]      environment: VERIF_SEED
"""
import copy
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check     # noqa: E402
import gen       # noqa: E402
import plan      # noqa: E402

# results that say how the call was made, or are free
FREE = {"err", "race", "type"}


def wrong(x, r):
    """a different value of the same kind"""
    if isinstance(x, bool):
        return not x
    if isinstance(x, int):
        return x + r.choice([1, -1])
    if isinstance(x, str):
        return x + "x"
    if isinstance(x, list):
        return x[:-1] if x else None
    return None


def main():
    seed = os.environ.get("VERIF_SEED", "0")
    r = random.Random(seed)
    for prop in sys.argv[1:] or sorted(plan.PLAN):
        work = tempfile.mkdtemp(prefix="corrupt-")
        try:
            run = check.Run(prop, work)
            run.build()
            hs = gen.histories(prop, seed, 40)
            logs = run.drive_all(hs)
            if run.validate(logs):
                raise check.Broken("the unchanged log is refused")
            bad, want = [], []
            seen = set()
            for _ in range(400):
                h = r.choice(logs)
                i = r.randrange(len(h["ev"]))
                op, obs = h["ev"][i]["op"], h["ev"][i]["obs"]
                k = r.choice(sorted(obs))
                if k in FREE or (op == "snap" or op == "msnap") and k == "text":
                    continue
                v = "boom" if k == "panic" else wrong(obs[k], r)
                if v is None:
                    continue
                c = copy.deepcopy(h)
                c["ev"][i]["obs"][k] = v
                bad.append(c)
                want.append((i, op + "." + k))
            got = run.validate(bad)
            missed = [want[j][1] for j in range(len(bad)) if got.get(j, (-1,))[0] != want[j][0]]
            seen = sorted({w[1] for w in want})
            print("%s: %d corrupted logs, %d refused at the changed call; fields %s%s" % (
                prop, len(bad), len(bad) - len(missed), " ".join(seen), "; ACCEPTED " + " ".join(sorted(set(missed))) if missed else ""), flush=True)
        finally:
            shutil.rmtree(work)


main()
