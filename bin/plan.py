"""Size of each check: small scope models, then n random histories per round (one in the quick tier)."""
import os

PLAN = {
    "C01": {"n": 2000, "models": ["Decide"]},
    "C02": {"n": 1000, "models": ["Parts"]},
    "C03": {"n": 1200, "models": ["Pattern"]},
    "C04": {"n": 300, "models": ["Net"]},
    "C05": {"n": 2000, "models": ["Oper"]},
    "C06": {"n": 1200, "models": ["Proto"]},
    "C07": {"n": 700, "models": ["Tree"]},
    "C08": {"n": 500, "models": ["Quant", "Pairs", "List"]},
    "C09": {"n": 1200, "models": ["Cond"]},
    "C10": {"n": 1000, "models": ["Num"]},
    "C11": {"n": 1200, "models": ["Cond"]},
    "C12": {"n": 1400, "models": ["Attr"]},
    "C13": {"n": 400, "models": ["Ret"]},
    "C14": {"n": 1500, "models": ["Refs"]},
    "C15": {"n": 1500, "models": ["Life"]},
    "C16": {"n": 450, "models": ["Ret"]},
    "C17": {"n": 400, "models": ["Pure"]},
    "C18": {"n": 200, "race": True, "models": ["Conc"]},
    "C19": {"n": 700, "models": ["Trip"]},
    "C20": {"n": 200, "models": ["Hash"]},
    "C21": {"n": 600, "models": ["Mongo"]},
    "C22": {"n": 1000, "models": ["Parse"]},
    "C23": {"n": 3000, "models": ["Shape"]},
    "C24": {"n": 1200, "models": ["Time"]},
    "C25": {"n": 1400, "models": ["Cov"]},
    "C26": {"n": 400, "models": ["Note"]},
    "C27": {"n": 600, "models": ["Show"]},
}


def known(prop):
    """lines of the known-findings file that are open for this property"""
    out = []
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.txt")) as f:
        for line in f:
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: "):].strip())
    return out
