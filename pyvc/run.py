"""Verify one contract / lemma:  python3-vt -m pyvc.run SPEC LABEL OUT BUDGET"""
import importlib
import json
import sys


def main():
    spec, label, out, budget = sys.argv[1:5]
    from pyvc.contracts import verify, prove_lemma
    m = importlib.import_module("specs." + spec)
    res = None
    for c in m.CONTRACTS:
        if c.label() == label:
            res = verify(c, list(m.CONTRACTS) + list(getattr(m, "EXTRA", [])),
                         budget=float(budget))
    for l in getattr(m, "LEMMAS", []):
        if l.name == label:
            res = prove_lemma(l)
    with open(out, "w") as f:
        json.dump(res.to_json(), f, default=str)


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main()
