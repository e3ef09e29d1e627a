"""C05: editing a program in place."""
import json
import gen
from common import TIER, drive, rng
from checks_machine import pick, routes

DEEP = TIER == "thorough"
STARTS = [[], ["G1 X1", "G1 Z0.2", "G1 X2 E1"], ["G1 Z0.2", "G1 Z0.4", "G1 Z0.6", "M84 "]]


def c05(check):
    r = rng("C05")
    res = check.model("model", "MCEdit", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\nStarts = 3\nNews = 2\nINVARIANT InStep\n"
                      "INVARIANT NothingTwice\nINVARIANT OthersKept\n" % (4 if DEEP else 3))
    hists = [json.loads(p[1:]) for p in res.prints if p.startswith("P")]

    def text(n, plain=False):
        return ["M117 line%d", "G1 X%d", "G1 Z%d.5", "; note %d", "T%d"][n % 5] % n
    blanks = ["", "  ", "\t"]
    cases = []
    for start, hist in pick("C05", hists, 6000, 100000):
        ops = []
        for o in hist:
            cs = [r.choice(["", " ", "\t"]) + text(n) + r.choice(["", " ", "\n"]) for n in o["c"]]
            if o["op"] in ("prepend", "rewrite"):
                if r.random() < 0.3:
                    cs.insert(r.randint(0, len(cs)), r.choice(blanks))
            elif not cs:
                cs = [r.choice(blanks)]
            ops.append({"op": o["op"], "k": o["k"], "c": cs})
        cases.append({"lines": STARTS[start - 1], "ops": ops})
    for _ in range(6000 if DEEP else 500):
        q = r.random()
        ls = [] if q < 0.15 else gen.layered(r, layers=r.randint(0, 5), noise=0.1) if q < 0.8 else gen.tracked(r, r.randint(1, 20))
        ops = []
        for k in range(r.randint(1, 14)):
            cs = [r.choice(blanks) if r.random() < 0.2 else text(r.randint(0, 99)) + " k%d" % k for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
            op = r.choice(["append", "append", "feed", "prepend", "prepend", "rewrite"])
            if op in ("append", "feed"):
                cs = (cs + [text(k)])[:1]
            ops.append({"op": op, "k": r.randint(1, 8), "c": cs, "fit": 1})
        cases.append({"lines": ls, "ops": ops})
    check.sample(cases[0])
    check.sample(cases[-1])
    for k in range(12 if DEEP else 3):
        # hundreds of layers, and of lines in a layer
        ls = gen.tall(r) + [text(r.randint(0, 99)) for _ in range(9)] if k % 3 else ["G1 X%d" % j for j in range(r.randint(258, 300))]
        ops = [{"op": r.choice(["append", "prepend", "rewrite"]), "k": r.randint(200, 300), "c": [text(r.randint(0, 99)) + " k%d" % j], "fit": 1} for j in range(4)]
        cases.append({"lines": ls, "ops": ops})
    routes("edit", cases)
    obs = drive(check.work, "edit", cases)
    traces = []
    for c, o in zip(cases, obs):
        ids = {}

        def num(x):
            return ids.setdefault(x, len(ids) + 1)
        t = {"err": o["err"], "ops": [], "s": []}
        if not o["err"]:
            for s in o["s"]:
                t["s"].append({"y": [[num(x) for x in y] for y in s["y"]], "l": [num(x) for x in s["l"]], "x": s["x"], "n": s["n"],
                               "w": [num(x) for x in s["w"]]})
            for p in o["ops"]:
                t["ops"].append({"op": p["op"], "k": p["k"], "c": [num(x.strip()) for x in p["c"] if x.strip()]})
        traces.append(t)
    check.validate("histories", "VEdit", traces, cases)
