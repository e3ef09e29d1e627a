"""C11 pauses, C12 visits."""
import gen
from common import TIER, drive, rng
from tokens import token
from checks_machine import programs_of, pick, v, layer_alphabet

DEEP = TIER == "thorough"


def visit_traces(check, cases):
    obs = drive(check.work, "visit", cases)
    traces = []
    for c, o in zip(cases, obs):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        ids = {}

        def num(x):
            return ids.setdefault(x, len(ids) + 1)
        t = {"kind": c["kind"], "h": c.get("home") or [0, 0, 0], "L": [token(l) for l in ls], "id": [num(l) for l in ls], "err": o["err"],
             "P": c.get("P", []), "M": num("M226"), "B": [], "Q": [num(x.strip()) for x in c.get("Q", [])], "E": [], "O": []}
        if not o["err"]:
            t["E"], t["B"] = o["E"], o["B"]
            t["O"] = [num(x) for x in o["o"]]
        traces.append(t)
    return traces


def model(check, name):
    r = rng(name, "alphabet")
    a = layer_alphabet(r)
    texts = [a[0], "G1 X1 Z%s E%s" % (a[1].split("Z")[1], r.randint(2, 9)), a[2], a[4], "G91", "M83", a[8], "G92 E0", "G90 ; E1", "M226",
             "G1 X1 E%d" % r.randint(10, 20), a[3]]
    if not DEEP:
        texts.remove("G90 ; E1")
        texts.remove(r.choice(["M226", "G91"]))
    progs = programs_of(check, "model", "MCVisit", texts, 5 if DEEP else 4, ["Sections", "EveryLineOnce", "Pauses", "Printing"])
    return pick(name, progs, 5000, 100000)


def programs(name, n):
    r = rng(name, "random")
    for k in range(n):
        if r.random() < 0.85:
            ls = gen.layered(r, g92z=r.random() < 0.15, noise=r.choice([0, 0.2]), layers=r.randint(0, 12))
        else:
            ls = gen.tracked(r, r.randint(3, 50), zdyadic=True, noise=0.2, inches=False)
        if r.random() < 0.2:
            ls.insert(r.randint(0, len(ls)), "M226")
        c = {"lines": ls}
        if r.random() < 0.2:
            c["home"] = [gen.coord(r, 50, 2) for _ in range(3)]
        yield c
    for _, ls in gen.corpora(4000 if DEEP else 400):
        yield {"lines": ls}
    for _ in range(8 if DEEP else 2):
        yield {"lines": gen.tall(r)}


def c11(check):
    progs = model(check, "C11")
    r = rng("C11", "requests")

    def request():
        q = [r.choice([0, 0, 1, 1, 2, 3, 5, -1, 40]) for _ in range(1 if r.random() < 0.7 else r.randint(0, 5))]
        return q
    cases = [dict(lines=p, kind="pause", P=r.choice([[0], [1], [0, 1, 7], [-1, 2]])) for p in progs]
    cases += [dict(c, kind="pause", P=request() if len(c["lines"]) < 500 else [r.randint(200, 310)], cli=int(k % 60 == 0)) for k, c in enumerate(programs("C11", 6000 if DEEP else 800))]
    for c in cases:
        c["again"] = r.choice([0, 0, 1])
        if c.get("cli"):
            c["P"] = c["P"][:1] or [0]
            c.pop("home", None)
    check.sample(cases[0])
    check.sample(cases[-100])
    check.validate("paused programs", "VVisit", visit_traces(check, cases), cases)


def c12(check):
    progs = model(check, "C12")
    r = rng("C12", "visitors")

    def visitor():
        k = r.random()
        if k < 0.5:
            return {"B": [], "Q": []}
        return {"B": [r.randint(0, 9) for _ in range(r.randint(1, 4))], "Q": r.sample(["M226", "; note", "M104 S200", "G1 X1 E5", "G4 P1"], r.randint(1, 3))}
    cases = [dict(lines=p, kind="visit", **visitor()) for p in progs]
    cases += [dict(c, kind="visit", **visitor()) for c in programs("C12", 6000 if DEEP else 800)]
    check.sample(cases[0])
    check.sample(cases[-100])
    check.validate("visits", "VVisit", visit_traces(check, cases), cases)
