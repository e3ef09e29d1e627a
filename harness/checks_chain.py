"""C23: programs which are edited and filtered."""
import json
import gen, genarc, genstretch
from common import TIER, MachineryError, drive, rng, tlc
from checks_machine import pick

DEEP = TIER == "thorough"
FILTERS = "TEASCKX"
CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d\nDesign = \"%s\"\nFresh = %s\nEmit = %s\nINVARIANT AsText\nINVARIANT AsWritten\n"


def program(r, n=None):
    q = r.random()
    if q < 0.35:
        return gen.layered(r, layers=r.randint(0, 6), noise=r.choice([0, 0.2]))
    if q < 0.5:
        return gen.tracked(r, r.randint(1, 30), mode_first=r.random() < 0.8, noise=0.2, zdyadic=True)
    if q < 0.75:
        return genarc.single(r)[0] if r.random() < 0.7 else genarc.wild(r)
    return genstretch.DIALECTS[r.choice(["slic3r", "cura", "skein"])](r, wild=r.choice([0, 0.2]))[0]


def arcs_and_layers(r):
    """arcs which are the only thing printed in their layers"""
    ls, z = [], 0.0
    for _ in range(r.randint(1, 4)):
        z += 0.25
        ls.append("G1 Z%g F600" % z)
        ls += [l for l in genarc.single(r)[0] if "Z" not in l.upper() and "G28" not in l]
    return ls


def content(r):
    return r.choice(["G1 X%s Y%s" % (gen.num(gen.coord(r, 50, 2)), gen.num(gen.coord(r, 50, 2))), "G1 X%d E%d" % (r.randint(0, 50), r.randint(0, 9)), "G92 E0", "G91",
                     "G90", "M106 S%d" % r.randint(0, 255), "; note %d" % r.randint(0, 99), "G1 Z%s" % gen.num(r.randint(0, 30) * 10000), "G28", "M83",
                     "G92 X%d" % r.randint(-9, 9), "G20", "G21", "T%d" % r.choice([0, 1, 2, 11])])


def step(r, kind):
    o = {"op": kind}
    if kind == "T":
        o.update(x=gen.coord(r, 60, r.choice([0, 1, 3])), y=gen.coord(r, 60, r.choice([0, 1, 3])))
    elif kind == "P":
        o["p"] = r.choice([[0], [1], [2], [0, 1, 2, 3], [r.randint(0, 6)], list(range(40))])
    elif kind == "X":
        o["plan"] = r.choice([["none"], ["line"], ["del"], ["dup", "none", "none"], ["none", "none", "del"], ["pre", "line", "post"], ["new", "none", "line"]] +
                             [[r.choice(["none", "line", "del", "dup", "new", "pre", "post"]) for _ in range(r.randint(1, 7))]])
        o["new"] = content(r)
        o["box"] = r.choice(["list", "list", "tuple", "iter"])
    elif kind == "G":
        a, b = r.choice([(2000, 2200), (2300, 1900), (1800, 1805)])
        o["g"] = {"a": a, "b": b, "m": r.choice([0, 10000, 30000, 55000]), "n": r.choice([0, 0, 3, 10])}
    elif kind not in FILTERS:
        o["k"] = r.randint(1, 8)
        o["c"] = [content(r) for _ in range(r.choice([1, 1, 2, 3]))]
        if kind in ("append", "feed"):
            o["c"] = o["c"][:1]
    return o


def concrete(r, start, hist):
    """a history of the model: 1 and 2 are moves, 3 starts a layer"""
    n = [0]

    def text(x):
        n[0] += 1
        return "G1 Z%d.5" % n[0] if x == 3 else "G1 X%d Y%d E%d" % (n[0], x, n[0])
    starts = [[], [1, 3, 2], [3, 1, 3, 1, 2]]
    c = {"lines": [text(x) for x in starts[start - 1]], "steps": [], "reuse": 1}
    what = {"odd": {"op": "E"}, "twice": {"op": "X", "plan": ["none", "dup"], "new": "", "box": "list"}, "late": {"op": "A"}}
    if r.random() < 0.5:
        what["odd"] = {"op": "T", "x": 100000, "y": 200000}
    for o in hist:
        if o["op"] in what:
            c["steps"].append(dict(what[o["op"]]))
        else:
            c["steps"].append({"op": o["op"], "k": o["k"], "c": [text(x) for x in o["c"]], "exact": 1})
    return c


def traces_of(check, cases):
    traces = []
    for c, o in zip(cases, drive(check.work, "chain", cases)):
        ids = {}

        def num(xs):
            return [ids.setdefault(x, len(ids) + 1) for x in xs]
        t = {"err": o["err"], "steps": [], "s": [], "m226": num(["M226"])[0]}
        if not o["err"]:
            for s in o["s"]:
                t["s"].append(dict(s, y=[num(y) for y in s["y"]], l=num(s["l"]), w=num(s["w"])))
            for p in o["steps"]:
                q = {"op": p["op"], "k": p.get("k", 0), "c": num([x.strip() for x in p.get("c", []) if x.strip()]), "f": num(p.get("f", [])),
                     "g": num(p["g"]) if p["op"] == "G" else [], "seen": num(p.get("seen", [])), "plan": p.get("plan", []),
                     "new": num([p["new"]])[0] if p["op"] == "X" else 0, "dirty": p.get("dirty", 0)}
                t["steps"].append(q)
        traces.append(t)
    return traces


def c23(check):
    r = rng("C23")
    res = check.model("model", "MCChain", CFG % (4 if DEEP else 3, "both", "TRUE", "TRUE"))
    for design, fresh in (("never", "TRUE"), ("after", "TRUE"), ("before", "TRUE"), ("both", "FALSE")):
        # what the specification is for: designs which read the program again less often, or keep the state of filters, are refused
        if not tlc(check.work, "MCChain", CFG % (3, design, fresh, "FALSE")).violation:
            raise MachineryError("MCChain accepts the design %s %s" % (design, fresh))
    hists = [json.loads(p[1:]) for p in res.prints if p.startswith("P")]
    cases = [concrete(r, start, hist) for start, hist in pick("C23", hists, 3000, 60000)]
    check.sample(cases[0])
    check.validate("short histories", "VChain", traces_of(check, cases), cases)
    cases = []
    # every pair of steps, then longer sessions
    kinds = FILTERS + "PG"
    pairs = [(a, b) for a in FILTERS + "P" for b in kinds]
    for k in range((40 if DEEP else 6) * len(pairs)):
        a, b = pairs[k % len(pairs)]
        ls = arcs_and_layers(r) if k % 3 == 0 else program(r)
        cases.append({"lines": ls, "steps": [step(r, a), step(r, b)]})
    for k in range(4000 if DEEP else 500):
        steps = [step(r, r.choice(["append", "feed", "prepend", "prepend", "rewrite"] + list(kinds) * 2)) for _ in range(r.randint(1, 9))]
        if r.random() < 0.5:
            steps += [dict(r.choice(steps)) for _ in range(2)]
        c = {"lines": program(r), "steps": steps}
        if r.random() < 0.5:
            c["reuse"] = 1
        if r.random() < 0.3:
            c["other"] = arcs_and_layers(r) if r.random() < 0.5 else program(r)
        if r.random() < 0.2:
            c["home"] = [gen.coord(r, 50, 2) for _ in range(3)]
        cases.append(c)
    # what a program says of itself isn't said of the next one
    said = {"slic3r": ("S", "external perimeters extrusion width"), "cura": ("C", "CURA_PROFILE"), "skein": ("K", "<edgeWidth>")}
    for k in range(300 if DEEP else 36):
        d = genstretch.DIALECT_NAMES[k % 3]
        kind, mark = said[d]
        ls = [l for l in genstretch.DIALECTS[d](r)[0] if mark not in l]
        other = next(o for o in (genstretch.DIALECTS[d](r)[0] for _ in range(200)) if any(mark in l for l in o))
        cases.append({"lines": ls, "other": other, "reuse": 1, "steps": [step(r, kind)] + [step(r, kind) for _ in range(r.choice([0, 0, 1]))]})
    for c in cases:
        c["lines"] = [l for l in c["lines"] if l.strip()]
        if r.random() < 0.2:
            # what isn't an end of line stays within its line
            c["lines"].insert(r.randint(0, len(c["lines"])), "; note%s%s" % (r.choice(["\x0b", "\x0c", "\x1c", "\x85", "\u2028", "\r"]), r.choice(["G1 X7 Y7", "G91", "G92 X3", "one"])))
    check.sample(cases[0])
    check.sample(cases[-1])
    check.validate("sessions", "VChain", traces_of(check, cases), cases)
