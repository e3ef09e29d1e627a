"""C16, C17, C18: arcs."""
import json
import gen, genarc
from common import TIER, drive, rng
from checks_machine import pick
from tokens import token

DEEP = TIER == "thorough"
MOTION = {"G0", "G1", "G2", "G3", "G20", "G21", "G28", "G90", "G91", "G92", "M82", "M83"}


def arc_traces(check, cases, what):
    obs = drive(check.work, "arc", cases)
    traces = []
    for c, o in zip(cases, obs):
        texts = {}

        def rec(l):
            t = token(l)
            # without C17, only the motion of a line matters
            key = l if what == "C17" or t["c"] not in MOTION else json.dumps(t)
            t["s"] = texts.setdefault(key, len(texts))
            return t
        ls = [l.strip() for l in c["lines"] if l.strip()]
        pos, n = {}, 0
        for k, l in enumerate(c["lines"]):
            n += 1 if l.strip() else 0
            pos[k + 1] = n
        traces.append({"L": [rec(l) for l in ls], "O": [rec(l) for l in o.get("o", [])], "err": o["err"],
                       "must": [dict(m, a=pos[m["a"]], b=pos[m["b"]]) for m in c.get("must", [])]})
    return traces


def modeled(check, r):
    m = check.model("design", "MCArc", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS N = %d Min = 2\nINVARIANT Lossless\nINVARIANT Pure\nINVARIANT Complete\n" % (
        8 if DEEP else 7))
    found = sorted((p[1:] for p in m.prints if p.startswith("P")))
    res = []
    twice = [p for p in found if p.count("true") > 1]      # arcs which follow each other
    for p in pick(check.prop, found, 400, 10000) + pick(check.prop, twice, 200, 3000):
        p = json.loads(p)
        ls, must = genarc.classes(r, p["p"], p["arcs"])
        res.append({"lines": ls, "must": must})
    return res


def corpora():
    res = []
    for n, ls in gen.corpora(3000 if DEEP else 700):
        res.append({"lines": ls})
    return res


def arcs(check, what):
    r = rng(what)
    cases = modeled(check, r)
    check.sample(cases[-1])
    if what == "C18":
        for _ in range(5000 if DEEP else 700):
            ls, must = genarc.single(r)
            cases.append({"lines": ls, "must": must})
    else:
        for _ in range(8000 if DEEP else 900):
            cases.append({"lines": genarc.wild(r)})
        for _ in range(1000 if DEEP else 100):
            ls, must = genarc.single(r)
            cases.append({"lines": ls, "must": []})
        for _ in range(500 if DEEP else 60):
            cases.append({"lines": gen.tracked(r, r.randint(3, 60), noise=0.5)})
        cases += corpora()
    for k, c in enumerate(cases):
        if k % 40 == 0:
            c["cli"] = 1
    check.sample(cases[-30])
    check.validate("arcs", "VArc", arc_traces(check, cases, what), cases, env={"WHAT": what})


def c16(check):
    arcs(check, "C16")


def c17(check):
    arcs(check, "C17")


def c18(check):
    arcs(check, "C18")
