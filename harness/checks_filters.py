"""C08 translation, C09 rewriting of lines, C10 relative extrusion."""
import gen
from common import TIER, drive, rng
from tokens import token, other_words, comment_text
from checks_machine import programs_of, pick, v

DEEP = TIER == "thorough"


def full(line):
    r = token(line)
    r["ow"] = other_words(line)
    r["cm"] = comment_text(line)
    return r


def filter_traces(check, kind, cases):
    obs = drive(check.work, kind, cases)
    traces = []
    for c, o in zip(cases, obs):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        ts = [full(l) for l in ls]
        t = {"kind": kind, "h": [0, 0, 0], "err": o["err"], "L": ts, "O": [full(l) for l in o.get("o", [])], "ax": c.get("ax") or 0,
             "ay": c.get("ay") or 0, "dec3": int((c.get("ax") or 0) % 100 == 0 and (c.get("ay") or 0) % 100 == 0), "again": o.get("again", 1),
             "inches": int(any(x["c"] == "G20" for x in ts))}
        traces.append(t)
    return traces


def amount(r):
    k = r.random()
    if k < 0.12:
        return None
    if k < 0.2:
        return 0
    return gen.coord(r, 60, r.choice([0, 1, 3, 3, 3, 5]))


def tr_alphabet(r):
    return ["G90", "G91", "G1 X%s Y%s" % (v(r), v(r)), "G0 X%s" % v(r), "G1 Y%s E%s" % (v(r), v(r, 1, 9)), "G1 Z%s F900" % v(r, 1, 9), "G28",
            "G28 X", "G92", "G92 X%s" % v(r), "G92 Y%s E0" % v(r), "G2 X%s Y%s I1 J2" % (v(r), v(r)), "G28 Y0", "M83"]


def c08(check):
    check.prove("PTranslate")
    r = rng("C08")
    texts = tr_alphabet(r)
    if not DEEP:
        texts = texts[:12]
    ax, ay = gen.coord(r, 60, 2) or 100000, gen.coord(r, 60, 2) or -250000
    progs = programs_of(check, "model", "MCTranslate", texts, 6 if DEEP else 5, ["Shifted", "RestKept", "Knows", "Coordinates"],
                        env={"AX": str(ax), "AY": str(ay)})
    cases = []
    for p in pick("C08", progs, 6000, 120000):
        cases.append({"lines": p + [r.choice(["G1 X3 Y4", "G90", "G91"]), "G1 X1 Y2"], "ax": ax, "ay": ay})
    check.sample(cases[0])
    for k in range(6000 if DEEP else 700):
        if r.random() < 0.7:
            ls = gen.tracked(r, r.randint(3, 50), mode_first=r.random() < 0.9, noise=r.choice([0, 0.3]), digits=r.choice([1, 2, 3]), inches=r.random() < 0.5)
        else:
            ls = gen.layered(r, g92z=r.random() < 0.2)
        cases.append({"lines": ls, "ax": amount(r), "ay": amount(r)})
    for _, ls in gen.corpora(2000 if DEEP else 150):
        cases.append({"lines": ls, "ax": amount(r), "ay": amount(r)})
    check.sample(cases[-100])
    check.validate("translated programs", "VFilter", filter_traces(check, "translate", cases), cases, env={"WHAT": "C08"})


def c10(check):
    check.prove("PRelExt")
    r = rng("C10")
    texts = ["G90", "G91", "M82", "M83", "G92 E%s" % v(r, 1, 9), "G92", "G92 X1", "G1 X1 E%s" % v(r, 2, 9), "G0 E%s" % v(r, 2, 9), "G1 X%s" % v(r),
             "G1 E0", "G28", "G3 X1 Y1 I1 J0 E%s" % v(r, 1, 9)]
    if not DEEP:
        texts = texts[:11]
    progs = programs_of(check, "model", "MCRelExt", texts, 6 if DEEP else 5, ["FilamentKept", "PathKept"], "PROPERTY Idempotent\n")
    cases = [{"lines": p + ["G1 X2 E3"]} for p in pick("C10", progs, 6000, 120000)]
    check.sample(cases[0])
    for k in range(6000 if DEEP else 700):
        q = r.random()
        if q < 0.6:
            ls = gen.tracked(r, r.randint(3, 50), noise=r.choice([0, 0.3]), digits=r.choice([1, 3, 5]), inches=r.random() < 0.4)
        else:
            ls = gen.layered(r)
        if r.random() < 0.4:
            # keep to one positioning mode, so that conventions agree
            ls = [l for l in ls if "91" not in l and (q < 0.3 or "83" not in l)]
        cases.append({"lines": ls})
    for _, ls in gen.corpora(2000 if DEEP else 150):
        cases.append({"lines": ls})
    check.sample(cases[-100])
    check.validate("converted programs", "VFilter", filter_traces(check, "relext", cases), cases, env={"WHAT": "C10"})


def c09(check):
    r = rng("C09")
    # every order of a few words, comments and other words, on each command which is rewritten
    texts = ["G90", "M82", "G20", "G21", "G92 X%s ; origin" % v(r), "G1 X%s S3 (note X5) Y2 ;end E4" % v(r), "g1 e%s f900 x1 u2.5" % v(r, 2, 9),
             "N12 G1 Y%s E5 P (a)*33" % v(r), "G2 X1 Y%s I%s J-1 E2 ; arc" % (v(r), v(r, 3, 9)), "M117 X1 Y2 E3"]
    progs = programs_of(check, "model", "MCMachine", texts, 4 if DEEP else 3, ["AbsoluteMovesReach", "OnlyMovesMove"])
    n = 4000 if DEEP else 400
    for kind in ("translate", "relext"):
        r = rng("C09", kind)
        cases = []
        for p in pick("C09", progs, 1000, 10000):
            cases.append({"lines": ["G90"] + p, "ax": 1000000, "ay": -500000})
        for k in range(n):
            ls = gen.tracked(r, r.randint(3, 30), mode_first=r.random() < 0.8, noise=r.choice([0.5, 1.0]), digits=r.choice([1, 2, 3, 5]))
            cases.append({"lines": ls, "ax": amount(r), "ay": amount(r)})
        for _, ls in gen.corpora(1000 if DEEP else 100):
            cases.append({"lines": ls, "ax": amount(r), "ay": amount(r)})
        check.sample(cases[-100])
        check.validate(kind, "VFilter", filter_traces(check, kind, cases), cases, env={"WHAT": "C09"})
