"""C22: estimated duration."""
import re
import gen
from common import TIER, drive, rng
from checks_machine import programs_of, pick, routes, v, write_ndjson
from tokens import token, split_words

DEEP = TIER == "thorough"


def wait(line):
    """of a G4, in tenths of ms"""
    words = split_words(line)[0]
    for a, b in words[1:]:
        if a == "P" and b.strip("+-."):
            return min(round(float(b) * 10), 800000000)
    return 0


def traces_of(check, cases):
    routes("duration", cases)
    obs = drive(check.work, "duration", cases)
    res = []
    for c, o in zip(cases, obs):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        t = {"h": c.get("home") or [0, 0, 0], "L": [token(l) for l in ls], "w": [wait(l) for l in ls], "err": o["err"],
             "lay": [], "d": [], "total": 0, "n": [0, 0]}
        for k in ("lay", "d", "total", "n"):
            if not o["err"]:
                t[k] = o[k]
        res.append(t)
    return res


def paced(r, n):
    """a program with many feedrates, turns, waits and changes of mode"""
    out = []

    def add(c, words=(), **kw):
        out.append(gen.line(c, words, r, noise, **kw))
    noise = r.choice([0, 0, 0.2])
    inch = r.random() < 0.15
    mag = 25 if inch else 1
    if inch:
        add("G20")
    if r.random() < 0.9:
        add("G1", [("f", r.choice([300, 600, 1200, 1500, 1800, 3000, 6000, 7800]) * 100000 // mag)])
    x = y = z = e = 0
    dx, dy = 3, 1
    rel = rel_e = False
    while len(out) < n:
        k = r.random()
        if k < 0.6:
            q = r.random()
            if q < 0.5:       # about the same direction
                dx, dy = dx + r.randint(-2, 2), dy + r.randint(-2, 2)
            elif q < 0.6:
                dx, dy = -dx, -dy
            elif q < 0.7:
                dx, dy = r.choice([(dy, 0), (0, dx), (0, -dx)])
            else:
                dx, dy = r.randint(-40, 40), r.randint(-40, 40)
            u = r.choice([100, 1000, 13000, 40000, 100000]) // (10 if inch else 1)
            u -= u % 100
            mx, my = dx * u, dy * u
            if abs(x + mx) > 20000000: mx = -mx
            if abs(y + my) > 20000000: my = -my
            ws = []
            if mx and r.random() < 0.9: ws.append(("x", mx if rel else x + mx)); x += mx
            if my and r.random() < 0.9: ws.append(("y", my if rel else y + my)); y += my
            if r.random() < 0.3:
                d = r.randint(-20, 60) * 1000
                ws.append(("e", d if rel_e else e + d)); e += d
            if r.random() < 0.1:
                d = r.randint(-20, 60) * 1000
                ws.append(("z", d if rel else z + d)); z += d
            if r.random() < 0.35:
                ws.append(("f", r.choice([60, 300, 600, 1200, 1234.5, 1500, 1800, 3000, 6000, 7800, 12000])))
                ws[-1] = ("f", int(ws[-1][1] * 100000) // mag)
            add(r.choice(["G1", "G1", "G0"]), ws)
        elif k < 0.7:
            d = r.choice([-200000, -80000, 80000, 200000, 500000]) // mag
            d -= d % 10
            add("G1", [("e", d if rel_e else e + d)]); e += d
        elif k < 0.76:
            d = r.randint(-20, 40) * 2500 // mag
            d -= d % 10
            add("G1", [("z", d if rel else z + d)]); z += d
        elif k < 0.82:
            c = r.choice(["G4", "G4", "g4"])
            out.append(c + r.choice([" P%d" % r.randint(0, 3000), " P%d" % r.randint(0, 100), "P12.5", " p%d" % r.randint(1, 500), "", " S1",
                                     " P250 ; P900", " (P7) P30"]))
        elif k < 0.88:
            c = r.choice(["G90", "G91", "M82", "M83"])
            rel = {"G90": False, "G91": True}.get(c, rel)
            rel_e = {"G90": False, "G91": True, "M82": False, "M83": True}[c]
            add(c)
        elif k < 0.94:
            ws = [(a, r.choice([0, 100000, -250000, 1000000])) for a in "xyze" if r.random() < 0.4]
            add("G92", ws)
            d = dict(ws)
            if not ws:
                x = y = z = e = 0
            x, y, z, e = d.get("x", x), d.get("y", y), d.get("z", z), d.get("e", e)
        elif k < 0.97:
            add("G28", [(a, None) for a in "xyz" if r.random() < 0.3])
            x = y = z = 0
        else:
            out.append(r.choice(["; G4 P500", "M106 S255", "(wait)", "M104 S200", "T1", "M117 P400 X3"]))
    return out


def c22(check):
    r = rng("C22", "alphabet")
    f = lambda: r.choice([600, 1200, 1800, 2400, 4200, 7800])
    a, b = r.randint(1, 9), r.randint(10, 60)
    texts = ["G1 X%d F%d" % (b, f()), "G1 X%d Y%s F%d" % (a, v(r), f()), "G0 Y%s" % v(r), "G91", "G90", "G92 X0 E%d" % a, "G92", "G28",
             "G4 P%d" % r.randint(1, 900), "G1 E%s F%d" % (v(r, 1, 5), f()), "G1 Z%s" % v(r, 2, 5), "G1 X%d Y%s" % (-b, v(r)), "M83"]
    if not DEEP:
        texts.remove(r.choice(["M83", "G28", "G92"]))
    rows = [dict(token(t), w=wait(t)) for t in texts]
    path = check.work.file("timed.ndjson")
    write_ndjson(path, rows)
    import json
    m = check.model("model", "MCDuration", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\nINVARIANT ModesDontCount\nINVARIANT Bounded\n"
                    "INVARIANT NoFeedrate\n" % (5 if DEEP else 4), {"ALPHABET": path})
    progs = [[texts[k - 1] for k in json.loads(p[1:])] for p in m.prints if p.startswith("P")]
    cases = [{"lines": ["G1 F1500"] * (k % 2) + p + ["G1 X40 Y1 E3"]} for k, p in enumerate(pick("C22", progs, 5000, 100000))]
    check.sample(cases[len(cases) // 2])
    check.validate("all short programs", "VDuration", traces_of(check, cases), cases)
    r = rng("C22", "random")
    cases = []
    for k in range(6000 if DEEP else 700):
        c = {"lines": paced(r, r.randint(2, 40))}
        if r.random() < 0.08:
            # minutes to days
            days = r.random() < 0.4
            for _ in range(3 if days else r.randint(1, 3)):
                c["lines"].insert(r.randint(0, len(c["lines"])), "G4 P%d" % (r.randint(28900000, 29600000) if days else r.choice([1, 9]) * r.randint(61000, 1000000)))
        if r.random() < 0.25:
            c["home"] = [gen.coord(r, 50, 2) for _ in range(3)]
        if k % 25 == 0 and "home" not in c:
            c["main"] = 1
        cases.append(c)
    for k in range(2000 if DEEP else 200):
        cases.append({"lines": ["G1 F%d" % f()] + gen.layered(r, noise=r.choice([0, 0.2]))})
    for _, ls in gen.corpora(3000 if DEEP else 250):
        cases.append({"lines": ls})
    check.sample(cases[0])
    check.validate("random programs", "VDuration", traces_of(check, cases), cases)
