"""Seeded generators of g-code programs (values are integers in units of 1e-5)."""
import os
from common import REPO

NOISE = ["perimeter", "TYPE:WALL", "x=1 y=2", "G1 X5", "M83", "note", "100%", "e", "stop*", "a/b"]


def num(v, r=None, plain=False):
    """text of v * 1e-5"""
    sign = "-" if v < 0 else ""
    a, b = divmod(abs(v), 100000)
    frac = ("%05d" % b).rstrip("0")
    if plain or r is None:
        return sign + (str(a) + "." + frac if frac else str(a))
    k = r.random()
    if not sign and k < 0.04:
        sign = "+"
    head = str(a)
    if a == 0 and frac and k > 0.9:
        head = ""
    if not frac:
        return sign + (head + "." if 0.05 < k < 0.1 else head + ".000" if k < 0.3 else head)
    if k < 0.2:
        frac = (frac + "00000")[:5]
    return sign + head + "." + frac


def line(c, words=(), r=None, noise=0.0, other=(), comment=None):
    """render a command; words: list of (letter, scaled value or None); other: list of word texts"""
    ws = [(a.upper() + ("" if v is None else num(v, r if noise else None))) for a, v in words] + list(other)
    comments = [comment] if comment else []
    if r is not None and noise and r.random() < noise:
        k = r.random()
        if k < 0.15:
            r.shuffle(ws)
        if k < 0.25 and ws:
            ws.insert(r.randint(0, len(ws)), "(" + r.choice(NOISE) + ")")
        elif k < 0.35:
            ws.append(r.choice(["S3", "P1", "A2.5", "Q", "U-1"]))
        if r.random() < 0.25:
            comments.append("; " + r.choice(NOISE) * (1 if r.random() < 0.97 else r.randint(20, 100)))
        if r.random() < 0.15:
            ws = [w.lower() for w in ws]
            c = c.lower() if r.random() < 0.5 else c
        sep = r.choice([" ", " ", " ", "  ", "", "\t"]) if all(not w.startswith("(") for w in ws) else " "
        s = sep.join([c] + ws)
        if r.random() < 0.06:
            s = "N%d " % r.randint(0, 999) + s
            if r.random() < 0.5 and not comments:
                s += "*%d" % r.randint(0, 255)
        if r.random() < 0.04:
            s = "(pre) " + s
    else:
        s = " ".join([c] + ws)
    for k in comments:
        s += (" " if k and r is None or r is None or r.random() < 0.8 else "") + k
    if r is not None and noise and r.random() < 0.05:
        s = " " * r.randint(0, 3) + s + " " * r.randint(0, 2)
    return s


FILLER = ["M104 S200", "M106 S255", "M107", "; comment", "(comment)", "M117 Hello X1 Y2", "G4 P100", "M84", ";", "M109 S190 ; wait",
          "G21", "M400", "M73 P10"]


def coord(r, lim=200, digits=3):
    k = r.random()
    if k < 0.25:
        v = r.randint(-lim, lim) * 100000
    else:
        v = r.randint(-lim * 10 ** digits, lim * 10 ** digits) * 10 ** (5 - digits)
    return v


def tracked(r, n, inches=True, digits=3, noise=0.3, epos=True, ambiguous=True, home_first=0.5, mode_first=False, zdyadic=False,
            relative=True, g92=True, lim=200, big=True):
    """a random program exercising every mode"""
    out = []

    def add(c, words=(), **kw):
        out.append(line(c, words, r, noise, **kw))
    if r.random() < home_first:
        add("G28")
    if mode_first:
        add("G90" if not relative or r.random() < 0.7 else "G91")
    mag = 1
    ecur = 0
    if big and r.random() < 0.08:
        # most of a spool
        out.append("G1 E%d" % r.choice([1200, 3500, 8000, 8000]))
        if r.random() < 0.7:
            add("G92", [("e", 0)])
    while len(out) < n:
        k = r.random()
        if k < 0.62:
            ws = []
            if r.random() < 0.6: ws.append(("x", coord(r, lim if mag == 1 else 8, digits)))
            if r.random() < 0.6: ws.append(("y", coord(r, lim if mag == 1 else 8, digits)))
            if r.random() < 0.2: ws.append(("z", coord(r, 20 if mag == 1 else 2, 1 if zdyadic else min(digits, 2))))
            if r.random() < 0.5:
                q = r.random()
                ecur = ecur + (r.randint(-20000, 60000) if q < 0.75 else r.choice([0, 1, 2, 5, 9, -1, -3])) if q < 0.83 else r.randint(-100000, 900000)
                ws.append(("e", ecur if r.random() < 0.7 else r.randint(-30000, 50000)))
            if r.random() < 0.2: ws.append(("f", r.choice([600, 1200, 1500, 3000, 7800]) * 100000 // (1 if mag == 1 else 20)))
            if r.random() < 0.05: ws.append((r.choice("xyze"), None))
            c = r.choice(["G1", "G1", "G1", "G1", "G0", "G0", "G2", "G3"])
            if c in ("G2", "G3") or r.random() < 0.04:
                ws += [("i", coord(r, 5, digits)), ("j", coord(r, 5, digits))]
            add(c, ws)
        elif k < 0.70 and relative:
            add(r.choice(["G90", "G91"]))
        elif k < 0.75:
            add(r.choice(["M82", "M83"]))
        elif k < 0.82 and g92:
            ws = []
            for a in "xyze":
                if r.random() < 0.4:
                    v = 0 if r.random() < 0.4 else coord(r, 20 if mag == 1 else 2, 1 if (zdyadic and a == "z") else digits)
                    ws.append((a, v))
                    if a == "e": ecur = v
            if not ws: ecur = 0
            add("G92", ws)
        elif k < 0.87:
            ws = [(a, None if r.random() < 0.5 else 0) for a in "xyz" if r.random() < 0.35]
            add("G28", ws)
        elif k < 0.90 and inches:
            c = r.choice(["G20", "G21"])
            mag = 25 if c == "G20" else 1
            add(c)
        elif k < 0.93:
            add("T%d" % (r.randint(0, 3) if r.random() < 0.7 else r.choice([9, 10, 12, 25])))
        else:
            f = r.choice(FILLER)
            if f == "G21": mag = 1
            out.append(f)
    return out


def tall(r, **kw):
    """hundreds of layers"""
    kw.setdefault("travel_heights", False)
    return layered(r, layers=r.randint(420, 460), maxseg=1, **kw)


def layered(r, layers=None, hops=True, travel_heights=True, revisit=True, e_modes=True, zstyle=None, noise=0.0, g92z=False, relz=True,
            decimals=2, start=True, maxseg=4, temps=True, extrude_on_z=True):
    """a slicer-like program; heights are at least 0.05 mm apart, often multiples of 0.01 mm"""
    out = []

    def add(c, words=(), **kw):
        out.append(line(c, words, r, noise, **kw))
    layers = layers if layers is not None else r.randint(0, 6)
    step = r.choice([5, 10, 20, 25, 30, 35]) * 1000
    z = r.choice([5, 20, 30, 35]) * 1000
    if r.random() < 0.25:
        step = r.choice([12500, 6200, 6300, 26700, 17500, 33300, 31250, 20320, 6250])
        z = r.choice([z, step, 26700])
    rel_e = e_modes and r.random() < 0.4
    e = 0
    if start:
        if r.random() < 0.7: out.append("; generated by a slicer")
        if r.random() < 0.7: add("G28")
        if r.random() < 0.5: add("G21")
        if r.random() < 0.8: add("G90")
        if rel_e: add("M83")
        elif r.random() < 0.5: add("M82")
        if temps and r.random() < 0.5: add("M109", other=["S%d" % r.randint(180, 240)])
        if r.random() < 0.3: add("G92", [("e", 0)])
    elif rel_e:
        add("M83")
    if r.random() < 0.3:
        add("G1", [("z", 500000), ("f", 500000000)])
    f = 180000000

    def ext(ws):
        nonlocal e
        de = r.randint(1, 50) * 100
        if rel_e:
            ws.append(("e", de))
        else:
            e += de
            ws.append(("e", e))
        return ws

    def body(extruding):
        for _ in range(r.randint(1, maxseg)):
            k = r.random()
            if k < 0.65:
                ws = [("x", coord(r, 100, decimals)), ("y", coord(r, 100, decimals))]
                if extruding: ext(ws)
                if r.random() < 0.2: ws.append(("f", f))
                add("G1", ws)
            elif k < 0.75:
                add("G0", [("x", coord(r, 100, decimals)), ("y", coord(r, 100, decimals))])
            elif k < 0.82:
                if rel_e: add("G1", [("e", -100000)]); add("G1", [("e", 100000)])
                else: add("G1", [("e", e - 100000)]); add("G1", [("e", e)])
            elif k < 0.88 and not rel_e:
                add("G92", [("e", 0)])
                e_reset()
            else:
                out.append(r.choice(["; note", "M106 S%d" % r.randint(0, 255), "(x)", "M204 S500", "T0"]))

    def e_reset():
        nonlocal e
        e = 0

    heights = []
    cur = None
    for k in range(layers):
        if heights and revisit and r.random() < 0.1:
            h = r.choice(heights)
        else:
            h = z
            z += step
        heights.append(h)
        style = zstyle or r.choice(["z", "z", "z", "xyz", "xyze" if extrude_on_z else "xyz", "rel" if relz else "z"])
        if style == "z":
            add(r.choice(["G0", "G1"]), [("z", h), ("f", f)])
        elif style == "rel" and cur is not None and cur != h:
            add("G91"); add("G1", [("z", h - cur)]); add("G90")
            if rel_e: add("M83")
        elif style == "xyze":
            add("G1", ext([("x", coord(r, 100, decimals)), ("y", coord(r, 100, decimals)), ("z", h)]))
        else:
            add("G1", [("x", coord(r, 100, decimals)), ("y", coord(r, 100, decimals)), ("z", h)])
        cur = h
        if g92z and r.random() < 0.15:
            nz = r.choice([0, 20000, 100000])
            add("G92", [("z", nz)])
            z = nz + step
            cur = nz
        if r.random() < 0.3: out.append(";LAYER:%d" % k)
        extruding = not (travel_heights and r.random() < 0.15)
        body(extruding)
        if hops and r.random() < 0.25:
            d = r.choice([40000, 50000, step])
            if r.random() < 0.3 and relz:
                add("G91"); add("G1", [("z", d)]); add("G90")
                if rel_e: add("M83")
                cur = h + d
            else:
                add("G1", [("z", cur + d)])
                cur = cur + d
            if r.random() < 0.5: add("G0", [("x", coord(r, 100, decimals)), ("y", coord(r, 100, decimals))])
            add("G1", [("z", h)])
            cur = h
            if r.random() < 0.7: body(extruding and r.random() < 0.8)
    if r.random() < 0.5: add("G1", [("z", z + 500000)])
    if r.random() < 0.6: out += [x for x in ["M104 S0", "; end", "M84"] if r.random() < 0.7]
    return out


def corpora(max_lines=400):
    """programs shipped with the repository"""
    d = os.path.join(REPO, "gcodeutils", "tests")
    res = []
    for n in sorted(os.listdir(d)):
        if n.endswith(".gcode"):
            with open(os.path.join(d, n), errors="replace") as f:
                ls = f.read().split("\n")
            res.append((n, ls[:max_lines]))
    return res
