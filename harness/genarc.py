"""Seeded generators of programs with circular and other paths, for the arc optimizer."""
import math
import gen


class Path:
    """writes moves; positions are integers in um (or in 1e-5 inch x 10 when inches: see word)"""
    def __init__(self, r, emode=None, inches=False):
        self.r = r
        self.emode = emode if emode is not None else r.choice(["abs", "rel", "none", "abs", "rel"])
        self.inches = inches
        self.out, self.pos, self.e, self.off = [], (0, 0), 0, (0, 0)
        self.omitting = r.random() < 0.3
        self.points = []                    # after each line: position
        self.cmd = r.choice(["G1", "G1", "G1", "G0"])
        self.e5 = r.random() < 0.5

    def word(self, a, um):
        # in inches words have 4 decimals: 1 unit of position is 1e-4 inch there
        return a + gen.num(um * (10 if self.inches else 100))

    def raw(self, l):
        self.out.append(l)
        self.points.append(self.pos)

    def to(self, p, e=None, f=None, z=None, c=None, comment="", extra=""):
        """p in grid units; e: filament (units of 1e-5) of this move"""
        w = []
        if not (self.omitting and p[0] == self.pos[0] and p[1] != self.pos[1]):
            w.append(self.word("X", p[0] - self.off[0]))
        if not (self.omitting and p[1] == self.pos[1] and p[0] != self.pos[0]):
            w.append(self.word("Y", p[1] - self.off[1]))
        if z is not None:
            w.append(self.word("Z", z))
        if e is not None and self.emode != "none":
            if self.emode == "rel":
                w.append("E" + gen.num(e))
            else:
                self.e += e
                w.append("E" + gen.num(self.e))
        if f is not None:
            w.insert(self.r.choice([0, len(w)]), "F%s" % f)
        self.pos = p
        self.raw(" ".join([c or self.cmd] + w) + extra + (" ; " + comment if comment else ""))

    def epoint(self, chord):
        """filament of a move of this length (grid units)"""
        return max(100, int(round(chord * self.rate)))

    rate = 3.3


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def header(r, w, mode_lines=True):
    o = w.raw
    if r.random() < 0.4:
        o("; arcs")
    if r.random() < 0.4:
        o("G28")
    if w.inches:
        o("G20")
    o("G90")
    if w.emode == "rel":
        o("M83")
    elif r.random() < 0.5 or w.emode == "none":
        o("M82")
    if r.random() < 0.8:
        o("G92 E0")
    w.rate = r.choice([1.2, 3.3, 5.0, 12.0]) * (0.25 if w.inches else 1)


def circle(c, rad, a0, step, n, noise=0.0, r=None, growth=0.0):
    """n + 1 points"""
    pts = []
    for k in range(n + 1):
        a = a0 + step * k
        q = rad + growth * k + (r.uniform(-noise, noise) if noise else 0.0)
        pts.append((int(round(c[0] + q * math.cos(a))), int(round(c[1] + q * math.sin(a)))))
    return pts


def scale(w):
    return 39.37 / 100 * 10 / 10 if w.inches else 1.0      # grid units per um: 1e-4 inch is 2.54 um


def wild(r):
    """paths of all sorts"""
    inches = r.random() < 0.15
    w = Path(r, inches=inches)
    header(r, w)
    if r.random() < 0.15:
        w.raw("G92 X0 Y0") if r.random() < 0.5 else w.raw("G92 X%s" % gen.num(100000))
        if w.out[-1] != "G92 X0 Y0":
            w.off = (w.pos[0] - (10000 if inches else 1000), w.off[1])
        else:
            w.off = w.pos
    f = r.choice([900, 1200, 1800, None])
    mm = 1000 / 2.54 if inches else 1000.0        # grid units per mm
    z = int(mm * 0.2)
    w.to((int(r.uniform(-60, 60) * mm), int(r.uniform(-60, 60) * mm)), f=f, z=z if r.random() < 0.7 else None)
    for _ in range(r.randint(1, 5)):
        k = r.random()
        rad = mm * r.choice([r.uniform(0.5, 5), r.uniform(1, 40), r.uniform(30, 260)])
        a0 = r.uniform(0, 2 * math.pi)
        d = r.choice([1, -1])
        n = r.choice([5, 7, 8, 9, 12, r.randint(8, 40)])
        step = d * r.choice([r.uniform(0.02, 0.2), r.uniform(0.1, 0.78), 2 * math.pi / n, r.uniform(0.5, 1.2), 0.7 if n > 9 else 0.3])
        if abs(step) * rad > 15 * mm:
            step = d * 15 * mm / rad
        noise = mm / 1000 * r.choice([0, 0, 0, 2, 8, 14, 20, 35, 80])
        c = (w.pos[0] - rad * math.cos(a0), w.pos[1] - rad * math.sin(a0))
        growth = 0
        clean, q0 = False, r.random() < 0.5
        if k < 0.55:
            pts = circle(c, rad, a0, step, n, noise, r)
        elif k < 0.65:
            growth = mm / 1000 * r.choice([1, 4, 20, 200])
            pts = circle(c, rad, a0, step, n, 0, r, growth)
        elif k < 0.73:
            # uneven sampling
            a, pts = a0, []
            for q in range(n + 1):
                pts += circle(c, rad, a, 0, 0)
                a += step * r.choice([0.5, 1, 1, 1.15, 2, r.uniform(0.1, 2)])
        elif k < 0.8:
            # back and forth along a circle, or only at one of the ends
            a, pts = a0, []
            if r.random() < 0.6:
                step = d * r.uniform(0.005, 0.05)
            ends = r.choice([None, None, 0, 0, 0, 1, n - 1, n - 2])
            for q in range(n + 1):
                pts += circle(c, rad, a, 0, 0)
                if ends is None:
                    a += step * (1 if r.random() < 0.75 or q < 2 else -1)
                else:
                    a += step * (-1 if q == ends else 1)
        elif k < 0.86:
            # several turns
            n = r.randint(16, 40)
            pts = circle(c, rad, a0, d * 2 * math.pi / r.choice([7, 8, 10, 12, 8.5]), n)
            if r.random() < 0.5:
                # a little more than one turn
                n = r.randint(9, 40)
                pts = circle(c, rad, a0, d * (2 * math.pi + r.choice([r.uniform(0.0005, 0.02), r.uniform(0.01, 0.15)])) / n, n)
                clean = r.random() < 0.7
        elif k < 0.92:
            x, y = w.pos
            dx, dy = int(r.uniform(-2, 2) * mm), int(r.uniform(-2, 2) * mm)
            pts = [(x + q * dx, y + q * dy) for q in range(n + 1)]
        elif k < 0.97:
            # a turn which ends next to its start
            n = r.randint(8, 24)
            pts = circle(c, rad, a0, d * 2 * math.pi / n, n)
            near = r.choice([1, 3, 10])
            pts[-1] = (w.pos[0] + r.randint(-near, near), w.pos[1] + r.randint(-near, near))
            if r.random() < 0.7:
                # as close as can be, on the side of the centre or the other one, which is between points of the grid
                a0 = r.randint(0, 3) * math.pi / 2
                rad = mm * r.uniform(1, 20)
                slip = r.uniform(-1, 1)
                c = (w.pos[0] - rad * math.cos(a0) + slip * math.sin(a0), w.pos[1] - rad * math.sin(a0) + slip * math.cos(a0))
                pts = circle(c, rad, a0, d * 2 * math.pi / n, n)
                pts[-1] = (w.pos[0] + round(math.cos(a0)) * (1 if q0 else -1), w.pos[1] + round(math.sin(a0)) * (1 if q0 else -1))
                clean = True
        else:
            x, y = w.pos
            pts = [(int(x + r.uniform(-9, 9) * mm), int(y + r.uniform(-9, 9) * mm)) for q in range(n + 1)]
        gap = r.random()
        event = r.randint(1, n) if r.random() < 0.35 and not clean else None
        what = r.choice(["f", "z", "comment", "other", "g92e", "g92x", "rel", "noe", "retract", "efactor", "inline", "earlier-e", "fonly", "arc", "stay"])
        enoise = r.choice([0, 0, 0, 0.1, 0.3]) if not clean else 0
        on = r.random() < 0.9
        for q, p in enumerate(pts[1:], 1):
            ch = dist(p, w.pos)
            e = w.epoint(ch) if on else None
            if e and enoise:
                e = max(1, int(e * r.uniform(1 - enoise, 1 + enoise)))
            kw = {}
            if q == event:
                if what == "f":
                    kw["f"] = r.choice([600, 2400, f or 700, (f or 700) + r.choice([1, 5, 20, 100, 200, 0.5, 0.01, -0.1])])
                elif what == "z":
                    z += int(0.2 * mm)
                    kw["z"] = z
                elif what == "comment":
                    w.raw(r.choice(["; comment", "(note)", ";TYPE:FILL"]))
                elif what == "other":
                    w.raw(r.choice(["M106 S200", "T0", "M117 x", "G4 P10", "G21" if not inches else "G20", "G90" if w.emode != "rel" else "M83"]))
                elif what == "g92e" and w.emode != "none":
                    v = r.choice([0, 0, 500000])
                    w.raw("G92 E" + gen.num(v))
                    w.e = v
                elif what == "g92x":
                    w.raw("G92 X0")
                    w.off = (w.pos[0], w.off[1])
                elif what == "rel":
                    w.raw("G91")
                    w.raw("G1 " + w.word("X", int(mm)) + " " + w.word("Y", 1))
                    w.pos = (w.pos[0] + int(mm), w.pos[1] + 1)
                    w.raw("G90")
                    if w.emode == "rel":
                        w.raw("M83")
                elif what == "noe":
                    e = None
                elif what == "retract" and w.emode != "none":
                    w.raw("G1 E" + gen.num(-50000 if w.emode == "rel" else w.e - 50000))
                    w.raw("G1 E" + gen.num(50000 if w.emode == "rel" else w.e))
                elif what == "efactor" and e:
                    e = int(e * r.choice([1.12, 1.2, 2, -1]))
                elif what == "inline":
                    kw["comment"] = "inside"
                elif what == "fonly":
                    w.raw("G1 F%d" % r.choice([600, 900]))
                elif what == "arc":
                    kw["c"] = "G2"
                    kw["extra"] = " I%s J%s" % (gen.num(int(mm) * 100), gen.num(0))
                elif what == "stay":
                    w.raw("%s %s %s" % (w.cmd, w.word("X", w.pos[0] - w.off[0]), w.word("Y", w.pos[1] - w.off[1])))
            w.to(p, e, **kw)
        if gap < 0.3:
            w.raw(r.choice(["M107", "; end of path", "M106 S1", "G4 P1"]))
        elif gap < 0.75:
            w.to((int(w.pos[0] + r.uniform(-20, 20) * mm), int(w.pos[1] + r.uniform(-20, 20) * mm)), f=r.choice([None, f, 3000]))
            if gap > 0.6:
                f2 = r.choice([900, 1500])
                w.raw("G1 F%d" % f2)
    if r.random() < 0.6:
        w.raw("M84")
    if r.random() < 0.5 and w.emode != "none":
        w.to((0, 0), 1000)
    return w.out


def off_turn(w, r, heading, d, mm, away):
    """a segment which turns at least 60 degrees against direction d"""
    a = heading - d * r.uniform(math.pi / 3, 2.4)
    n = mm * away
    return (int(round(w.pos[0] + n * math.cos(a))), int(round(w.pos[1] + n * math.sin(a))))


def regular(w, r, mm, n, rad, step, d, heading, must, f=None, on=True):
    """a run of n equal segments which turns to d, starting at the current position with (about) this heading of its first segment"""
    a0 = heading - d * (math.pi / 2 + step / 2)
    c = (w.pos[0] - rad * math.cos(a0), w.pos[1] - rad * math.sin(a0))
    ci = (int(round(c[0])), int(round(c[1])))
    pts = circle(c, rad, a0, d * step, n)
    pts[0] = w.pos
    if abs(step * n - 2 * math.pi) < 1e-9:
        pts[-1] = w.pos
    e = w.epoint(2 * rad * math.sin(step / 2))
    a = len(w.out)
    for q, p in enumerate(pts[1:]):
        w.to(p, e if on else None, f=f if q == 0 else None)
    if must is not None:
        must.append({"a": a, "b": len(w.out), "cx": ci[0], "cy": ci[1], "r": int(round(rad)), "d": d})
    return heading + d * step * (n - 1)


def single(r):
    """regular runs between other lines; -> lines, must"""
    w = Path(r, inches=False)
    header(r, w)
    mm = 1000.0
    must = []
    if r.random() < 0.2:
        w.to((int(r.uniform(-30, 30) * mm), int(r.uniform(-30, 30) * mm)), f=900)
        w.raw("G92 X0 Y0")
        w.off = w.pos
    for _ in range(r.randint(1, 2)):
        d = r.choice([1, -1])
        while True:
            rad = mm * r.choice([r.uniform(1, 1.5), r.uniform(1, 6), r.uniform(1, 40), r.uniform(20, 149)])
            n = r.choice([8, 8, 9, 10, r.randint(8, 24), r.randint(20, 72)])
            step = r.choice([2 * math.pi / n, r.uniform(0.55 / n, 6.2 / n), math.pi / n, math.pi / 2 / n])
            if step <= 0.78 and 0.55 <= n * step <= 2 * math.pi + 1e-9 and 2 * rad * math.sin(step / 2) >= 65:
                break
        heading = r.uniform(0, 6.28)
        # far away, coming from the other side of the turn
        back = heading + math.pi + d * r.uniform(0.3, 1.2)
        far = mm * r.uniform(2, 10)
        p0 = (int(r.uniform(-20, 20) * mm), int(r.uniform(-20, 20) * mm))
        w.to((int(p0[0] - far * math.cos(back)), int(p0[1] - far * math.sin(back))), f=r.choice([3000, None]))
        s0 = w.pos
        if r.random() < 0.15:
            # the way there is itself an arc
            far = dist(p0, w.pos)
            w.to(p0, w.epoint(far) if r.random() < 0.3 else None, c=r.choice(["G2", "G3"]), extra=" I%s J%s" % (gen.num((p0[0] - s0[0]) * 50), gen.num((p0[1] - s0[1]) * 50)))
        else:
            w.to(p0, w.epoint(far) if r.random() < 0.3 else None)
        h = regular(w, r, mm, n, rad, step, d, heading, must, f=r.choice([900, 1200, None, 1500.5]), on=r.random() < 0.9)
        if r.random() < 0.5:
            w.raw(r.choice(["M107", "G4 P1", "; end of path", "G92 E0", "G91", "M106 S9"]) if False else r.choice(["M107", "G4 P1", "; end of path", "M106 S9"]))
        else:
            p = off_turn(w, r, h, d, mm, max(2.0, r.uniform(1, 3) * rad / mm))
            w.to(p, w.epoint(dist(p, w.pos)) if r.random() < 0.5 else None)
    w.raw("M84")
    return w.out, must


def classes(r, prog, arcs):
    """a program with the classes of lines of MCArc.tla (runs have 6 more segments)"""
    w = Path(r, inches=False)
    header(r, w)
    mm = 1000.0
    must = []
    w.to((int(r.uniform(-20, 20) * mm), int(r.uniform(-20, 20) * mm)), f=900)
    w.raw("M106 S7")
    heading = r.uniform(0, 6.28)
    f = None
    k = 0
    required = {}
    for a in arcs:
        if a["arc"]:
            required[a["a"]] = a["b"]
    ended = set(required.values())
    lastd = 1
    while k < len(prog):
        c = prog[k]
        if c in (1, 2):
            n = k
            while n < len(prog) and prog[n] == c:
                n += 1
            size = n - k + 6
            d = 1 if c == 1 else -1
            step = r.uniform(0.3, min(0.7, 6.1 / size))
            rad = mm * r.uniform(5, 20)
            if k and prog[k - 1] in (3, 1, 2):
                # a corner against the turn
                heading = heading - d * (r.uniform(1.1, 2.2) if prog[k - 1] == 3 else 0.3)
            out = []
            h = regular(w, r, mm, size, rad, step, d, heading, out)
            if (k + 1) in required and k and k not in ended and prog[k - 1] in (1, 2, 3) and n < len(prog):
                must += out
            elif (k + 2) in required and k in ended and required[k + 2] == n and n < len(prog):
                # the first segment after an arc leads to the start of the run
                must.append(dict(out[0], a=out[0]["a"] + 1))
            heading = h
            k = n
            lastd = d
            continue
        if c == 3:
            p = off_turn(w, r, heading, lastd, mm, r.uniform(3, 40))
            heading = math.atan2(p[1] - w.pos[1], p[0] - w.pos[0])
            w.to(p, w.epoint(dist(p, w.pos)) if r.random() < 0.6 else None)
        elif c == 4:
            w.raw(r.choice(["; note", "(x)", ";LAYER:1"]))
        else:
            w.raw(r.choice(["M106 S9", "G4 P1", "M107", "M82" if w.emode != "rel" else "M83", "G90" if w.emode != "rel" else "M107"]))
        k += 1
    return w.out, must
