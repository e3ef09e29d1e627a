"""Seeded generators of programs with loops, for each slicer dialect."""
import base64, math, zlib
import gen

W = 100                      # 1 um in units of 1e-5 mm


def polygon(r, big=18.0):
    """successive distinct points in um, not closed"""
    k = r.random()
    cx, cy = r.randint(-60000, 60000), r.randint(-60000, 60000)
    size = int(1000 * (r.choice([r.uniform(0.6, 3), r.uniform(2, big / 2)])))
    if k < 0.25:
        w, h = r.randint(500, size + 600), r.randint(500, size + 600)
        pts = [(0, 0), (w, 0), (w, h), (0, h)]
        if r.random() < 0.4:
            pts.insert(1, (w // 2, 0))
    elif k < 0.65:
        n = r.randint(3, 40)
        a0 = r.uniform(0, 7)
        pts = [(size * math.cos(a0 + 2 * math.pi * i / n), size * math.sin(a0 + 2 * math.pi * i / n)) for i in range(n)]
    else:
        n = r.randint(3, 14)
        a0 = r.uniform(0, 7)
        pts = []
        for i in range(n):
            q = size * r.uniform(0.25, 1)
            pts.append((q * math.cos(a0 + 2 * math.pi * i / n), q * math.sin(a0 + 2 * math.pi * i / n)))
    pts = [(int(round(x)) + cx, int(round(y)) + cy) for x, y in pts]
    if r.random() < 0.5:
        pts.reverse()
    q = r.randrange(len(pts))
    pts = pts[q:] + pts[:q]
    out = []
    for x in pts:
        if not out or (abs(x[0] - out[-1][0]) + abs(x[1] - out[-1][1]) > 3):
            out.append(x)
    while len(out) > 2 and abs(out[0][0] - out[-1][0]) + abs(out[0][1] - out[-1][1]) <= 3:
        out.pop()
    return out


class Writer:
    def __init__(self, r, omit=0.3, inches=False, feeds=0.1):
        self.r, self.omit, self.inches, self.feeds = r, omit, inches, feeds
        self.out, self.pos = [], (None, None)
        self.omitting = r.random() < omit
        self.hop = None                     # a height for the next move

    def word(self, um):
        if self.inches:
            return gen.num(int(round(um * W / 25.4)))
        return gen.num(um * W)

    def xy(self, p, e=None, comment="", c=None, f=None):
        r = self.r
        ws = []
        if not (self.omitting and p[0] == self.pos[0] and p[1] != self.pos[1]):
            ws.append("X" + self.word(p[0]))
        if not (self.omitting and p[1] == self.pos[1] and p[0] != self.pos[0]):
            ws.append("Y" + self.word(p[1]))
        if f is None and r.random() < self.feeds:
            f = r.choice([960, 1200, 1800.5, 0])
        if self.hop is not None:
            ws.append("Z" + self.hop)
            self.hop = None
        if e is not None:
            ws.append("E" + gen.num(e))
        if f is not None:
            ws.insert(0 if r.random() < 0.5 else len(ws), "F%s" % f)
        self.pos = p
        self.out.append(" ".join([c or ("G1" if e is not None or r.random() < 0.5 else "G0")] + ws) + (" ; " + comment if comment else ""))

    def place(self, p):
        """sometimes, sets the position so that the first point p[0] shares a coordinate with it, which the next move may omit; p may be moved"""
        r = self.r
        if r.random() >= 0.12:
            return p
        self.omitting = True
        k = r.random()
        if None not in self.pos and k < 0.4 and not self.inches:
            # a relative move, or the homing of one axis, and a first point which shares the other coordinate
            x, y = self.pos
            a = r.randint(0, 1)
            if k < 0.25:
                dx, dy = r.randint(-9000, 9000), r.randint(-9000, 9000)
                self.out += ["G91", "%s X%s Y%s" % (r.choice(["G0", "G1"]), self.word(dx), self.word(dy)), "G90", "M83"]
                x, y = x + dx, y + dy
            elif a:
                self.out.append(r.choice(["G28 X", "G28 X0"]))
                x = 0
            else:
                self.out.append(r.choice(["G28 Y", "G28 Y0"]))
                y = 0
            self.pos = (x, y)
            dx, dy = x - p[0][0], y - p[0][1]
            return [(u, v + dy) for u, v in p] if a else [(u + dx, v) for u, v in p]
        k = r.random()
        if k < 0.6:
            self.out.append("G92 X" + self.word(p[0][0]))
            self.pos = (p[0][0], None)
            if k < 0.25:
                y = p[0][1] + 100 * r.randint(1, 50)
                self.out[-1] += " Y" + self.word(y)
                self.pos = (p[0][0], y)
        elif k < 0.8:
            self.out.append(r.choice(["G28 X", "G28 X0", "G28 X0 Y0"]))
            p = [(x - p[0][0], y) for x, y in p]
            self.pos = (0, self.pos[1] if self.out[-1][-1] != "0" or len(self.out[-1]) < 8 else 0)
        else:
            self.out.append("G92 E0 Y" + self.word(p[0][1]))
            self.pos = (self.pos[0], p[0][1])
        return p

    def hopped(self, z):
        """sometimes lifts; the next move comes back"""
        if self.r.random() < (0.06 if float(z) else 0.4) and not self.inches:
            self.out.append("G1 Z" + gen.num(int(round(float(z) * 1e5)) + 100000))
            self.hop = z

    def loop_e(self):
        return self.r.randint(200, 60000) * (1 if self.r.random() < 0.95 else -1)     # some wipe


def settings(r, strong=False):
    kw = {}
    if r.random() < 0.6:
        kw["stretch_strength"] = r.choice([1.0, 0.5, 2.0, 3.0, 0.0, 1.3] if r.random() < 0.85 else [-1.0, 0.01, 10.0, 10.0])
    for k, d in (("loop_stretch_over_edge_width", 0.11), ("edge_inside_stretch_over_edge_width", 0.32), ("edge_outside_stretch_over_edge_width", 0.1)):
        if r.random() < 0.4:
            kw[k] = r.choice([0.0, 0.05, 0.2, 0.3, 0.45, d])
    if r.random() < 0.4:
        kw["stretch_from_distance_over_edge_width"] = r.choice([0.5, 1.0, 1.5, 2.5, 3.0, 6.0])
    if r.random() < 0.4:
        kw["cross_limit_distance_over_edge_width"] = r.choice([1.0, 2.0, 3.0, 8.0, 10.0])
    return kw


def width(r):
    return r.choice([350, 400, 420, 480, 500, 600, 720, 100 * r.randint(1, 12), 150])


def heights(r, n):
    z, step = r.choice([20, 25, 30, 0]), r.choice([20, 25, 30])
    return [gen.num((z + k * step) * 1000) for k in range(n)]


def fill(w, comment, n=3):
    r = w.r
    for _ in range(r.randint(1, n)):
        w.xy((r.randint(-30000, 30000), r.randint(-30000, 30000)), e=w.loop_e(), comment=comment)


def slic3r(r, wild=0.0, kinds="ei", inches=False, layers=None):
    """wild: chance of each departure from a well-formed file"""
    w = Writer(r, inches=inches)
    edge = width(r)
    o = w.out
    o.append("; generated by Slic3r")
    declared = r.random() < 0.85
    if declared:
        if r.random() < 0.3:
            o.append("; external perimeters extrusion width = 0.9%dmm" % r.randint(1, 9))
        if r.random() < 0.5:
            o.append("; perimeters extrusion width = 0.97mm")
        o.append("; external perimeters extrusion width%s=%s%smm" % (r.choice([" ", "  "]), r.choice([" ", " ", "   "]), mm(edge, r)))
        if r.random() < 0.5:
            o.append("; infill extrusion width = 0.91mm")
    else:
        edge = 400
    o += ["G28", "G21", "G90", "M83"]
    hs = heights(r, layers or r.randint(1, 3))
    for z in hs:
        o.append("G1 Z%s F7800 ; move to next layer" % z)
        if inches:
            o.append("G20")
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.25:
                w.xy((r.randint(-30000, 30000), r.randint(-30000, 30000)), comment="move to first infill point")
                fill(w, "infill")
                if r.random() < 0.5:
                    o.append("G1 E-1 F2400 ; retract")
                continue
            p = w.place(polygon(r))
            kind = r.choice(["perimeter external", "perimeter external", "perimeter"])
            w.hopped(z)
            w.xy(p[0], comment="move to first perimeter point" if r.random() >= wild else "")
            if r.random() < 0.5:
                o.append("G1 E1 F2400 ; unretract")
            closed = p[1:] + [p[0]] if r.random() >= wild else p[1:]
            for k, q in enumerate(closed):
                w.xy(q, e=w.loop_e(), comment=kind)
                if r.random() < wild / 4:
                    o.append(r.choice(["M106 S255", "; text", "G92 E0", "G91", "G90", "G1 X1 ; perimeter", "G28 X", "G0 F1200", ";TYPE:SKIN", "G1 X1 Y1 E1 ; perimeter external", "G2 X1 Y1 I1 J1 ; perimeter"]))
            k = r.random()
            if k < 0.35:
                o.append("G1 E-1 F2400 ; retract")
                if r.random() < 0.5:
                    o.append("G92 E0 ; reset extrusion distance")
            elif k < 0.45:
                o.append("M106 S200 ; enable fan")
        if inches:
            o.append("G21")
    if r.random() < 0.5:
        o.append("G1 Z100")
    return o, edge


def mm(edge, r):
    """the same width, written in several ways"""
    return r.choice(["%s", "%g", "%.2f", "%.4f"]) % (edge / 1000.0)


def cura_profile(edge, r):
    noise = ["layer_height=0.1", "machine_nozzle_size=0.9", "nozzle_size2=0.8", "plugin_config=(lp1\nnozzle_size=0.7", "a=nozzle_size=0.6", "retraction_enable=True",
             "nozzle=0.65", "object_sink=", "x=a=b=c=d", "edge_width_mm=0.55", "nozzle_sizes=1", "Nozzle_Size=0.3"]
    q = r.sample(noise, r.randint(0, 6))
    opts = q[:r.randint(0, len(q))] + ["nozzle_size=" + mm(edge, r)] + q + ([""] if r.random() < 0.2 else [])
    opts = "\b".join(dict.fromkeys(opts))
    return ";CURA_PROFILE_STRING:" + base64.b64encode(zlib.compress((opts + "\f" + r.choice(["start.gcode=x", "", "nozzle_size=0.95", "start.gcode=x\bnozzle_size=0.95"])).encode(), 9)).decode()


def cura(r, wild=0.0, inches=False, layers=None, profile=None):
    w = Writer(r, inches=inches)
    edge = width(r)
    profile = profile if profile is not None else r.random() < 0.85
    o = w.out
    if profile and r.random() < 0.2:
        o.append(cura_profile(edge, r))
        profile = None
    elif profile is False:
        edge = 400
    o += ["M107", "G28", "G21", "G90", "M83"]
    for k, z in enumerate(heights(r, layers or r.randint(1, 3))):
        o += [";LAYER:%d" % k, "G0 F9000 X0 Y0 Z%s" % z]
        w.pos = (0, 0)
        if inches:
            o.append("G20")
        for _ in range(r.randint(0, 4)):
            t = r.choice(["WALL-OUTER", "WALL-OUTER", "WALL-INNER", "WALL-INNER", "SKIN", "FILL", "SUPPORT", "SKIRT"])
            p = polygon(r)
            if r.random() < 0.1 and None not in w.pos:
                # starts where the previous path ends
                p = [(x - p[0][0] + w.pos[0], y - p[0][1] + w.pos[1]) for x, y in p]
            else:
                p = w.place(p)
                w.hopped(z)
                w.xy(p[0], c="G0")
            o.append(";TYPE:" + t)
            if r.random() < wild / 2:
                o.append(";TYPE:" + r.choice(["FILL", "SKIN", "WALL-OUTER"]))
            closed = p[1:] + [p[0]] if r.random() >= wild else p[1:]
            if r.random() < 0.2:
                o.append("G1 F1800 E1")
            for q in closed:
                w.xy(q, e=w.loop_e())
                if r.random() < 0.02:
                    o.append(r.choice(["G1 F1200", "G0 F1200", "G1 F2400 E-1"]))
                if r.random() < wild / 4:
                    o.append(r.choice(["M106 S255", "; text", "G92 E0", "G91", "G90", "G0 X1", "G28 X", "G1 X1 Y1 E1", "G2 X1 Y1 I1 J1"]))
            if r.random() < wild:
                q = polygon(r)
                w.xy(q[0], c="G0")
                for x in q[1:] + [q[0]]:
                    w.xy(x, e=w.loop_e())
            if r.random() < 0.3:
                o.append(";TYPE:FILL")
                fill(w, "")
        if inches:
            o.append("G21")
    if r.random() < 0.6:
        o += ["M104 S0", "G1 Z100"]
    if profile:
        o.append(cura_profile(edge, r))
    return o, edge


def skein(r, wild=0.0, inches=False, layers=None):
    w = Writer(r, omit=0.1, feeds=0.3)
    edge = width(r)
    o = w.out
    o += ["G90", "G21", "M83", "M103"]
    if r.random() < 0.85:
        o += ["(<edgeWidth> %s </edgeWidth>)" % mm(edge, r)]
    else:
        edge = 400
    o.append("(</extruderInitialization>)")
    for k, z in enumerate(heights(r, layers or r.randint(1, 3))):
        o += ["(<layer> %s )" % z, "G1 Z" + z]
        for _ in range(r.randint(0, 4)):
            if r.random() < 0.25:
                w.xy((r.randint(-30000, 30000), r.randint(-30000, 30000)))
                o.append("M101")
                fill(w, "")
                o.append("M103")
                continue
            t, u = r.choice([("(<edge> outer )", "(</edge>)"), ("(<edge> inner )", "(</edge>)"), ("(<loop> outer )", "(</loop>)"), ("(<loop> inner )", "(</loop>)")])
            p = w.place(polygon(r))
            if r.random() < wild:
                w.xy((r.randint(-30000, 30000), r.randint(-30000, 30000)))     # combing
            o.append(t)
            if r.random() < 0.3:
                o.append("M106 S10")
            w.hopped(z)
            w.xy(p[0], c="G1")
            if r.random() < 0.2:
                o.append("M108 S2")
            if r.random() >= wild:
                o.append("M101")
            closed = p[1:] + [p[0]] if r.random() >= wild else p[1:]
            for q in closed:
                w.xy(q, e=w.loop_e() if r.random() < 0.8 else None, c="G1")
                if r.random() < wild / 4:
                    o.append(r.choice(["M106 S255", "; text", "G92 E0", "G91", "G90", "G0 X1", "G28 X", "G1 X1 Y1 E1", "M103", "M101", "(<loop>"]))
            if r.random() >= wild:
                o.append("M103")
            if r.random() >= wild:
                o.append(u)
    return o, edge


DIALECTS = {"slic3r": slic3r, "cura": cura, "skein": skein}
DIALECT_NAMES = list(DIALECTS)


def mk(d, line):
    if d == "slic3r":
        for k, t in enumerate(["; perimeter external", "; perimeter", "; move to first perimeter point", "unretract"]):
            if t in line:
                return k + 1
    elif d == "cura":
        for k, t in enumerate(["TYPE:WALL-OUTER", "TYPE:WALL-INNER", "TYPE:SKIN", "TYPE:"]):
            if t in line:
                return k + 1
    else:
        for k, t in enumerate(["(<edge> outer", "(<edge>", "(<loop>", "(</edge>)", "(</loop>)"]):
            if line.startswith(t):
                return min(k + 1, 4)
    return 0


# blocks of programs, for MCMarks.tla: (sort, lines); a line: (class, move: p point of a loop, f fill, t travel, n new layer, o other)
BLOCKS = {
    "slic3r": {
        "ext": ("external", [(3, "p"), (1, "p"), (1, "p"), (1, "p")]),
        "extU": ("external", [(3, "p"), (4, "o"), (1, "p"), (1, "p"), (1, "p")]),
        "extra": ("loop", [(3, "p"), (2, "p"), (2, "p"), (2, "p")]),
        "extraN": ("loop", [(2, "p"), (2, "p"), (2, "p")]),
        "fill": ("other", [(0, "t"), (0, "f")]),
        "retract": ("other", [(0, "o")]),
        "layer": ("layer", [(0, "n")])},
    "cura": {
        "outer": ("outer", [(0, "t"), (1, "o"), (0, "p"), (0, "p"), (0, "p")]),
        "inner": ("inner", [(0, "t"), (2, "o"), (0, "p"), (0, "p"), (0, "p")]),
        "inner2": ("inner", [(0, "t"), (2, "o"), (0, "p"), (0, "p"), (0, "p"), (0, "t"), (0, "p"), (0, "p"), (0, "p")]),
        "skin": ("loop", [(0, "t"), (3, "o"), (0, "p"), (0, "p"), (0, "p")]),
        "skinN": ("loop", [(3, "o"), (0, "p"), (0, "p"), (0, "p")]),
        "innerN": ("inner", [(2, "o"), (0, "p"), (0, "p"), (0, "p")]),
        "outerN": ("outer", [(1, "o"), (0, "p"), (0, "p"), (0, "p")]),
        "empty": ("other", [(1, "o")]),
        "fill": ("other", [(0, "t"), (4, "o"), (0, "f")]),
        "layer": ("layer", [(0, "n")])},
    "skein": {
        "outer": ("outer", [(1, "o"), (0, "p"), (0, "on"), (0, "p"), (0, "p"), (0, "p"), (0, "off"), (4, "o")]),
        "inner": ("inner", [(2, "o"), (0, "p"), (0, "on"), (0, "p"), (0, "p"), (0, "p"), (0, "off"), (4, "o")]),
        "loop": ("loop", [(3, "o"), (0, "p"), (0, "on"), (0, "p"), (0, "p"), (0, "p"), (0, "off"), (4, "o")]),
        "fill": ("other", [(0, "t"), (0, "on"), (0, "f"), (0, "off")]),
        "layer": ("layer", [(0, "n")])}}


def block_records(d):
    return [{"sort": s, "lines": [{"mk": k, "new": m == "n", "travel": m == "t", "p": m == "p", "fill": m == "f"} for k, m in ls]}
            for s, ls in BLOCKS[d].values()]


def small(r):
    a, b = r.randint(900, 4000), r.randint(900, 4000)
    x, y = r.randint(-40000, 40000), r.randint(-40000, 40000)
    p = r.choice([[(0, 0), (a, 0), (0, b)], [(0, 0), (a, b // 3), (a // 2, b)], [(0, b), (a, 0), (a, b)]])
    if r.random() < 0.5:
        p.reverse()
    return [(u + x, v + y) for u, v in p]


def blocks_program(r, d, prog):
    """a program made of the blocks (numbers from 1)"""
    names = list(BLOCKS[d])
    w = Writer(r, omit=0.1)
    o = w.out
    edge = width(r)
    z = 20000
    if d == "slic3r":
        o += ["; external perimeters extrusion width = %.2fmm" % (edge / 1000.0), "G90", "M83", "G1 Z0.2"]
    elif d == "cura":
        o += ["G90", "M83", "G1 Z0.2"]
    else:
        o += ["(<edgeWidth> %s </edgeWidth>)" % (edge / 1000.0), "G90", "M83", "G1 Z0.2"]
    for b in prog:
        name = names[b - 1]
        text = {"ext": "perimeter external", "extU": "perimeter external", "extra": "perimeter", "extraN": "perimeter"}.get(name, "")
        sort = {"outer": "WALL-OUTER", "inner": "WALL-INNER", "inner2": "WALL-INNER", "innerN": "WALL-INNER", "outerN": "WALL-OUTER", "skin": "SKIN", "skinN": "SKIN", "fill": "FILL", "empty": "WALL-OUTER"}.get(name)
        p, k = None, 0
        for mk_, m in BLOCKS[d][name][1]:
            if m == "n":
                z += 20000
                o.append("G1 Z" + gen.num(z))
            elif m == "t":
                p, k = small(r), 1
                w.xy(p[0], c="G0")
            elif m == "f":
                fill(w, "infill" if d == "slic3r" else "", 2)
            elif m == "on":
                o.append("M101")
            elif m == "off":
                o.append("M103")
            elif m == "p":
                if p is None:
                    p = small(r)
                    if d == "cura" and None not in w.pos:
                        # starts where the previous path ends
                        p, k = [(x - p[0][0] + w.pos[0], y - p[0][1] + w.pos[1]) for x, y in p], 1
                if d == "slic3r" and mk_ == 3:
                    w.xy(p[0], comment="move to first perimeter point")
                else:
                    w.xy(p[k % 3], e=w.loop_e() if d != "skein" or k else None, comment=text, c="G1")
                k += 1
            elif d == "slic3r":
                o.append("G1 E1 F900 ; unretract" if mk_ == 4 else "G1 E-1 F2400 ; retract")
            elif d == "cura":
                o.append(";TYPE:" + sort)
            else:
                o.append({1: "(<edge> outer )", 2: "(<edge> inner )", 3: "(<loop> outer )", 4: "(</loop>)" if name == "loop" else "(</edge>)"}[mk_])
    if d == "cura":
        o.append(cura_profile(edge, r))
    return o, edge


def loop_program(r, d, points):
    """one loop (um) in dialect d"""
    w = Writer(r, omit=0.3)
    o = w.out
    edge = 500
    kind = r.choice([1, 2])
    if d == "slic3r":
        o += ["; external perimeters extrusion width = 0.5mm", "G90", "M83", "G1 Z0.2"]
        w.xy(points[0], comment="move to first perimeter point")
        for q in points[1:] + points[:1]:
            w.xy(q, e=w.loop_e(), comment=["", "perimeter external", "perimeter"][kind])
        o += r.choice([[], ["G1 E-1 ; retract"], ["G1 X0 Y0 ; move"], ["M106 S3"]])
    elif d == "cura":
        o += [cura_profile(edge, r), "G90", "M83", "G1 Z0.2"]
        w.xy(points[0], c="G0")
        o.append(";TYPE:" + ["", "WALL-OUTER", "WALL-INNER"][kind])
        o += r.choice([[], [], ["G1 F1200 E1"]])
        for q in points[1:] + points[:1]:
            w.xy(q, e=w.loop_e())
        o += r.choice([[], ["G1 E-1"], ["G0 X0 Y0"], [";TYPE:FILL", "G1 X1 E1"], ["G1 E-1", "G0 X0 Y0"]])
    else:
        o += ["(<edgeWidth> 0.5 </edgeWidth>)", "G90", "M83", "G1 Z0.2", ["", "(<edge> outer )", "(<edge> inner )"][kind]]
        w.xy(points[0], c="G1")
        o.append("M101")
        for q in points[1:] + points[:1]:
            w.xy(q, e=w.loop_e(), c="G1")
        o += ["M103", "(</edge>)"]
    return o, edge
