"""Runs the implementation (imported from /repo) on cases: driver.py KIND IN OUT.

Only public entry points are used; what is observed is text written, public attributes and callbacks."""
import io, json, logging, os, resource, signal, sys

logging.disable(logging.CRITICAL)
from tokens import fscaled, NA  # noqa


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def written(gcode):
    o = io.StringIO()
    gcode.write(o)
    t = o.getvalue()
    return t[:-1].split("\n") if t else []


def obs_line(l):
    return [fscaled(l.current_x), fscaled(l.current_y), fscaled(l.current_z), fscaled(l.current_e), fscaled(l.current_f, 3),
            1 if l.extruding else 0, 1 if l.command else 0, 1 if l.is_move else 0, 1 if l.relative else 0, 1 if l.relative_e else 0,
            l.current_tool if isinstance(l.current_tool, int) else -1]


def load(c, lines=None, line_callback=None, layer_callback=None):
    """read the lines of a case, through one of the ways to do it: at once, deferred, from a stream, or as light lines"""
    from gcodeutils.gcoder import GCode, LightGCode
    home = [h / 1e5 for h in c["home"]] if c.get("home") else None
    via, lines = c.get("via"), list(c["lines"] if lines is None else lines)
    if via == "deferred":
        g = GCode(deferred=True)
        g.prepare(iter(lines), home, layer_callback, line_callback)
        return g
    data = io.StringIO("\n".join(lines) + "\n") if via == "stream" else lines
    return (LightGCode if via == "light" else GCode)(data, home_pos=home, layer_callback=layer_callback, line_callback=line_callback)


def k_track(c):
    from gcodeutils.gcoder import GCode
    home = [h / 1e5 for h in c["home"]] if c.get("home") else None
    if c.get("via") and c.get("append") is None:
        obs = []
        g = load(c, line_callback=lambda l: obs.append(obs_line(l)))
    elif c.get("append") is None:
        g = GCode(c["lines"], home_pos=home)
        obs = [obs_line(l) for l in g.lines]
    else:
        k = c["append"]
        g = GCode(c["lines"][:k], home_pos=home)
        obs = [obs_line(l) for l in g.lines]
        for t in c["lines"][k:]:
            l = g.append(t)
            if l is not None:
                obs.append(obs_line(l))
    at, over = list(g.current_pos) + [g.current_e], list(g.abs_pos) + [g.abs_e]
    if len(c["lines"]) % 2:
        at, over = [[getattr(g, n + a) for a in "xyze"] for n in ("current_", "abs_")]
    fin = [fscaled(x) for x in at] + [fscaled(g.current_f, 3)] + [fscaled(x) for x in over] + \
          [int(bool(g.imperial)), int(bool(g.relative)), int(bool(g.relative_e)), int(g.current_tool), fscaled(g.total_e), fscaled(g.max_e)]
    return {"o": obs, "fin": fin}


def k_layers(c):
    # what is known of layers when they are said to be complete
    done = []
    g = load(c, layer_callback=lambda g, k: done.append([k, [l.raw for l in g.all_layers[k]], fscaled(g.all_layers[k].z)]))
    ls = [l.strip() for l in c["lines"] if l.strip()]
    lay, flat = [], []
    for k, layer in enumerate(g.all_layers):
        for l in layer:
            lay.append(k + 1)
            flat.append(l.raw)
    res = {"cb": [[k, len(y)] for k, y, z in done if k < len(g.all_layers) and y == [l.raw for l in g.all_layers[k]] and z == fscaled(g.all_layers[k].z)],
           "lay": lay, "lz": [fscaled(l.z) for l in g.all_layers], "ok": int(flat == ls and [l.raw for l in g.lines] == ls),
           "zs": [fscaled(z) for z in g.all_zs], "sum": []}
    if ls:
        res["sum"] = [fscaled(x) for x in (g.filament_length, g.xmin, g.xmax, g.ymin, g.ymax, g.zmin, g.zmax, g.width, g.depth, g.height)]
        res["sum"].append(g.layers_count)
        if c.get("main"):
            res["sum"] = summary_of_main(c["lines"])
    else:
        res["sum"] = [0] * 11
    return res


def k_duration(c):
    g = load(c)
    lay = [k + 1 for k, layer in enumerate(g.all_layers) for _ in layer]
    n, d = g.estimate_duration()
    total = int(d.total_seconds()) if d is not None else 0
    if c.get("main"):
        import re
        t = re.search(r"Estimated duration: (?:(\d+) days?, )?(\d+):(\d+):(\d+)", run_main(c["lines"]))
        total = ((int(t.group(1) or 0) * 24 + int(t.group(2))) * 60 + int(t.group(3))) * 60 + int(t.group(4))
    return {"lay": lay, "d": [fscaled(l.duration, 4) for l in g.all_layers], "total": min(total, 10 ** 9), "n": [n, g.layers_count]}


def run_main(lines):
    import subprocess, tempfile
    with tempfile.NamedTemporaryFile("w", suffix=".gcode") as f:
        f.write("\n".join(lines) + "\n")
        f.flush()
        return subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcoder", f.name], capture_output=True, text=True).stdout


def summary_of_main(lines):
    """the summary as printed by the command line of gcoder, in the same form"""
    import re
    n = {}
    for l in run_main(lines).split("\n"):
        m = re.match(r"\s*([A-Z][A-Za-z ]*): (.*)", l)
        if m:
            n[m.group(1)] = [float(x) for x in re.findall(r"-?[0-9]+\.?[0-9]*", m.group(2))]
    q = [n["Filament used"][0]] + n["X"][:2] + n["Y"][:2] + n["Z"][:2]
    sizes = [n["X"][2], n["Y"][2], n["Z"][2]]
    # printed with two decimals: recompute what is consistent with it
    out = [round(x * 1e5) for x in q]
    for k, s in enumerate(sizes):
        exact = out[2 * k + 2] - out[2 * k + 1]
        out.append(exact if abs(exact - s * 1e5) < 1600 else round(s * 1e5))
    return out + [int(n["Number of layers"][0])]


def k_rewrite(c):
    if c.get("cli"):
        import subprocess
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcode_mod"], input=c["text"].encode(), capture_output=True,
                           env=dict(os.environ, PYTHONUTF8="1"))
        if p.returncode != 0:
            raise RuntimeError(p.stderr.decode(errors="replace")[-200:])
        t = p.stdout.decode()
        return {"o": t[:-1].split("\n") if t else []}
    return {"o": written(load(c, c["text"].split("\n")))}


def k_lex(c):
    from gcodeutils.gcoder import GCode, S, P
    l = GCode([c["line"]]).lines[0]
    cmd = l.command
    if cmd is None:
        cl = cn = 0
    elif cmd[:1] in ("G", "M", "T") and cmd[1:].isdigit() and len(cmd) < 8:
        cl, cn = ord(cmd[0].lower()), int(cmd[1:])
    else:
        cl = cn = -1
    return {"cl": cl, "cn": cn, "vals": [fscaled(getattr(l, a), 3 if a == "f" else 5) for a in "xyzefij"],
            "sp": [fscaled(S(l), 3), fscaled(P(l), 3)]}


def k_equal(c):
    a, b = load(c, c["A"]), load(dict(c, via=c.get("viaB")), c["B"])
    if "edit" in c:
        # write the lines of a layer again, which changes nothing to what the program says
        full = [k for k, y in enumerate(a.all_layers) if len(y)]
        if full:
            k = full[c["edit"] % len(full)]
            a.rewrite_layer([l.raw for l in a.all_layers[k]], k)
    msg = a.diff(b)
    # programs only equal programs
    for x in (None, [l.raw for l in a], "", 0):
        if a == x or not a != x:
            raise ValueError("equals %s" % type(x).__name__)
    return {"r": [int(bool(a == b)), int(bool(b == a)), int(bool(a != b)), int(msg is None), int(b.diff(a) is None)], "msg": msg}


def k_edit(c):
    g = load(c)

    def state():
        return {"y": [[l.raw for l in y] for y in g.all_layers], "l": [l.raw for l in g], "n": len(g), "w": written(g),
                "x": [list(g.idxs(i)) for i in range(len(g))]}
    states, ops = [state()], []
    for o in c["ops"]:
        k = o["k"]
        if o.get("fit") and o["op"] in ("prepend", "rewrite"):
            # only layers which aren't empty can be edited
            full = [i + 1 for i, y in enumerate(g.all_layers) if len(y)]
            if not full:
                continue
            k = full[k % len(full)]
        if o["op"] == "append":
            g.append(o["c"][0])
        elif o["op"] == "feed":
            g.append(o["c"][0], store=False)
        elif o["op"] == "prepend":
            g.prepend_to_layer(o["c"], k - 1)
        else:
            g.rewrite_layer(o["c"], k - 1)
        ops.append({"op": o["op"], "k": k, "c": o["c"]})
        states.append(state())
    return {"s": states, "ops": ops}


def k_chain(c):
    """a session of edits and filters on one object, and what the text it writes gives each time"""
    from gcodeutils.gcoder import GCode, Line, split
    from gcodeutils.filter.filter import GCodeFilter
    from gcodeutils.filter.translate import GCodeXYTranslateFilter
    from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
    from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
    from gcodeutils.stretch import stretch
    from gcodeutils.visit.iterator import GCodeIterator
    from gcodeutils.visit.pause_at_layer import PauseAtLayer
    from gcodeutils import gcode_tempcal
    home = [h / 1e5 for h in c["home"]] if c.get("home") else None

    class Planned(GCodeFilter):
        def __init__(self, plan, new, box):
            self.plan, self.new, self.box, self.seen = plan, new, box, []

        def opcode_filter(self, l):
            kind = self.plan[len(self.seen) % len(self.plan)]
            self.seen.append(l.raw)
            if kind == "none":
                return None
            if kind == "line":
                return l
            new = Line(self.new)
            split(new)
            if kind == "new" and len(self.seen) % 2:
                return new
            res = {"del": [], "dup": [l, l], "new": [new], "pre": [new, l], "post": [l, new]}[kind]
            return tuple(res) if self.box == "tuple" else iter(res) if self.box == "iter" else res

    def read(text):
        return GCode(list(text), home_pos=home)

    def make(o):
        kind = o["op"]
        if kind == "T": return GCodeXYTranslateFilter(x=o["x"] / 1e5, y=o["y"] / 1e5)
        if kind == "E": return GCodeToRelativeExtrusionFilter()
        if kind == "A": return GCodeArcOptimizerFilter()
        if kind == "P": return PauseAtLayer(list(o["p"]))
        if kind == "X": return Planned(o["plan"], o["new"], o["box"])
        return {"S": stretch.Slic3rStretchFilter, "C": stretch.CuraStretchFilter, "K": stretch.SkeinforgeStretchFilter}[kind](**DEFAULT_STRETCH)

    def run(f, g):
        if isinstance(f, PauseAtLayer):
            GCodeIterator(g).accept(f)
        else:
            f.filter(g)

    def gradient(o, g):
        out, t = io.StringIO(), o["g"]
        cls = gcode_tempcal.GCodeStepTempGradient if t["n"] else gcode_tempcal.GCodeContinuousTempGradient
        try:
            cls(gcode=g, start_temp=t["a"] / 10., end_temp=t["b"] / 10., min_z_change=t["m"] / 1e5, steps=t["n"]).write(out)
        except RuntimeError:
            return ["refused"]
        return out.getvalue().split("\n")

    def numbers(g):
        pos = []
        for l in g.lines:
            pos += obs_line(l)[:7] + [int(bool(l.is_move)), int(bool(l.relative)), int(bool(l.relative_e)), int(bool(l.imperial))]
        s = [0] * 12
        if len(g):
            s = [fscaled(x) for x in (g.filament_length, g.xmin, g.xmax, g.ymin, g.ymax, g.zmin, g.zmax, g.width, g.depth, g.height)]
            s += [g.layers_count, min(10 ** 9, int(g.duration.total_seconds()))]
        fin = [fscaled(getattr(g, "current_" + a)) for a in "xyze"] + [fscaled(g.current_f, 3)] + [fscaled(getattr(g, "abs_" + a)) for a in "xyze"] + \
              [int(bool(g.imperial)), int(bool(g.relative)), int(bool(g.relative_e)), int(g.current_tool)] + [fscaled(x) for x in g.home_pos]
        # what is filtered is not appended to: an empty layer for that may or may not be there
        lay = [len(y) for y in g.all_layers]
        while lay and lay[-1] == 0:
            lay.pop()
        return {"pos": pos, "lay": lay, "lz": sorted(fscaled(z) for z in g.all_zs) + [fscaled(y.z) for y in g.all_layers if len(y)], "sum": s, "fin": fin}

    def state(g, full):
        st = {"y": [[l.raw for l in y] for y in g.all_layers], "l": [l.raw for l in g], "n": len(g), "w": written(g),
              "x": [list(g.idxs(i)) for i in range(len(g))], "a": {}, "b": {}}
        if full:
            st["a"], st["b"] = numbers(g), numbers(read(st["w"]))
        return st

    makers, dirty = {}, 0
    g = read(c["lines"])
    states, steps = [state(g, False)], []
    for o in c["steps"]:
        kind, rec = o["op"], dict(o)
        before = states[-1]["w"]
        if kind in ("append", "feed", "prepend", "rewrite"):
            if kind in ("prepend", "rewrite"):
                full = [i + 1 for i, y in enumerate(g.all_layers) if len(y)]
                if not o.get("exact"):
                    if not full:
                        continue
                    rec["k"] = full[o["k"] % len(full)]
                elif o["k"] not in full:
                    continue
            if kind == "append": g.append(o["c"][0])
            elif kind == "feed": g.append(o["c"][0], store=False)
            elif kind == "prepend": g.prepend_to_layer(o["c"], rec["k"] - 1)
            else: g.rewrite_layer(o["c"], rec["k"] - 1)
            dirty = 1
        elif kind == "G":
            if dirty:
                continue
            rec["g"], rec["f"] = gradient(o, g), gradient(o, read(before))
        else:
            key = json.dumps(o, sort_keys=True)
            if c.get("reuse") and key in makers:
                f = makers[key]
            else:
                f = makers[key] = make(o)
                if c.get("other") and kind != "X":
                    # it has been used for another program before
                    run(f, GCode(c["other"]))
            if kind == "X":
                f.seen = []
            run(f, g)
            h = read(before)
            run(make(o), h)
            rec["f"], rec["dirty"], rec["seen"] = written(h), dirty, f.seen if kind == "X" else []
            dirty = dirty if kind == "P" else 0
        steps.append(rec)
        states.append(state(g, kind in "TEASCKX"))
    return {"s": states, "steps": steps}


def k_translate(c):
    from gcodeutils.gcoder import GCode
    from gcodeutils.filter.translate import GCodeXYTranslateFilter
    g = GCode(c["lines"])
    kw = {}
    if c["ax"] is not None:
        kw["x"] = c["ax"] / 1e5
    if c["ay"] is not None:
        kw["y"] = c["ay"] / 1e5
    GCodeXYTranslateFilter(**kw).filter(g)
    return {"o": written(g)}


def k_relext(c):
    from gcodeutils.gcoder import GCode
    from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
    g = GCode(c["lines"])
    GCodeToRelativeExtrusionFilter().filter(g)
    o = written(g)
    g = GCode(o)
    GCodeToRelativeExtrusionFilter().filter(g)
    return {"o": o, "again": int(written(g) == o)}


def k_visit(c):
    from gcodeutils.gcoder import GCode
    from gcodeutils.visit.iterator import GCodeIterator
    from gcodeutils.visit.visitor import GCodeVisitor
    from gcodeutils.visit.pause_at_layer import PauseAtLayer
    if c.get("cli"):
        import subprocess
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcode_mod", "-p", str(c["P"][0])], input="\n".join(c["lines"]).encode(),
                           capture_output=True, env=dict(os.environ, PYTHONUTF8="1"))
        if p.returncode != 0:
            raise RuntimeError(p.stderr.decode(errors="replace")[-200:])
        t = p.stdout.decode()
        return {"E": [], "B": [], "o": t[:-1].split("\n") if t else []}
    home = [h / 1e5 for h in c["home"]] if c.get("home") else None
    g = GCode(c["lines"], home_pos=home)
    if c["kind"] == "pause":
        v = PauseAtLayer(list(c["P"]))
        for _ in range(c.get("again", 0)):
            # it has been used for another program before
            GCodeIterator(GCode(c["lines"], home_pos=home)).accept(v)
        GCodeIterator(g).accept(v)
        return {"E": [], "B": [], "o": written(g)}
    place = dict((id(l), k) for k, l in enumerate(g.lines))
    keep = list(g.lines)        # ids stay valid
    events, edited = [], []

    class Visitor(GCodeVisitor):
        full = -1

        def note(self, what, i, which=-1):
            assert i.gcode is g
            events.append([what, i.layer_number, i.layer_index, i.line_number, int(bool(i.is_printed)), which])

        def will_visit_layer(self, layer, i):
            self.note(0, i, len(layer))
            if len(layer):
                self.full += 1

        def visit_line(self, line, i):
            self.note(1, i, place.get(id(line), -1))

        def did_visit_layer(self, layer, i):
            self.note(2, i, len(layer))
            if len(layer) and self.full in c["B"]:
                edited.append(self.full)
                g.prepend_to_layer(c["Q"], i.layer_index)
    GCodeIterator(g).accept(Visitor())
    return {"E": events, "B": edited, "o": written(g)}


def k_stretch(c):
    from gcodeutils.gcoder import GCode
    from gcodeutils.stretch import stretch
    if c.get("cli"):
        import subprocess
        args = []
        for a, b in sorted(c["kw"].items()):
            args += ["--" + a, str(b)]
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcode_stretch"] + args, input="\n".join(c["lines"]).encode(),
                           capture_output=True, env=dict(os.environ, PYTHONUTF8="1"))
        if p.returncode != 0:
            raise RuntimeError(p.stderr.decode(errors="replace")[-200:])
        t = p.stdout.decode()
        return {"o": t[:-1].split("\n") if t else []}
    g = GCode(c["lines"])
    f = {"slic3r": stretch.Slic3rStretchFilter, "cura": stretch.CuraStretchFilter, "skein": stretch.SkeinforgeStretchFilter}[c["d"]](**c["kw"])
    f.filter(g)
    return {"o": written(g)}


def k_arc(c):
    if c.get("cli"):
        import subprocess
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcode_optimize_arcs", "-q"], input="\n".join(c["lines"]).encode(),
                           capture_output=True, env=dict(os.environ, PYTHONUTF8="1"))
        if p.returncode != 0:
            raise RuntimeError(p.stderr.decode(errors="replace")[-200:])
        t = p.stdout.decode()
        return {"o": t[:-1].split("\n") if t else []}
    from gcodeutils.gcoder import GCode
    from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
    g = GCode(c["lines"])
    GCodeArcOptimizerFilter().filter(g)
    return {"o": written(g)}


def k_temp(c):
    """res: ok or refused; o: written lines; kept: a refusal wrote nothing and left its file alone"""
    import subprocess, tempfile
    g = c["g"]
    a, b, m = g["a"] / 10., g["b"] / 10., g["m"] / 1e5
    text = "\n".join(c["lines"]) + "\n" if c["lines"] else ""
    if c["via"] == "lib":
        from gcodeutils.gcoder import GCode
        from gcodeutils import gcode_tempcal
        out = io.StringIO()
        try:
            cls = gcode_tempcal.GCodeStepTempGradient if g["n"] else gcode_tempcal.GCodeContinuousTempGradient
            gradient = cls(gcode=GCode(c["lines"]), start_temp=a, end_temp=b, min_z_change=m, steps=g["n"])
            for _ in range(c.get("before", 0)):
                # writing it again gives the same
                gradient.write(io.StringIO())
            gradient.write(out)
        except RuntimeError:
            return {"res": "refused", "o": [], "kept": int(out.getvalue() == "")}
        t = out.getvalue()
        return {"res": "ok", "kept": 1, "o": t[:-1].split("\n") if t else []}
    with tempfile.NamedTemporaryFile("w", suffix=".gcode", dir=".", encoding="utf8", newline="") as f:
        f.write(text)
        f.flush()
        if c["via"] == "plugin":
            with open(os.path.join(os.environ["VERIF_REPO"], "cura_plugins", "tempcal_plugin.py")) as p:
                code = p.read()
            try:
                exec(compile(code, "tempcal_plugin.py", "exec"), {"filename": f.name, "start_temp": a, "end_temp": b, "min_z_change": m, "steps": float(g["n"])})
                res = "ok"
            except RuntimeError:
                res = "refused"
            with open(f.name, encoding="utf8", newline="") as h:
                t = h.read()
            return {"res": res, "kept": int(t == text), "o": t[:-1].split("\n") if t and res == "ok" else []}
        args = [str(int(a)), str(int(b)), f.name, "-z", str(m)] + (["-s", str(g["n"])] if g["n"] else ["-c"]) + ["-q"] * c.get("q", 0)
        p = subprocess.run([sys.executable, "-W", "ignore", "-m", "gcodeutils.gcode_tempcal"] + args, capture_output=True,
                           stdin=subprocess.DEVNULL, env=dict(os.environ, PYTHONUTF8="1"))
        with open(f.name, encoding="utf8", newline="") as h:
            same = h.read() == text
        t = p.stdout.decode()
        if p.returncode != 0:
            return {"res": "refused", "o": [], "kept": int(t == "" and same)}
        return {"res": "ok" if same else "input", "kept": 1, "o": t[:-1].split("\n") if t else []}


DEFAULT_STRETCH = {"cross_limit_distance_over_edge_width": 5.0, "stretch_from_distance_over_edge_width": 2.0, "loop_stretch_over_edge_width": 0.11,
                   "edge_inside_stretch_over_edge_width": 0.32, "edge_outside_stretch_over_edge_width": 0.1, "stretch_strength": 1.0}


def composed(c, steps):
    """text written by the library after these steps, None when one of them refuses"""
    from gcodeutils.gcoder import GCode
    from gcodeutils.filter.translate import GCodeXYTranslateFilter
    from gcodeutils.filter.relative_extrusion import GCodeToRelativeExtrusionFilter
    from gcodeutils.filter.arc_optimizer import GCodeArcOptimizerFilter
    from gcodeutils.stretch import stretch
    from gcodeutils.visit.iterator import GCodeIterator
    from gcodeutils.visit.pause_at_layer import PauseAtLayer
    from gcodeutils import gcode_tempcal
    par = c["par"]
    g = GCode(c["lines"])
    out = io.StringIO()
    for s in steps:
        if s == "T":
            GCodeXYTranslateFilter(x=par.get("x", 0.), y=par.get("y", 0.)).filter(g)
        elif s == "E":
            GCodeToRelativeExtrusionFilter().filter(g)
        elif s == "P":
            GCodeIterator(g).accept(PauseAtLayer([par["p"]]))
        elif s == "A":
            GCodeArcOptimizerFilter().filter(g)
        elif s in ("S", "C"):
            kw = dict(DEFAULT_STRETCH)
            kw.update(par["kw"])
            (stretch.CuraStretchFilter if s == "C" else stretch.Slic3rStretchFilter)(**kw).filter(g)
        elif s == "G":
            t = par["g"]
            cls = gcode_tempcal.GCodeStepTempGradient if t["n"] else gcode_tempcal.GCodeContinuousTempGradient
            try:
                cls(gcode=g, start_temp=t["a"] / 10., end_temp=t["b"] / 10., min_z_change=t["m"] / 1e5, steps=t["n"]).write(out)
            except RuntimeError:
                return None
            return out.getvalue()
    g.write(out)
    return out.getvalue()


def k_cli(c):
    import itertools, subprocess, tempfile
    run, par = dict(c["r"]), c["par"]
    # the same text, written in other ways
    end = "\r\n" if c.get("crlf") else "\n"
    text = "".join(" " * (c.get("blanks", 0) * k % 3) + l + end * (1 + (c.get("blanks", 0) * k % 4 == 3)) for k, l in enumerate(c["lines"]))
    if c.get("cut"):
        text = text.rstrip("\r\n")
    names = {"mod": [p for n in range(4) for p in itertools.permutations("TEP", n)], "arcs": [(), ("A",)], "temp": [(), ("G",)], "ptemp": [(), ("G",)],
             "stretch": [(), ("E",), ("S",), ("C",), ("E", "S"), ("E", "C"), ("S", "E"), ("C", "E")]}
    names["pstretch"] = names["stretch"]
    need = {"T": run["x"] or run["y"], "E": True, "P": run["p"]}
    terms = {}
    for steps in names[run["tool"]]:
        if all(need.get(s, True) for s in steps):
            terms[".".join(("w",) + tuple(steps))] = composed(c, steps)
    run["refused"] = "w.G" in terms and terms["w.G"] is None
    run["cura"] = run["tool"] == "pstretch" or (run["tool"] == "stretch" and any("CURA_PROFILE_STRING" in l for l in c["lines"]))

    def known(path_or_text, path=True):
        if path:
            if not os.path.exists(path_or_text):
                return ["none"]
            with open(path_or_text, "rb") as f:
                b = f.read()
        else:
            b = path_or_text
        t = b.decode(errors="replace")
        res = [k for k, x in terms.items() if x is not None and x == t]
        if t == text: res.append("raw")
        if t == "": res.append("empty")
        if t == "old\n" * 500: res.append("old")
        return res
    with tempfile.TemporaryDirectory(dir=".") as d:
        inp, out = os.path.join(d, "in.gcode"), os.path.join(d, "out.gcode")
        if run["inp"] == "file":
            with open(inp, "w", newline="") as f:
                f.write(text)
        if run["old"] == "old":
            with open(out, "w") as f:
                f.write("old\n" * 500)
        if run["tool"] in ("pstretch", "ptemp"):
            name = "stretch_plugin.py" if run["tool"] == "pstretch" else "tempcal_plugin.py"
            src = os.path.join(os.environ["VERIF_REPO"], "cura_plugins", name)
            g = par.get("g") or {}
            glob = {"filename": inp, "stretch_strength": par.get("kw", {}).get("stretch_strength", 1.0), "start_temp": g.get("a", 0) / 10.,
                    "end_temp": g.get("b", 0) / 10., "min_z_change": g.get("m", 0) / 1e5, "steps": float(g.get("n", 0))}
            code = "import json, sys\nexec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), json.loads(sys.argv[2]))"
            args = ["-c", code, src, json.dumps(glob)]
        else:
            mod = {"mod": "gcode_mod", "stretch": "gcode_stretch", "arcs": "gcode_optimize_arcs", "temp": "gcode_tempcal"}[run["tool"]]
            place = [x for x in ([inp] if run["inp"] == "file" else ["-"] if run["inp"] == "dash" else []) +
                     ([out] if run["out"] == "file" else ["-"] if run["out"] == "dash" else [])]
            if run["tool"] == "temp":
                place = [str(par["g"]["a"] // 10), str(par["g"]["b"] // 10)] + place
            opts = [list(o) for o in c["opts"]]
            args = ["-m", "gcodeutils." + mod]
            if c["first"]:
                args += [x for o in opts for x in o] + place
            else:
                args += place + [x for o in opts for x in o]
        p = subprocess.run([sys.executable, "-W", "ignore"] + args, input=text.encode() if run["inp"] != "file" else b"", capture_output=True,
                           env=dict(os.environ, PYTHONUTF8="1"))
        fs = {"in": known(inp), "out": known(out), "std": known(p.stdout, False)}
    return {"r": run, "fs": fs, "rc": int(p.returncode != 0), "stderr": p.stderr.decode(errors="replace")[-300:]}


def main():
    kind, inp, out = sys.argv[1:4]
    fn = globals()["k_" + kind]
    limit = float(os.environ.get("CASE_TIMEOUT", "20"))
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    with open(inp) as f, open(out, "w") as o:
        for row in f:
            c = json.loads(row)
            signal.setitimer(signal.ITIMER_REAL, limit)
            try:
                r = fn(c)
                r["err"] = ""
            except Hang:
                r = {"err": "hang"}
            except (Exception, SystemExit) as e:
                r = {"err": "crash", "what": "%s: %s" % (type(e).__name__, str(e)[:200])}
            signal.setitimer(signal.ITIMER_REAL, 0)
            o.write(json.dumps(r, separators=(",", ":")) + "\n")


if __name__ == "__main__":
    main()
