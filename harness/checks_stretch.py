"""C13, C14, C15: stretching of loops."""
import json
import gen, genstretch
from common import TIER, drive, rng, write_ndjson
from checks_machine import programs_of, pick
from tokens import token, other_words

DEEP = TIER == "thorough"
DEFAULTS = {"loop_stretch_over_edge_width": 0.11, "edge_inside_stretch_over_edge_width": 0.32, "edge_outside_stretch_over_edge_width": 0.1,
            "stretch_strength": 1.0, "stretch_from_distance_over_edge_width": 2.0, "cross_limit_distance_over_edge_width": 5.0}


def full(line, d=None):
    r = token(line)
    r["ow"] = other_words(line)
    r["mk"] = genstretch.mk(d, line) if d else 0
    return r


def stretch_traces(check, cases):
    obs = drive(check.work, "stretch", cases)
    traces = []
    for c, o in zip(cases, obs):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        kw = dict(DEFAULTS, **c["kw"])
        s = kw["stretch_strength"]
        traces.append({"d": c["d"], "L": [full(l, c["d"]) for l in ls], "O": [full(l) for l in o.get("o", [])], "err": o["err"], "w": c["w"],
                       "R": [round(1e4 * s * kw[k]) for k in ("edge_outside_stretch_over_edge_width", "edge_inside_stretch_over_edge_width",
                                                              "loop_stretch_over_edge_width")],
                       "sd": round(1000 * kw["stretch_from_distance_over_edge_width"]), "cl": round(1000 * kw["cross_limit_distance_over_edge_width"])})
    return traces


def case(r, d, wild, **kw):
    inches = d != "skein" and r.random() < 0.12
    ls, w = genstretch.DIALECTS[d](r, wild=wild, inches=inches, **kw)
    return {"d": d, "lines": ls, "w": w, "kw": genstretch.settings(r)}


DIALECTS = ("slic3r", "cura", "skein")

# lines for all short programs, mostly malformed: no error, no endless loop, bounded displacements, other lines unchanged
WILD = {
    "slic3r": ["G1 X%s Y%s ; move to first perimeter point", "G1 X%s Y%s E1 ; perimeter external", "G1 X%s E2 ; perimeter", "G1 Y%s E1.5", "G1 E-1 ; retract",
               "G1 Z%s", "G91", "G1 X%s Y%s", "G1 E1 ; unretract", "G2 X%s Y%s I1 J1 E1 ; perimeter", "G92 X%s"],
    "cura": [";TYPE:WALL-OUTER", ";TYPE:WALL-INNER", ";TYPE:SKIN", ";TYPE:FILL", "G1 X%s Y%s E1", "G0 X%s", "G1 Y%s E2", "G1 Z%s", "G1 F900 E1", "G91", "G28 X"],
    "skein": ["(<edge> outer )", "(<edge> inner )", "(<loop> inner )", "(</edge>)", "M101", "M103", "G1 X%s Y%s F900", "G1 Y%s E2", "G1 Z%s", "G91", "G1 X%s"]}


def case_of(d, lines, w, r):
    return {"d": d, "lines": lines, "w": w, "kw": genstretch.settings(r)}


def c13(check):
    cases = []
    for d in DIALECTS:
        r = rng("C13", d)
        texts = []
        for x in WILD[d]:
            for _ in range(x.count("%s")):
                x = x.replace("%s", gen.num(gen.coord(r, 9, 2)) if "Z" not in x else r.choice(["0.3", "0.6"]), 1)
            texts.append(x)
        progs = programs_of(check, "lines of " + d, "MCMachine", texts, 5 if DEEP else 4, ["AbsoluteMovesReach", "OnlyMovesMove"])
        for p in pick("C13" + d, progs, 1200, 20000):
            c = case_of(d, ["G90", "M83", "G1 Z0.3"] + p, 400, r)
            cases.append(c)
        for k in range(2500 if DEEP else 90):
            c = case(r, d, r.choice([0, 0.1, 0.3, 0.6]))
            cases.append(c)
    check.sample(cases[0])
    check.sample(cases[-1])
    for name, d in (("skeinforge_square.gcode", "skein"), ("slic3r_square.gcode", "slic3r"), ("cura_square.gcode", "cura"), ("empty_for_good.gcode", "cura"),
                    ("empty_skeinforge_format.gcode", "skein"), ("simple1.gcode", "slic3r"), ("skeinforge_model1_prestretch.gcode", "skein")):
        ls = dict(gen.corpora(10 ** 6 if DEEP else 700))[name]
        cases.append({"d": d, "lines": ls, "w": corpus_width(ls, d), "kw": {}})
    loops(check, check.validate("wild programs", "VStretch", stretch_traces(check, cases), cases))


def corpus_width(ls, d):
    import base64, re, zlib
    w = 400
    for l in ls:
        if d == "slic3r" and l.startswith("; external perimeters extrusion width"):
            w = round(1000 * float(re.search(r"=\s*([.0-9]+)mm", l).group(1)))
        elif d == "skein" and l.startswith("(<edgeWidth>"):
            w = round(1000 * float(l.split()[1]))
        elif d == "cura" and l.startswith(";CURA_PROFILE_STRING:"):
            t = zlib.decompress(base64.b64decode(l.strip()[21:])).decode().split("\f")[0]
            for o in t.split("\b"):
                if o.startswith("nozzle_size="):
                    w = round(1000 * float(o[12:]))
    return w


def c14(check):
    r = rng("C14")
    cases = []
    step, dist, cross = r.randint(300, 2500), r.randint(6000, 15000), r.randint(5000, 60000)
    m = check.model("law on a grid", "MCStretch", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n%s" % (
        5 if DEEP else 4, "".join("INVARIANT %s\n" % i for i in ("Bounded", "StartFree", "Symmetric", "Reversible", "Outwards"))),
        {"STEP": str(step), "DIST": str(dist), "CROSS": str(cross)})
    found = sorted(json.loads(p[1:]) for p in m.prints if p.startswith("P"))
    for k, points in enumerate(pick("C14", found, 900, 20000)):
        d = DIALECTS[k % 3]
        dx, dy = r.randint(-30000, 30000), r.randint(-30000, 30000)
        ls, w = genstretch.loop_program(r, d, [(x + dx, y + dy) for x, y in points])
        cases.append({"d": d, "lines": ls, "w": w, "kw": {"stretch_from_distance_over_edge_width": round(dist / 5000.0, 3),
                                                          "cross_limit_distance_over_edge_width": round(cross / 5000.0, 3),
                                                          "stretch_strength": r.choice([1.0, 2.0])}})
    check.sample(cases[0])
    for d in DIALECTS:
        for _ in range(3000 if DEEP else 70):
            cases.append(case(r, d, 0.0))
        # walls of all kinds next to each other, with and without travels
        for _ in range(1500 if DEEP else 60):
            ls, w = genstretch.blocks_program(r, d, [r.randint(1, len(genstretch.BLOCKS[d])) for _ in range(r.randint(2, 9))])
            cases.append({"d": d, "lines": ls, "w": w, "kw": genstretch.settings(r)})
    check.sample(cases[-1])
    loops(check, check.validate("stretched loops", "VStretch", stretch_traces(check, cases), cases))


def c15(check):
    cases = []
    for d in DIALECTS:
        r = rng("C15", d)
        path = check.work.file("blocks-%s.ndjson" % d)
        write_ndjson(path, genstretch.block_records(d))
        m = check.model("blocks of " + d, "MCMarks", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\nINVARIANT Agree\nINVARIANT OneStart\nINVARIANT Fills\n" % (
            6 if DEEP else 5), {"ALPHABET": path, "DIALECT": d})
        found = sorted(json.loads(p[1:]) for p in m.prints if p.startswith("P"))
        for p in pick("C15" + d, found, 300, 6000):
            ls, w = genstretch.blocks_program(r, d, p)
            c = case_of(d, ls, w, r)
            if r.random() < 0.7:
                # three ratios which tell the kinds apart
                q = [0.1, 0.25, 0.4]
                r.shuffle(q)
                c["kw"].update(loop_stretch_over_edge_width=q[0], edge_inside_stretch_over_edge_width=q[1], edge_outside_stretch_over_edge_width=q[2],
                               stretch_strength=r.choice([1.0, 1.5]))
            cases.append(c)
        for k in range(1500 if DEEP else 40):
            c = case(r, d, 0.0)
            if (d == "slic3r" and k % 8 == 0) or (d == "cura" and k % 2 == 0 and any("PROFILE" in l for l in c["lines"])):
                c["cli"] = 1
                c["kw"]["stretch_strength"] = abs(c["kw"].get("stretch_strength", 1.0))
            cases.append(c)
    check.sample(cases[0])
    check.sample(cases[-1])
    loops(check, check.validate("kinds of loops", "VStretch", stretch_traces(check, cases), cases))


def loops(check, _):
    check.assumptions.append("the law is required of closed loops at least as long as the stretch distance, of at most 20 mm in each direction")
