"""C03, C04, C06: the reference printer, layers and summary."""
import gen
from common import TIER, rng, drive, write_ndjson
from tokens import token

DEEP = TIER == "thorough"


def alphabet(check, texts, name="alphabet"):
    path = check.work.file(name + ".ndjson")
    write_ndjson(path, [token(t) for t in texts])
    return path


def programs_of(check, name, module, texts, n, invariants, extra_cfg="", env=None, **kw):
    """all programs of n lines over texts, from TLC"""
    import json
    r = check.model(name, module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n%s%s" % (
        n, "".join("INVARIANT %s\n" % i for i in invariants), extra_cfg), dict(env or {}, ALPHABET=alphabet(check, texts)), **kw)
    return [[texts[k - 1] for k in json.loads(p[1:])] for p in r.prints if p.startswith("P")]


def routes(name, cases):
    """the program is read through all the ways there are"""
    r = rng(name, "routes")
    for c in cases:
        if r.random() < 0.3:
            c["via"] = r.choice(["deferred", "stream", "light", "callback"])


def track_traces(check, cases):
    routes("track", cases)
    obs = drive(check.work, "track", cases)
    traces = []
    for c, o in zip(cases, obs):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        traces.append({"h": c.get("home") or [0, 0, 0], "L": [token(l) for l in ls], "o": o.get("o", []), "fin": o.get("fin", []),
                       "err": o["err"]})
    return traces


def pick(name, progs, quick, deep):
    """a seeded share of the programs, when there are too many to run all of them"""
    progs = sorted(progs, key=repr)        # TLC finds them in any order
    n = deep if DEEP else quick
    return progs if len(progs) <= n else rng(name, "pick").sample(progs, n)


def v(r, digits=2, lim=50):
    return gen.num(gen.coord(r, lim, digits), None)


def c03(check):
    check.prove("PMachine")
    check.prove("PNum", ("Init", "Next", "Inv", 0))
    r = rng("C03", "alphabet")
    texts = ["G90", "G91", "M82", "M83", "G28", "G28 X0", "G92", "G92 X%s E%s" % (v(r), v(r)), "G92 Z%s" % v(r), "G20", "G21",
             "G1 X%s E%s" % (v(r), v(r)), "G0 Y%s Z%s F1200" % (v(r), v(r, 1, 5)), "G1 E%s" % v(r), "T12", "; G1 X5"]
    if not DEEP:
        texts = [t for t in texts if t not in ("T12", "; G1 X5", "G21")]
    progs = programs_of(check, "model", "MCMachine", texts, 5 if DEEP else 4,
                        ["AbsoluteMovesReach", "OnlyMovesMove", "OriginTrue", "FilamentCounted", "ConventionsAgree"])
    progs = pick("C03", progs, 8000, 120000)
    cases = []
    for k, p in enumerate(progs):
        c = {"lines": p + ["G1 X1 Y2 Z3 E4"]}
        if k % 7 == 0:
            c["append"] = k % (len(p) + 2)
        cases.append(c)
    check.sample(cases[len(cases) // 2])
    check.validate("all short programs", "VTrack", track_traces(check, cases), cases)
    r = rng("C03", "random")
    cases = []
    for k in range(6000 if DEEP else 700):
        c = {"lines": gen.tracked(r, r.randint(3, 60), digits=r.choice([1, 3, 4, 5]))}
        if r.random() < 0.4:
            c["home"] = [gen.coord(r, 50, 2) for _ in range(3)]
        if r.random() < 0.4:
            c["append"] = r.randint(0, len(c["lines"]))
        cases.append(c)
    for n, ls in gen.corpora(3000 if DEEP else 300):
        cases.append({"lines": ls})
    check.sample(cases[0])
    check.validate("random programs", "VTrack", track_traces(check, cases), cases)


def layer_traces(check, cases):
    routes("layers", cases)
    obs = drive(check.work, "layers", cases)
    traces = []
    for c, o in zip(cases, obs):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        t = {"h": c.get("home") or [0, 0, 0], "L": [token(l) for l in ls], "err": o["err"], "main": c.get("main", 0), "lay": [], "lz": [], "ok": 0, "zs": [], "sum": [], "cb": []}
        if not o["err"]:
            for k in ("lay", "lz", "ok", "zs", "sum", "cb"):
                t[k] = o[k]
        traces.append(t)
    return traces


def zgrid(r, k):
    """height number k of a grid in 1e-5 mm"""
    return k * r.choice([10000, 20000, 25000, 30000, 35000])


def layer_alphabet(r):
    a, b = r.sample(range(1, 9), 2)
    st = r.choice([10000, 20000, 25000, 30000, 12500, 26700])
    z1, z2 = gen.num(a * st), gen.num(b * st)
    return ["G1 Z" + z1, "G1 X%s Z%s" % (v(r), z2), "G1 X%s Y%s E%s" % (v(r), v(r), r.randint(1, 9)), "G1 Z%s E%s" % (z1, r.randint(1, 9)),
            "G1 X%s Y%s" % (v(r), v(r)), "G91", "G90", "M83", "G92 Z" + gen.num(r.choice([0, st])), "G92 E0", "G28", "G1 E-1 F1200",
            "; text", "G92 X%s Y%s" % (v(r), v(r)), "G1 Z-" + gen.num(st)]


def layered_cases(name, n):
    r = rng(name, "random")
    cases = []
    for k in range(n):
        c = {"lines": gen.layered(r, g92z=r.random() < 0.3, noise=r.choice([0, 0.3]), layers=r.randint(0, 12))}
        if r.random() < 0.3:
            c["home"] = [gen.coord(r, 50, 2) for _ in range(3)]
        cases.append(c)
    for k in range(n // 3):
        cases.append({"lines": gen.tracked(r, r.randint(3, 50), zdyadic=True, noise=0.2, inches=k % 3 == 0, relative=k % 2 == 0)})
    for _, ls in gen.corpora(6000 if DEEP else 500):
        cases.append({"lines": ls})
    cases += [{"lines": gen.tall(r)} for _ in range(8 if DEEP else 2)]
    return cases


def c04(check):
    check.prove("PLayers")
    texts = layer_alphabet(rng("C04", "alphabet"))
    progs = programs_of(check, "model", "MCLayers", texts, 5 if DEEP else 4, ["Cover", "HeightTrue", "Boundaries", "Printed", "Filament", "Bounds"])
    cases = [{"lines": p + ["G1 X1 E2"]} for p in pick("C04", progs, 6000, 120000)]
    check.sample(cases[0])
    check.validate("all short programs", "VLayers", layer_traces(check, cases), cases, env={"WHAT": "C04"})
    cases = layered_cases("C04", 6000 if DEEP else 600)
    check.sample(cases[0])
    check.validate("layered programs", "VLayers", layer_traces(check, cases), cases, env={"WHAT": "C04"})


def c06(check):
    texts = layer_alphabet(rng("C06", "alphabet"))
    if not DEEP:
        texts = [x for x in texts if x != "; text"]
    progs = programs_of(check, "model", "MCLayers", texts, 5 if DEEP else 4, ["Cover", "HeightTrue", "Boundaries", "Printed", "Filament", "Bounds"])
    cases = [{"lines": p + ["G1 X%d Y%d" % (k % 7 - 3, k % 5)]} for k, p in enumerate(pick("C06", progs, 6000, 120000))]
    check.sample(cases[0])
    check.validate("all short programs", "VLayers", layer_traces(check, cases), cases, env={"WHAT": "C06"})
    cases = layered_cases("C06", 5000 if DEEP else 500)
    r = rng("C06", "inches")
    for k in range(300 if not DEEP else 3000):
        cases.append({"lines": gen.tracked(r, r.randint(3, 50), noise=0.2)})
    for k, c in enumerate(cases):
        if k % 25 == 0:
            c["main"] = 1
            c.pop("home", None)
    check.sample(cases[0])
    check.validate("random programs", "VLayers", layer_traces(check, cases), cases, env={"WHAT": "C06"})
