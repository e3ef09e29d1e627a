"""C19, C20: temperature gradients."""
import re
import gen
from common import TIER, drive, rng, write_ndjson
from tokens import token
from checks_machine import programs_of, pick, layer_alphabet

DEEP = TIER == "thorough"
_m104 = re.compile(r"M104 S([0-9]+)\.([0-9])$")


def temp_traces(check, cases):
    obs = drive(check.work, "temp", cases)
    lays = drive(check.work, "layers", [{"lines": c["lines"]} for c in cases])
    traces = []
    for c, o, y in zip(cases, obs, lays):
        ls = [l.strip() for l in c["lines"] if l.strip()]
        ids = {}

        def num(x):
            return ids.setdefault(x, len(ids) + 1)

        def kind(x):
            m = _m104.match(x)
            return int(m.group(1) + m.group(2)) if m else -1 if x.strip() else 0
        t = {"L": [token(l) for l in ls], "lay": y.get("lay") or [1] * len(ls), "g": c["g"], "id": [num(l) for l in ls],
             "res": o["err"] or o["res"], "kept": o.get("kept", 0), "O": [[num(x), kind(x)] for x in o.get("o", [])]}
        traces.append(t)
    return traces


def gradient(r, wild):
    def temp():
        if wild:
            return r.choice([r.randint(0, 400) * 10, r.randint(1400, 2600), r.choice([1499, 1500, 2500, 2501]), r.randint(145, 255) * 10])
        return r.choice([r.randint(150, 250) * 10, r.randint(1500, 2500), 1500, 2500])
    a = temp()
    b = a if r.random() < 0.05 else temp()
    return {"a": a, "b": b, "n": 0 if r.random() < 0.4 else r.choice([1, 2, 3, 4, 5, 7, 10, 10, 25, 100]),
            "m": r.choice([0, 10000, 10000, 10000, 20000, 30000, 35000, 100000, 300000, 25000])}


def model(check, name):
    r = rng(name, "alphabet")
    a = layer_alphabet(r)
    z = r.sample(range(1, 30), 4)
    st = r.choice([10000, 20000, 25000])
    texts = ["G1 Z" + gen.num(z[0] * st), "G1 X1 Z%s E%d" % (gen.num(z[1] * st), r.randint(20, 29)), "G1 Z%s" % gen.num(z[2] * st),
             "G1 X1 E%d" % r.randint(1, 9), a[6], "G1 Z%s" % gen.num(z[3] * st), "M104 S%d.0" % r.choice([200, 210]), "G1 X3 E%d" % r.randint(10, 19), "G92 E0"]
    if DEEP:
        texts += ["G91", "G1 Z0.3 E40"]
    grads = [gradient(r, False) for _ in range(3)] + [{"a": 2400, "b": 2000, "n": 4, "m": 10000}, {"a": 1900, "b": 2300, "n": 0, "m": 10000}]
    path = check.work.file("gradients.ndjson")
    write_ndjson(path, grads)
    progs = programs_of(check, "model", "MCTemp", texts, 5 if DEEP else 4, ["InRange", "Monotonic", "Ends", "OncePerSection", "AboveMinimum",
                                                                           "FewTemperatures", "Starts1", "CanonicalValid"], env={"GRADIENTS": path})
    cases = []
    for k, p in enumerate(pick(name, progs, 4000, 100000)):
        cases.append({"lines": p + ["G1 X9 E50"], "g": grads[k % len(grads)], "via": "lib"})
    return cases


def route(r, c, k):
    """some of the cases through the command line and the plugin"""
    g = c["g"]
    q = k % 40
    if q == 0 and g["a"] % 10 == 0 and g["b"] % 10 == 0:
        c["via"] = "cli"
        c["q"] = r.randint(0, 2)
    elif q % 5 == 1 and g["n"]:
        c["via"] = "plugin"
    return c


def programs(r, n):
    for k in range(n):
        q = r.random()
        if q < 0.6:
            yield gen.layered(r, layers=r.choice([0, 1, 2, 3, 6, 12, 30]), hops=r.random() < 0.4, travel_heights=r.random() < 0.5,
                              revisit=r.random() < 0.4, noise=r.choice([0, 0, 0.2]))
        elif q < 0.7:
            yield gen.layered(r, g92z=True, layers=r.randint(1, 8))
        elif q < 0.8:
            yield gen.tracked(r, r.randint(0, 40), zdyadic=True, noise=0.2, inches=False)
        else:
            # a tower: regular heights, possibly already with temperatures
            st = r.choice([10000, 20000, 25000, 30000])
            z = r.choice([st, 20000, 30000])
            ls = ["G28", "G90", "M82"] if r.random() < 0.8 else ["; start"]
            e = 0
            for j in range(r.randint(1, 40)):
                ls.append("G1 Z" + gen.num(z))
                if r.random() < 0.1:
                    ls.append("M104 S%d.0" % r.randint(180, 220))
                if r.random() < 0.9:
                    e += r.randint(1, 9)
                    ls.append("G1 X%d E%d" % (r.randint(0, 99), e))
                z += st
            if r.random() < 0.5:
                ls.append("G1 Z%s" % gen.num(z + 1000000))
            yield ls
    for _, ls in gen.corpora(4000 if DEEP else 400):
        yield ls
    for _ in range(8 if DEEP else 2):
        yield gen.tall(r, zstyle="z")


def c19(check):
    cases = model(check, "C19")
    r = rng("C19", "random")
    for c in cases:
        if r.random() < 0.5:
            c["g"] = gradient(r, True)
    check.sample(cases[0])
    check.validate("short programs", "VTemp", temp_traces(check, cases), cases, env={"WHAT": "C19"})
    cases = [route(r, {"lines": ls, "g": gradient(r, True), "via": "lib"}, k) for k, ls in enumerate(programs(r, 8000 if DEEP else 900))]
    check.sample(cases[0])
    check.validate("programs", "VTemp", temp_traces(check, cases), cases, env={"WHAT": "C19"})


def c20(check):
    check.prove("PTemp", ("Continuous", "Next", "Inv", 0), ("Discrete", "Next", "Inv", 0))
    check.prove("PNum", ("Init", "Next", "Inv", 0))
    cases = model(check, "C20")
    r = rng("C20", "random")
    for c in cases[::4]:
        c["before"] = 1
    check.sample(cases[0])
    check.validate("short programs", "VTemp", temp_traces(check, cases), cases, env={"WHAT": "C20"})
    cases = [route(r, {"lines": ls, "g": gradient(r, False), "via": "lib", "before": r.choice([0, 0, 0, 1, 2])}, k) for k, ls in enumerate(programs(r, 8000 if DEEP else 900))]
    check.sample(cases[0])
    check.validate("programs", "VTemp", temp_traces(check, cases), cases, env={"WHAT": "C20"})
