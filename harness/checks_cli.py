"""C21: the command line tools and plugins."""
import json
import gen, genarc, genstretch
from common import TIER, drive, rng
from checks_temp import gradient, programs

DEEP = TIER == "thorough"


def program(r, tool):
    q = r.random()
    if tool == "mod":
        if q < 0.5:
            return gen.layered(r, layers=r.randint(0, 8), noise=r.choice([0, 0.2]))
        return gen.tracked(r, r.randint(0, 40), mode_first=r.random() < 0.7, noise=0.2, zdyadic=True)
    if tool in ("stretch", "pstretch"):
        d = "cura" if tool == "pstretch" or q < 0.45 else "slic3r" if q < 0.9 else "skein"
        ls = genstretch.DIALECTS[d](r, wild=r.choice([0, 0, 0.2]))[0]
        if r.random() < 0.25:
            # slicers may rely on the default of absolute extrusion
            ls = [l for l in ls if l not in ("M82", "M83")]
        if q > 0.85 and tool == "stretch":
            # the profile of Cura may be anywhere
            ls.insert(r.randint(0, len(ls)), genstretch.cura_profile(400, r))
        return ls
    if tool == "arcs":
        return genarc.single(r)[0] if q < 0.7 else genarc.wild(r)
    return r.choice(list(programs(r, 6))[:6])


def verbosity(r):
    return r.choice([[], [], [["-q"]], [["--quiet"]], [["-v"]], [["-v"], ["-v"]], [["--verbose"]], [["-q"], ["-q"]]])


def case(r, run):
    tool = run["tool"]
    c = {"r": run, "par": {}, "opts": verbosity(r), "first": int(r.random() < 0.5)}
    par, opts = c["par"], c["opts"]
    c["lines"] = program(r, tool)
    if tool == "mod":
        for a in "xy":
            if run[a]:
                par[a] = r.choice([0, 5, -3, 0.5, -12.25, 100.125, 0.001, r.randint(-200, 200) / 8.0])
                opts.append(["-" + a, str(par[a])])
        if run["e"]:
            opts += r.choice([[["-e"]], [["-ee"]], [["-e"], ["-e"]]])
        if run["p"]:
            par["p"] = r.choice([0, 0, 1, 1, 2, 3, 40, -1])
            opts.append(["-p", str(par["p"])])
    elif tool in ("stretch", "pstretch"):
        kw = genstretch.settings(r, True)
        if tool == "pstretch":
            kw = {"stretch_strength": kw.get("stretch_strength", 1.0)}
        par["kw"] = kw
        opts += [["--" + k, str(v)] for k, v in kw.items()]
    elif tool == "arcs":
        if run["out"] == "inplace":
            opts.append(r.choice([["-i"], ["--inplace"]]))
    else:
        for _ in range(40):
            g = gradient(r, False)
            # refusals are wanted as often as not
            if not run["refused"]:
                c["lines"] = program(r, tool) if r.random() < 0.5 else c["lines"]
                if not any("E" in l for l in c["lines"]):
                    continue
                g["m"] = r.choice([0, 10000])
            else:
                g["m"] = r.choice([3000000, 10000000])
            break
        if tool == "temp":
            g["a"] -= g["a"] % 10
            g["b"] -= g["b"] % 10
            plain = g["m"] == 10000 and r.random() < 0.5
            if plain:
                # heights around the default minimum
                z = sorted(r.sample([8, 9, 10, 11, 12, 13, 14, 15, 20, 25], 5))
                c["lines"] = ["G90"] + [x for k in z for x in ("G1 Z" + gen.num(k * 1000), "G1 X1 E%d" % k)] + c["lines"]
            opts += [] if plain else [r.choice([["-z", str(g["m"] / 1e5)], ["--min_z_change=" + str(g["m"] / 1e5)]])]
            if g["n"]:
                opts += [] if g["n"] == 10 and r.random() < 0.7 else [r.choice([["-s", str(g["n"])], ["--steps", str(g["n"])]])]
            else:
                opts += r.choice([[["-c"]], [["--continuous"]], [["-c"], ["-s", "4"]]])
        elif not g["n"]:
            g["n"] = 5
        par["g"] = g
    r.shuffle(opts)
    c["lines"] = [l for l in c["lines"] if l.strip()]
    c.update(crlf=int(r.random() < 0.15), blanks=r.choice([0, 0, 0, 1, 2, 5]), cut=int(r.random() < 0.15))
    return c


def c21(check):
    res = check.model("model", "MCCli", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT InputKept\nINVARIANT NeverHalfWritten\nINVARIANT OutputClean\n"
                      "INVARIANT OnePlace\nINVARIANT RefusalKeeps\nPROPERTY Ends\n")
    runs = sorted((json.loads(p[1:]) for p in res.prints if p.startswith("P")), key=repr)
    r = rng("C21")
    cases = []
    for _ in range(25 if DEEP else 2):
        cases += [case(r, dict(q)) for q in runs]
    check.sample(cases[0])
    check.sample(cases[-1])
    obs = drive(check.work, "cli", cases, case_timeout=60, timeout=1800 if DEEP else 600)
    traces = []
    for c, o in zip(cases, obs):
        t = {"r": c["r"], "fs": {"in": [], "out": [], "std": []}, "rc": 0, "err": o["err"]}
        if not o["err"]:
            t.update(r=o["r"], fs=o["fs"], rc=o["rc"])
        traces.append(t)
    check.validate("runs", "VCli", traces, cases)
