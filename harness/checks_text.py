"""C01 reading and writing, C02 lexical structure, C07 equality."""
import gen
from common import TIER, MachineryError, drive, rng, write_ndjson
from tokens import token, AXES, NA
from checks_machine import alphabet, pick, routes, v

DEEP = TIER == "thorough"
WEIRD = ["Hello world", "%", "T", "Tool change", "t", "G", "M", "G1X", "X", "e", "Été à 200°C", "日本語 G1 X5", "; ünïcode", "(", ")", "((", "(a (b) c)",
         "G1 X(5)", "G1 X- Y+ Z.", "G1 X--5", "G1 X5.5.5", "G1 X5,5", "*", "*71", "N", "N5", "N5 ;x", "N10 G1 X5*22", "/G1 X5", "G1 X1e5",
         "G28 X Y", "G92", "G92 E", "G4 P", "G4", "G4 S1", "M117 Z5 E3", ";;;", "()", ";", "G1 Z", "G1 X5 Y5 ;LAYER:0", "G", "G-1", "G1.5",
         "\u200bG1 X5", "x5 y6", "G01 X05", "T99", "T-1", "Txyz", "T1.5", "=", "#", "\\", "\"", "'", "{x}", "{0}", "%s", "%d", "\t", "G1\tX5", "G92 Z5",
         "G1 F0", "G1 F-60 X5", "G1 X5 F60", "G0 F0 X9", "G1 Z0.2 E1", "G1 Z-0.2 E1", "G91", "G90", "G20", "G21", "M82", "M83", "G1 E-5",
         "G4 P99999999999999999999", "G1 X99999999999999999999 F1", "G1 Z99999999999999999999", "G1 X5 ; (", "G1 (; X5) Y6", "M226", "NaN", "inf",
         "G1 X0 Y0 Z0.001", "G1 Z0.004 E2", "G1 Z0.0099 E3", "G1 Z5.123456 E4", "G3 X1 Y1 I2 J3 E4", "G2 I0 J0", "CURA_PROFILE_STRING", "M104S200", "mm"]


SEPARATORS = ["\x0b", "\x0c", "\x1c", "\x1e", "\x1f", "\x85", "\u2028", "\u2029", "\r", "\x00", "\ufeff", "\x1a", "\x08", "\x7f"]


def ndjson(check, name, rows):
    path = check.work.file(name + ".ndjson")
    write_ndjson(path, rows)
    return path


def codes(s):
    return [ord(x) for x in s]


def pieces(check, module, texts, n, invariants):
    """sequences of pieces explored by TLC, as texts"""
    import json
    r = check.model("model", module, "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n%s" % (
        n, "".join("INVARIANT %s\n" % i for i in invariants)), {"ALPHABET": ndjson(check, "pieces", [{"s": codes(t)} for t in texts])})
    return ["".join(texts[k - 1] for k in json.loads(p[1:])) for p in r.prints if p.startswith("P")]


def c01(check):
    r = rng("C01")
    texts = ["G1 X%s" % v(r), "\n", " ", r.choice(["(", "(a)"]), ";", r.choice("TGM"), "Z%d E1" % r.randint(1, 9), r.choice(["é", "世", "°"])] + \
        r.sample(["\t", "-", "*", "N5", "E", "\u00a0", ")", "/", ".", "5", "\u3000", "\u2028", "\x0b", "\x85"], 6 if DEEP else 4)
    cases = [{"text": t} for t in pick("C01", pieces(check, "MCReader", texts, 5 if DEEP else 4, ["NothingLost", "Trimmed", "Again", "ByLine"]), 6000, 120000)]
    n = 8000 if DEEP else 900
    alpha = "GMTNXYZEFIJSgmtxyzef0123456789.-+ ()*;/:\t=<>é_,"
    for k in range(n):
        ls = []
        for _ in range(r.randint(0, 14)):
            q = r.random()
            if q < 0.4:
                x = r.choice(WEIRD)
            elif q < 0.6:
                x = "".join(r.choice(alpha) for _ in range(r.randint(0, 14)))
            elif q < 0.8:
                x = r.choice("GMT") + str(r.choice([0, 1, 2, 4, 20, 21, 28, 90, 91, 92, 82, 83, 104])) + " " + \
                    "".join(r.choice("XYZEFIJSP ") + r.choice(["", "5", "-1.5", ".", "0", "0.2", "0.004"]) for _ in range(r.randint(0, 4)))
            else:
                x = r.choice(["", " ", "\t"])
            if x and r.random() < 0.04:
                i = r.randint(0, len(x))
                x = x[:i] + r.choice(SEPARATORS) + x[i:]
            if x and r.random() < 0.015:
                # very long lines
                x = (x + r.choice([" ", ";", " ; "])) * r.choice([10, 30, 100, 400])
                x = x[:r.choice([300, 1500, 5000])]
            ls.append(r.choice(["", "", " ", "\t", "\u00a0"]) + x + r.choice(["", "", " ", "\u3000"]))
        cases.append({"text": "\n".join(ls) + ("\n" if r.random() < 0.5 else "")})
    for _ in range(n // 4):
        cases.append({"text": "\n".join(gen.layered(r, noise=0.4, g92z=True, layers=r.randint(0, 5)))})
        cases.append({"text": "\n".join(gen.tracked(r, r.randint(1, 30)))})
    for _, ls in gen.corpora(3000 if DEEP else 300):
        cases.append({"text": "\n".join(ls)})
    for k in range(0, len(cases), max(1, len(cases) // (200 if DEEP else 40))):
        # (text files have other ends of lines)
        cases[k]["cli"] = int("\r" not in cases[k]["text"])
    check.sample(cases[0])
    check.sample(cases[-300])
    routes("rewrite", cases)
    obs = drive(check.work, "rewrite", cases)
    traces = [{"s": codes(c["text"]), "o": [codes(x) for x in o.get("o", [])], "err": o["err"]} for c, o in zip(cases, obs)]
    check.validate("texts", "VReader", traces, cases)


def c02(check):
    r = rng("C02")
    texts = ["G1", "x%s" % v(r), "E%s" % v(r), " ", "(G2 %s)" % r.choice(["y3", "m5", "; z"]), "; z2", "g92", "N%d " % r.randint(0, 99), "*%d" % r.randint(0, 255),
             r.choice("FIJ"), str(r.randint(0, 9)), ".5", "S%s" % v(r), "-", "p7 S6"]
    if DEEP:
        texts += ["M104", "T1", "+", "\t"]
    lines = pick("C02", pieces(check, "MCLex", texts, 5 if DEEP else 4, ["CaseNeverMatters", "CommentsNeverMatter", "SpacesNeverMatter",
                                                                         "OnlyGHasValues"]), 9000, 150000)
    n = 12000 if DEEP else 1500
    for k in range(n):
        ws = []
        for _ in range(r.randint(0, 5)):
            a = r.choice("xyzefij" if r.random() < 0.8 else "spspspqruabcdhklmnogtvw")
            q = r.random()
            x = "" if q < 0.1 else gen.num(gen.coord(r, r.choice([1, 9, 400]), r.choice([0, 1, 2, 3, 5])), r)
            if q > 0.97:
                x += str(r.randint(0, 99999)) if "." in x else ""
            ws.append((a, x))
        c = r.choice("gggggggmt") + str(r.choice([0, 1, 2, 3, 4, 10, 20, 21, 28, 29, 90, 91, 92, 104, 117, 999]))
        parts = [c] + [a + b for a, b in ws]
        parts = [x.upper() if r.random() < 0.6 else x for x in parts]
        if r.random() < 0.15:
            parts.insert(0, r.choice("Nn") + str(r.randint(0, 99999)))
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            parts.insert(r.randint(0, len(parts)), "(" + r.choice(gen.NOISE + ["; x5", ";", "", "N5", "G92 X0 "]) + ")")
        s = parts[0]
        for x in parts[1:]:
            s += r.choice(["", " ", " ", "  ", "\t"]) + x
        if r.random() < 0.1:
            s += r.choice(["", " "]) + "*" + str(r.randint(0, 255))
        if r.random() < 0.3:
            s += r.choice(["", " "]) + ";" + r.choice(gen.NOISE + ["(x", ")", ";;", "N3", "*5", ""])
        if r.random() < 0.02:
            # long lines
            i = r.randint(0, 3)
            s = s.replace(" ", " " * r.randint(50, 300), 1) if i == 0 else "(" + "long " * r.randint(20, 60) + ")" + s if i == 1 else \
                s + " " + " ".join(r.choice("QSPXYF") + str(r.randint(0, 99)) for _ in range(r.randint(8, 60))) + " E7.5" if i == 2 else \
                s + " ;" + "=" * r.randint(100, 300) + " X8"
        if r.random() < 0.05:
            s = r.choice(["; ", "(a)", ";G1 X5", "(G1 X5) ;", "(a) (b)", ";(a"])
        lines.append(s)
    for _, ls in gen.corpora(2000 if DEEP else 200):
        lines += ls
    for _ in range(n // 20):
        lines += gen.tracked(r, 20, noise=0.8)
    lines = sorted(set(l.strip() for l in lines if l.strip()))
    cases = [{"line": l} for l in lines]
    check.sample(cases[len(cases) // 2])
    obs = drive(check.work, "lex", cases)
    traces = []
    for c, o in zip(cases, obs):
        k = token(c["line"])
        tl, tn = (0, 0) if k["c"] == "" else (-1, -1) if k["c"] == "?" else (ord(k["c"][0].lower()), int(k["c"][1:7]))
        traces.append({"s": codes(c["line"]), "tl": tl, "tn": tn, "tv": [k[a] for a in AXES], "ts": [k["hx"], k["hy"], k["hz"]],
                       "err": o["err"], "cl": o.get("cl", -1), "cn": o.get("cn", -1), "vals": o.get("vals", []), "sp": o.get("sp", [])})
    clauses = check.validate("lines", "VLex", traces, cases)
    if any(k.startswith("TOKENIZER") for k in clauses):
        raise MachineryError("the tokenizer of the harness disagrees with Lex.tla: %s %s" % (clauses, check.violations[:3]))


def mutate(r, ls):
    """a program which is the same, or differs somewhere"""
    out = list(ls)
    k = r.random()
    if k < 0.35 and out:
        i = r.choice([0, len(out) - 1, r.randrange(len(out))])
        q = r.random()
        if q < 0.35:
            del out[i]
        elif q < 0.6:
            out.insert(r.choice([0, i, len(out)]), r.choice(["G1 X1", "M107", "G92 E0", "T0"]))
        elif q < 0.8:
            out[i] = out[i].split(";")[0].split("*")[0].rstrip() + " " + r.choice("XYZEFIJ") + r.choice([gen.num(gen.coord(r, 9, 3)), "0", "0.0004", "", "-0"])
        elif q < 0.9:
            parts = out[i].split(" ")
            del parts[r.randrange(len(parts))]
            out[i] = " ".join(parts)
        else:
            j = r.randrange(len(out))
            out[i], out[j] = out[j], out[i]
    elif k < 0.6 and out:
        i = r.randrange(len(out))
        d = r.choice([50, 90, -50, 110, 200, 5000, -110, None])
        parts = out[i].split(" ")
        for j in r.sample(range(1, len(parts)), len(parts) - 1):
            p = parts[j]
            if p[:1].upper() in "XYZEFIJ" and p[1:].replace("-", "").replace(".", "").isdigit():
                from tokens import scaled
                v1 = scaled(p[1:]) or 0
                parts[j] = p[0] + gen.num(-v1 if d is None else v1 + d * (1000 if p[0] in "fF" else 1))
                break
        out[i] = " ".join(parts)
    if r.random() < 0.6:
        for _ in range(r.randint(1, 4)):
            out.insert(r.randint(0, len(out)), r.choice(["; c", "(c)", ";G1 X5", "(a) ; b"]))
        out = [l + (" ;z" if r.random() < 0.1 and ";" not in l else "") for l in out]
        out = [l.replace(" ", "  ") if r.random() < 0.1 else l for l in out]
    return out


def difference(msg, A, B):
    """what a diff says: kind (0 nothing, 1 first difference, 2 and 3 lines remaining in A and B), commands before, commands of A and B
    (counted from 1) whose text is given"""
    if msg is None:
        return {"k": 0, "n": 0, "a": [], "b": []}
    import re
    m = re.match(r"First difference after (\d+) ", msg)
    k = 1 if m else 2 if msg.startswith("Remaining line(s) for self") else 3 if msg.startswith("Remaining line(s) for other") else -1
    text = msg[m.end():] if m else msg

    def named(P, form):
        raws = [l.strip() for l in P if l.strip() and token(l)["c"] != ""]
        return [i + 1 for i, x in enumerate(raws) if form % x in text]
    return {"k": k, "n": int(m.group(1)) if m else 0, "a": named(A, "'%s' vs '" if m else "'%s'"), "b": named(B, "' vs '%s'" if m else "'%s'")}


def c07(check):
    import json
    r = rng("C07")
    x = gen.coord(r, 50, 2)
    texts = ["G1 X" + gen.num(x), "G1 X" + gen.num(x + 90) + " ; near", "G1 X" + gen.num(x + 200), "; c", "G1 Z0.3", "M104 S200", "G1 X%s E1" % gen.num(x)] + \
        ["G1 Z0.3 " + r.choice("XYEFIJ") + "0"] + (["G0 X" + gen.num(x)] if DEEP else [])
    res = check.model("model", "MCEquality", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\nINVARIANT Decides\nINVARIANT Symmetric\nINVARIANT Place\n"
                      "INVARIANT Reflexive\n" % 2, {"ALPHABET": alphabet(check, texts)})
    cases = [{"A": [texts[k - 1] for k in p[0]], "B": [texts[k - 1] for k in p[1]]} for p in (json.loads(s[1:]) for s in res.prints if s.startswith("P"))]
    for k in range(12000 if DEEP else 1200):
        q = r.random()
        A = gen.tracked(r, r.randint(0, 12), noise=0.2) if q < 0.6 else gen.layered(r, layers=r.randint(0, 3))
        if q > 0.8:
            A += r.choice([["; end"], ["M84"], ["", "G1 Z5"]])
        B = mutate(r, A)
        if r.random() < 0.5:
            A, B = B, A
        cases.append({"A": A, "B": B})
    cp = gen.corpora(2000 if DEEP else 150)
    for n1, a in cp:
        for n2, b in cp:
            if n1 <= n2:
                cases.append({"A": a, "B": b})
    check.sample(cases[0])
    check.sample(cases[-100])
    routes("equal", cases)
    for c in cases:
        if r.random() < 0.3:
            c["viaB"] = r.choice(["deferred", "stream", "light"])
        if r.random() < 0.3:
            c["edit"] = r.randint(0, 20)
    obs = drive(check.work, "equal", cases)
    traces = [{"A": [token(l) for l in c["A"] if l.strip()], "B": [token(l) for l in c["B"] if l.strip()], "r": o.get("r", []), "err": o["err"],
               "d": difference(o.get("msg"), c["A"], c["B"])} for c, o in zip(cases, obs)]
    check.validate("pairs", "VEquality", traces, cases)
