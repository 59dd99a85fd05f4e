#!/usr/bin/env python3
"""Freezes the published series and tables, as transcribed in the reviewed tree, into spec/data/*.tbl.

Run once, by hand, on the reviewed commit; no check runs it.  The specification reads only the frozen tables.
"""
import re, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
OUT = "/verif/spec/data"


def src(f):
    t = open(f"{SRC}/{f}.cc").read()
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    return re.sub(r"//[^\n]*", "", t)


def array(t, name):
    """numbers of the initializer of `name`"""
    m = re.search(r"\b" + name + r"\b[^=;]*=\s*(\{.*?\});", t, flags=re.S)
    return m.group(1)


def rows(t, name):
    body = array(t, name)
    return [[x.strip() for x in r.split(",") if x.strip()] for r in re.findall(r"\{([^{}]*)\}", body)]


def emit(name, head, rs):
    with open(f"{OUT}/{name}.tbl", "w") as f:
        f.write("# " + head + "\n")
        for r in rs:
            f.write(" ".join(str(x) for x in r) + "\n")
    print(name, len(rs))


def nutc():
    t = src("nutc")
    a, b, c = (rows(t, n) for n in ("fa_coef", "l_psi", "o_eps"))
    assert len(a) == len(b) == len(c) == 194
    emit("nutc", "Shirai & Fukushima 2001: multiples of l l' F D Om Ve Ma Ju Sa; psi cos sin cos*t sin*t; eps cos sin cos*t sin*t",
         [x + [repr(float(v)) for v in y + z] for x, y, z in zip(a, b, c)])


def nutc80():
    t = src("nutc80")
    body = t[t.index("double de = 0.0;"):t.index("psi = dp")]
    V = dict(el=(1, 0, 0, 0, 0), el2=(2, 0, 0, 0, 0), el3=(3, 0, 0, 0, 0), elp=(0, 1, 0, 0, 0), elp2=(0, 2, 0, 0, 0), f2=(0, 0, 2, 0, 0),
             f4=(0, 0, 4, 0, 0), d=(0, 0, 0, 1, 0), d2=(0, 0, 0, 2, 0), d4=(0, 0, 0, 4, 0), om=(0, 0, 0, 0, 1), om2=(0, 0, 0, 0, 2))

    def angle(e):
        v = [0] * 5
        for s, n in re.findall(r"([+-]?)\s*([a-z]\w*)", e):
            for i in range(5):
                v[i] += (-1 if s == "-" else 1) * V[n][i]
        return tuple(v)

    out, cur = {}, None
    for st in body.split(";")[1:]:
        st = " ".join(st.split())
        if not st:
            continue
        m = re.match(r"(?:double )?angle = (.*)", st)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r"d([pe]) = d[pe] ([+-]) (?:(.*?) \* )?std::(sin|cos)\((.*)\)$", st)
        w, sg, co, fn, ar = m.groups()
        assert (w == "p") == (fn == "sin"), st
        k = angle(cur if ar == "angle" else ar)
        c0 = c1 = 0.0
        if co is None:
            c0 = 1.0
        elif "centuries" in co:
            q = re.match(r"\((-?[\d.]+) ([+-]) ([\d.]+) \* centuries\)", co)
            c0 = float(q.group(1)); c1 = float(q.group(3)) * (-1 if q.group(2) == "-" else 1)
        else:
            c0 = float(co)
        if sg == "-":
            c0, c1 = -c0, -c1
        r = out.setdefault(k, [0.0] * 4)
        j = 0 if w == "p" else 2
        assert r[j] == 0.0, st
        r[j], r[j + 1] = c0, c1
    assert len(out) == 106, len(out)
    emit("nutc80", "IAU 1980: multiples of l l' F D Om; psi sin, per century; eps cos, per century (0.0001 arcsec)",
         [list(k) + v for k, v in out.items()])


def rcc():
    a = rows(src("rcc"), "fb_coeffs")
    assert len(a) == 787
    pw = lambda i: 0 if i < 474 else 1 if i < 679 else 2 if i < 764 else 3 if i < 784 else 4
    emit("rcc", "Fairhead & Bretagnon 1990: amplitude (s), frequency (rad/millennium), phase, power of t",
         [[repr(float(x)) for x in r] + [pw(i)] for i, r in enumerate(a)])


def num(x):
    return repr(float(x.rstrip("fF")))


def epv():
    t = src("epv")
    out = []
    used = {n: [int(re.search(r"\bN%s%s\s*=\s*(\d+)" % (n, c), t).group(1)) for c in "XYZ"] for n in ("E0", "E1", "E2", "S0", "S1", "S2")}
    for name, ns in used.items():
        body = array(t, name)
        comps = re.findall(r"\{((?:\s*\{[^{}]*\}\s*,?)+)\s*\}", body)
        assert len(comps) == 3, (name, len(comps))
        for j, (c, n) in enumerate(zip(comps, ns)):
            rs = [[num(x.strip()) for x in r.split(",")] for r in re.findall(r"\{([^{}]*)\}", c)]
            assert len(rs) == n, (name, j, len(rs), n)
            out += [["'" + name[0], name[1], j + 1] + r for r in rs]
    emit("epv", "VSOP2000 simplified: body (E Sun to Earth, S barycentre to Sun), power of t, component, amplitude, phase, frequency (per year)", out)


def evp():
    t = src("evp")
    out = []
    for n in ("DCFEL", "CCSEL", "DCARGS", "CCAMPS", "CCSEC", "DCARGM", "CCAMPM"):
        out += [["'" + n.lower()] + [num(x) for x in r] for r in rows(t, n)]
    for n in ("DCEPS", "CCPAMV", "CCPAM"):
        out += [["'" + n.lower(), num(x)] for x in re.sub(r"[{}\s]", "", array(t, n)).split(",")]
    emit("evp", "Stumpff 1980: constants by name", out)


def moons():
    for f, d in (("dmoon", 5), ("moon", 4)):
        t = src(f)
        out = []
        for q in "LBP":
            m = re.search(r"\bT%s\[[^=;{]*(?:=\s*)?\{(.*?)\};" % q, t, flags=re.S)
            co = [num(x.strip()) for x in m.group(1).split(",")]
            it = rows(t, "IT" + q)
            assert len(co) == len(it)
            out += [["'" + q, c] + [int(x) for x in r] for c, r in zip(co, it)]
        emit(f, "Meeus 1984: longitude, latitude or parallax; coefficient (deg); multiples of M M' D F" + ("; power of e" if d == 5 else ""), out)


def obs():
    from urllib.parse import quote_plus
    t = src("obs")
    out = re.findall(r'\{"([^"]*)",\s*"([^"]*)",\s*(west|east)\(([^)]*)\),\s*(north|south)\(([^)]*)\),\s*([-\d.]+)\}', t)
    f = lambda g, neg: [-1 if g == neg else 1]
    d = lambda x: [int(x.split(",")[0]), int(x.split(",")[1]), repr(float(x.split(",")[2]))]
    emit("obs", "observatories: identifier, name, sign (west +) deg min sec of longitude, sign (north +) deg min sec of latitude, height (m)",
         [["'" + quote_plus(i), "'" + quote_plus(n)] + f(a, "east") + d(b) + f(c, "south") + d(e) + [repr(float(h))] for i, n, a, b, c, e, h in out])


if __name__ == "__main__":
    obs()
    epv()
    evp()
    moons()
    rcc()
    nutc()
    nutc80()
