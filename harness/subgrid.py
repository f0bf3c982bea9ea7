"""Dumps the sub-grids generated by EDGEpre as records (one JSON object per type and degree).
usage: subgrid.py <type> <degree> <with integration mappings: 0/1> [<file for raw arrays>]"""
import importlib, itertools, json, sys
from fractions import Fraction
import sympy

TYPES = {"line": ("Line", 1), "tria": ("Tria", 2), "quad": ("Quad", 2), "tet": ("Tet", 3), "hex": ("Hex", 3)}


def intOf(x):
    x = sympy.nsimplify(sympy.sympify(x), rational=True)
    # anything else than an integer is represented by an impossible value
    return int(x) if x.is_integer else -99999


def main():
    ty, deg, ints = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    name, dim = TYPES[ty]
    G = importlib.import_module("edge_pre.sc.grid." + name)
    E = getattr(importlib.import_module("edge_pre.types." + name), name)(deg)
    n = 2 * deg + 1
    rec = {"ty": ty, "deg": deg, "n": n, "nsf": int(E.n_sfs), "nsc": int(E.n_scs)}
    rec["sv"] = [[intOf(Fraction(c) * n) for c in v] for v in G.svs(deg)]
    inn, send, recv = G.scSv(deg)
    rec["nin"], rec["nsend"] = len(inn), len(send)
    rec["own"] = [list(c) for c in inn + send]
    rec["recv"] = [[v for v in c if v != -1] for c in recv]
    rec["recvraw"] = [list(c) for c in recv]
    own, rcv = rec["own"], rec["recvraw"]
    if ty == "line":
        rec["osf"] = [[[v] for v in c] for c in own]
        rec["rsf"] = [[[v] for v in sorted(c, key=lambda v: v == -1)] for c in rcv]
    else:
        a, b, c = G.scSfSv(deg)
        rec["osf"] = a + b
        # the vertices of the sub-face, the other faces are undefined
        rec["rsf"] = c
    a, b, c = G.scSfSc(deg)
    rec["adj"] = a + b + c
    a, b = G.scTySf(deg)
    rec["tysf"] = a + b
    rec["ad"] = [[0]] if ty == "line" else [list(x) for x in G.scDgAd(deg)]
    # sub-faces at the DG faces in terms of the limits of the surface integrals
    rec["isf"] = []
    if ty != "line":
        sV = list(sympy.symbols("xi_0 xi_1 xi_2"))[:dim]
        sS = list(sympy.symbols("chi_0 chi_1"))[:dim - 1]
        subs, lims = G.intSfDg(deg, sS, sV)
        for fa in range(E.n_fas):
            l = []
            for sf in lims[fa]:
                pts = []
                # the limits are given from the inside to the outside: the last ones are constant
                for out in range(2 ** len(sf)):
                    at = {}
                    for k in reversed(range(len(sf))):
                        at[sf[k][0]] = sympy.sympify(sf[k][1 + (out >> k) % 2]).subs(at)
                    p = [intOf(sympy.sympify(dict(subs[fa])[x]).subs(at) * n) for x in sV]
                    if p not in pts:
                        pts.append(p)
                l.append(pts)
            rec["isf"].append(l)
    # mappings of the reference element to the sub-cells
    rec["img"], rec["rimg"], rec["det"] = [], [], []
    if ints:
        sV = list(sympy.symbols("xi_0 xi_1 xi_2"))[:dim]
        maps, dets = G.intSc(deg, sV)
        at = lambda p: dict(zip(sV, p))
        img = lambda m: [[intOf(sympy.sympify(x).subs(at(v)) * n) for x in m] for v in E.ves]
        rec["img"] = [img(m) for m in maps[0] + maps[1]]
        rec["rimg"] = [[img(m) for m in f] for f in maps[2]]
        # determinants at some points in the element, integrals use them as constants
        pts = list(itertools.product([Fraction(1, 7), Fraction(1, 3)], repeat=dim))
        det = lambda d: [intOf(sympy.sympify(d).subs(at(p)) * n ** dim) for p in pts]
        rec["det"] = [det(d) for d in dets[0] + dets[1]]
        rec["rdet"] = [[det(d) for d in f] for f in dets[2]]
    rec.update({"fasc": [], "fr": [], "fsv": [], "pt": [], "opsbad": 0})
    if len(sys.argv) > 4:
        # arrays as the solver gets them: undefined entries are the largest value
        with open(sys.argv[4], "w") as f:
            us = lambda n, a: f.write("static unsigned short const r_%s[] = {%s};\n" % (n, ",".join(str(65535 if x == -1 else x) for l in a for x in l)))
            us("scsv", rec["own"] + rec["recvraw"])
            us("scsfsc", rec["adj"])
            us("sctysf", rec["tysf"])
            us("scdgad", rec["ad"])
            f.write("static double const r_svcrds[] = {%s};\n" % ",".join(repr(float(x)) for v in G.svs(deg) for x in v))
    print(json.dumps(rec, separators=(",", ":")))


main()
