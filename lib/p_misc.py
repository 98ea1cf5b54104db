"""Plain functions: mappings, rectangles, transforms, colour models."""
import math
from common import *
def g(v): return repr(float("%.7g" % v))

def mapping_history(rng):
    L = []; n = rng.choice([1, 1, 2, 3, 18]); L.append("mnew 0 %d" % n)
    if rng.random() < 0.8: L.append("mbase 0 %s" % g(rng.choice([0, rng.uniform(-5, 5), 1000])))
    P = {}
    for _ in range(rng.randrange(6, 24)):
        q = rng.random(); i = rng.randrange(n)
        if q < 0.3:
            m = rng.choice([0, 2, 2, 3, 4, 8, 64])
            s = rng.choice([1, 1, 10, 100])
            grid = rng.random() < 0.4
            xs = sorted((rng.randrange(-8, 9) / 4 * s if grid else rng.uniform(-2, 2) * s) for _ in range(m))
            if m > 2 and rng.random() < 0.4: j = rng.randrange(m - 1); xs[j + 1] = xs[j]; xs.sort()
            ys = [rng.choice([0, 1, -1, rng.uniform(-2, 2), 100]) for _ in xs]
            P[i] = list(zip(xs, ys))
            L.append("mset 0 %d %s" % (i, " ".join("%s %s" % (g(x), g(y)) for x, y in P[i])))
        elif q < 0.35 and len(P.get(i, [])) > 2:
            m = rng.choice([0, 2, 2, len(P[i]) - 1]); 
            if m == 1: m = 2
            P[i] = P[i][:m]; L.append("mcut 0 %d %d" % (i, m))
        elif q < 0.42: L.append("mget 0")
        elif q < 0.46: L.append("mbase 0 %s" % g(rng.uniform(-5, 5)))
        else:
            v = []
            for j in range(n):
                ps = P.get(j, [])
                v.append(rng.choice([rng.choice(ps)[0], rng.uniform(-3, 3), math.nextafter(rng.choice(ps)[0], rng.choice([-9, 9])), 1e4 * rng.gauss(0, 1), rng.uniform(ps[0][0], ps[-1][0])]) if ps else rng.uniform(-1e3, 1e3))
            L.append("mcalc 0 %s%s" % (" ".join(g(x) for x in v), " 1" if n == 1 and rng.random() < 0.5 else ""))
    return "\n".join(L + ["mget 0"])

@prop("B01")
def b01(c):
    c.conform("drv_misc", [mapping_history(c.rng) for _ in range(tier(9000, 60000))], "TraceMisc")

def rect_history(rng):
    def v(): return rng.choice([0, 1, -1, rng.randrange(-6, 7), rng.randrange(-6, 7), rng.randrange(-10**8, 10**8)])
    L = []; full = set()
    for _ in range(rng.randrange(6, 30)):
        k = rng.randrange(4); q = rng.random()
        if q < 0.2:
            w = rng.choice([0, 1, 2, 5, 64, rng.randrange(1, 10**6)]); h = w and rng.choice([1, 2, 7, 64])
            L.append("rset %d %d %d %d %d" % (k, v(), v(), w, h)); (full.add if w else full.discard)(k)
        elif q < 0.6 or not full: L.append("rpt %d %d %d" % (k, v(), v())); full.add(k)
        elif q < 0.9: L.append("rrect %d %d" % (k, rng.choice(sorted(full)))); full.add(k)
        else:
            j = rng.randrange(4); L.append("rcopy %d %d" % (k, j)); (full.add if j in full else full.discard)(k)
    return "\n".join(L)
def transform_history(rng):
    L = []
    def a(): return g(rng.choice([0, math.pi / 2, math.pi, -math.pi / 2, math.pi / 4, rng.uniform(-7, 7), rng.uniform(-7, 7)]))
    def p(): return g(rng.choice([0, 1, rng.uniform(-10, 10), rng.uniform(-1000, 1000)]))
    for _ in range(rng.randrange(6, 24)):
        k = rng.randrange(4); q = rng.random()
        if q < 0.1: L.append("tunit %d" % k)
        elif q < 0.2: L.append("tset %d %s" % (k, " ".join(g(rng.uniform(-2, 2)) for _ in range(9))))
        elif q < 0.32: L.append("tcw %d %s" % (k, a()))
        elif q < 0.44: L.append("tccw %d %s" % (k, a()))
        elif q < 0.56: L.append("trefl %d %s" % (k, a()))
        elif q < 0.68: L.append("tmove %d %s %s" % (k, p(), p()))
        else: L.append("tpt %d %s %s" % (k, p(), p()))
    return "\n".join(L)
@prop("R01")
def r01(c):
    c.conform("drv_misc", [rect_history(c.rng) for _ in range(tier(9000, 60000))], "TraceMisc")
@prop("T01")
def t01(c):
    c.conform("drv_misc", [transform_history(c.rng) for _ in range(tier(9000, 60000))], "TraceMisc")

def colour_history(rng):
    L = []
    def u(): return rng.choice([0, 1, rng.random(), rng.random(), rng.random(), 0.5])
    def rgb():
        q = rng.random()
        if q < 0.2: v = u(); return [v, v, v]
        if q < 0.3: v = rng.random(); return [v, v, min(1, v + rng.choice([1e-5, 2e-4, 1e-3]))]
        if q < 0.4: v = u(); w = u(); return rng.choice([[v, v, w], [v, w, v], [w, v, v]])
        if q < 0.45: return [rng.uniform(-1, 2) for _ in "rgb"]
        return [u(), u(), u()]
    for _ in range(40):
        q = rng.random()
        if q < 0.4: L.append("%s 0 %s" % (rng.choice(["c_rgbhsv", "c_rgbhsl", "c_hsvback", "c_hslback"]), " ".join(map(g, rgb()))))
        elif q < 0.65: L.append("%s 0 %s %s %s" % (rng.choice(["c_hsvrgb", "c_hslrgb"]), g(rng.choice([0, 1, rng.randrange(7) / 6, rng.random(), rng.uniform(-3, 3)])), g(rng.choice([u(), rng.uniform(-1, 2)])), g(rng.choice([u(), rng.uniform(-1, 2)]))))
        elif q < 0.75: L.append("c_spec 0 %s %s %s" % (g(u()), g(u()), g(u())))
        elif q < 0.9: L.append("c_mix 0 %s %s %s" % (" ".join(g(u()) for _ in range(8)), g(u()), g(rng.choice([0, 1, u(), -1, 1.5]))))
        elif q < 0.95: L.append("angdiff 0 %s %s" % (g(rng.choice([0, 180, rng.uniform(-1000, 1000)])), g(rng.choice([0, 180, -180, rng.uniform(-1000, 1000)]))))
        else: L.append("mod 0 %s %s" % (g(rng.choice([0, 360, -360, rng.uniform(-2000, 2000)])), g(rng.choice([360, 180, 1, 2.5]))))
    return "\n".join(L)
@prop("C01")
def c01(c):
    c.conform("drv_misc", [colour_history(c.rng) for _ in range(tier(4000, 40000))], "TraceMisc")
