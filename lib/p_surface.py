"""Properties of the tiled surface."""
import math
from common import *
from gen_surface import *

def surf(checks):
    return "CONSTANT CHECKS = {%s}" % ", ".join('"%s"' % c for c in checks)

def mixed_history(rng, ns=None, sym=0.25, kinds=(0, 0, 1), caps=(-1, 1, 4), spread=500, picks=0.13, ends=0.15, length=(6, 26), slow=0, ts=(0, 1), origin=None):
    """several surfaces, batches of crisp dabs interleaved with picks; pixels are compared after every batch"""
    ns = ns or rng.choice([1, 1, 2, 3])
    L, P, C = [], {}, {}
    for k in range(ns):
        kind = rng.choice(kinds)
        w = h = 0
        if kind == 1: w, h = rng.randrange(1, 260), rng.randrange(1, 260)
        cx, cy = (8 * (w // 2), 8 * (h // 2)) if kind == 1 else (origin or (512 * rng.randrange(-4, 5), 512 * rng.randrange(-4, 5)))
        L.append("new %d %d %d %d %d %d" % (k, kind, w, h, rng.choice(ts), slow))
        P[k] = probes_near(rng, 7, cx, cy, spread + 100); C[k] = (cx, cy)
        L.append("probes %d %s" % (k, flat(P[k])))
        if kind == 1: L.append("clear %d %d %d %d %d" % (k, *pixel(rng)))
        else:
            for p in P[k]:
                if rng.random() < 0.5: L.append("set %d %d %d %d %d %d %d" % (k, *p, *pixel(rng)))
    open_ = {k: False for k in range(ns)}
    for _ in range(rng.randrange(*length)):
        k = rng.randrange(ns); cx, cy = C[k]
        if not open_[k]:
            if rng.random() < sym: L.append(exact_sym(rng, k, cx, cy))
            L.append("begin %d" % k); open_[k] = True
        q = rng.random()
        if q < ends:
            L.append("end %d %d %s" % (k, rng.choice(caps), flat(P[k]))); open_[k] = False
        elif q < ends + picks:
            L.append("pick %d %d %d %d %d" % (k, cx + rng.randrange(-600, 600), cy + rng.randrange(-600, 600), rng.choice([8, 30, 200, 500]), rng.choice([-ONE, 0, ONE])))
        else:
            for _ in range(rng.choice([1, 1, 2, 4])): L.append(crisp(rng, k, cx=cx, cy=cy, spread=spread))
            for _ in range(rng.choice([0, 0, 1, 2])): L.append(vary(rng, L[-1]))
    for k in range(ns):
        if open_[k]: L.append("end %d %d %s" % (k, 1, flat(P[k])))
    for k in range(ns): L.append("peek %d %s" % (k, flat(P[k])))
    return "\n".join(L)

@prop("S01")
def s01(c):
    hs = [mixed_history(c.rng) for _ in range(tier(500, 8000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px"]))

def s02_history(rng):
    ns = rng.choice([1, 1, 2])
    L, P, C = [], {}, {}
    for k in range(ns):
        kind = rng.choice([0, 0, 1]); w = h = 0
        if kind: w, h = 64 * rng.randrange(1, 4), 64 * rng.randrange(1, 4)
        cx, cy = (4 * w, 4 * h) if kind else (512 * rng.randrange(-3, 4), 512 * rng.randrange(-3, 4))
        C[k] = (cx, cy)
        L.append("new %d %d %d %d %d 0" % (k, kind, w, h, rng.randrange(2)))
        ds = []
        for _ in range(4):
            s = rng.choice([24, 40, 80, 160, 300])
            x, y = (cx + rng.randrange(-500, 500)) // 8, (cy + rng.randrange(-500, 500)) // 8
            if kind:
                if 2 * s + 32 > 8 * min(w, h): s = 80
                m = s // 8 + 3
                x = min(max(x, m), w - m); y = min(max(y, m), h - m)
            ds.append((x, y, s))
        L.append("discs %d %s" % (k, " ".join("%d %d %d" % d for d in ds)))
        P[k] = ds
        ps = [(x, y) for x, y, s in ds]
        L.append("probes %d %s" % (k, flat(ps)))
        v = pixel(rng)
        if kind: L.append("clear %d %d %d %d %d" % (k, *v))
        elif rng.random() < 0.6:
            tx, ty = cx // 512, cy // 512
            for i in range(-3, 3):
                for j in range(-3, 3): L.append("fill %d %d %d %d %d %d %d" % (k, tx + i, ty + j, *v))
    open_ = {k: False for k in range(ns)}
    for _ in range(rng.randrange(8, 24)):
        k = rng.randrange(ns); cx, cy = C[k]
        if not open_[k]:
            if rng.random() < 0.2: L.append(exact_sym(rng, k, cx, cy))
            L.append("begin %d" % k); open_[k] = True
        q = rng.random()
        if q < 0.12:
            L.append("end %d %d %s" % (k, 1, flat([(x, y) for x, y, s in P[k]]))); open_[k] = False
        elif q < 0.5:
            x, y, s = rng.choice(P[k])
            r = rng.choice([0, 4, 8, s - 8, max(8, (s - 8) // 2)])
            if rng.random() < 0.75: L.append("pick %d %d %d %d %d" % (k, 8*x+4, 8*y+4, r, rng.choice([-ONE, -ONE, 0, 0, ONE // 2, ONE])))
            else: L.append("alpha %d %d %d %d" % (k, 8*x+4, 8*y+4, r))
        else:
            x, y, s = rng.choice(P[k])
            L.append(crisp(rng, k, x8=(8*x + rng.randrange(-100, 100)) | 1, y8=(8*y + rng.randrange(-100, 100)) | 1,
                           r8=rng.choice([24, 60, 2 * (s // 2) + 150, 600, 1200])))
    for k in range(ns):
        if open_[k]: L.append("end %d %d %s" % (k, 1, flat([(x, y) for x, y, s in P[k]])))
    return "\n".join(L)

@prop("S02")
def s02(c):
    hs = [s02_history(c.rng) for _ in range(tier(400, 6000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px", "pick"]))

def s03_history(rng):
    L = ["new 0 0 0 0 %d 0" % rng.randrange(2)]
    cx, cy = 8 * 64 * rng.randrange(-3, 4), 8 * 64 * rng.randrange(-3, 4)
    sym = None
    for _ in range(rng.randrange(2, 6)):
        if rng.random() < 0.75:
            sym = vary_sym(rng, sym) if sym and rng.random() < 0.5 else (exact_sym if rng.random() < 0.6 else any_sym)(rng, 0, cx, cy)
            L.append(sym)
        L.append("begin 0")
        for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
            L.append(crisp(rng, 0, cx=cx, cy=cy, spread=600) if rng.random() < 0.5 else anydab(rng, 0, cx, cy, 600))
            if rng.random() < 0.3: L.append(vary(rng, L[-1]))
            if rng.random() < 0.15: L.append("pick 0 %d %d %d %d" % (cx + rng.randrange(-400, 400), cy, rng.choice([8, 100]), -ONE))
        L.append("end 0 %d" % rng.choice([1, 1, 2, 3, 4, 8, 20, 60, 200, -1]))
    return "\n".join(L)

@prop("S03")
def s03(c):
    hs = [s03_history(c.rng) for _ in range(tier(400, 5000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["rects"]))

@prop("S04")
def s04(c):
    hs = []
    for i in range(tier(300, 4000)):
        q = i % 3
        if q == 0: hs.append(mixed_history(c.rng, kinds=(0,), picks=0.25))
        elif q == 1: hs.append(s03_history(c.rng))
        else: hs.append(s08_history(c.rng))
    c.conform("drv_surface", hs, "TraceSurface", surf(["rq"]))

def s05_history(rng):
    """tiles anywhere, map growth, and tiles that become dirty again after a pick"""
    L = ["new 0 0 0 0 0 0"]
    spots = []
    for _ in range(rng.randrange(2, 6)):
        m = rng.choice([9, 10, 11, 19, 20, 21, 39, 41, 90])
        spots.append((rng.choice([-m, m - 1, -m - 1, m, rng.randrange(-m, m)]), rng.choice([-m, m - 1, -m - 1, m, rng.randrange(-m, m)])))
    P = []
    for tx, ty in spots:
        P += [(64 * tx + rng.choice([0, 63, rng.randrange(64)]), 64 * ty + rng.choice([0, 63, rng.randrange(64)])) for _ in range(2)]
    P = list(dict.fromkeys(P))
    L.append("probes 0 %s" % flat(P))
    L.append("begin 0")
    for _ in range(rng.randrange(6, 22)):
        x, y = rng.choice(P)
        q = rng.random()
        if q < 0.7: L.append(crisp(rng, 0, x8=(8*x + rng.randrange(-80, 80)) | 1, y8=(8*y + rng.randrange(-80, 80)) | 1, r8=rng.choice([24, 60, 120, 600]), modes=False))
        elif q < 0.85: L.append("pick 0 %d %d %d %d" % (8*x+4, 8*y+4, rng.choice([8, 200]), -ONE))
        else: L += ["end 0 1 " + flat(P), "begin 0"]
    L.append("end 0 1 " + flat(P))
    return "\n".join(L)

def s05_full(rng):
    """every tile of the map dirty, some processed early, then painted again"""
    L = ["new 0 0 0 0 0 0"]
    P = [(64 * rng.randrange(-10, 10) + rng.randrange(64), 64 * rng.randrange(-10, 10) + rng.randrange(64)) for _ in range(8)]
    P = list(dict.fromkeys(P))
    L += ["probes 0 " + flat(P), "begin 0"]
    x8, y8 = 2 * rng.randrange(-20, 20) + 1, 2 * rng.randrange(-20, 20) + 1
    L.append(crisp(rng, 0, x8=x8, y8=y8, r8=8 * 600 + 2 * rng.randrange(0, 100), modes=False, asp=16))
    for _ in range(rng.randrange(1, 5)):
        x, y = rng.choice(P)
        L.append("pick 0 %d %d %d %d" % (8*x+4, 8*y+4, rng.choice([8, 400, 1500]), -ONE))
        for _ in range(rng.randrange(1, 4)):
            x, y = rng.choice(P)
            L.append(crisp(rng, 0, x8=(8*x + rng.randrange(-80, 80)) | 1, y8=(8*y + rng.randrange(-80, 80)) | 1, r8=rng.choice([24, 300, 4800]), modes=False, asp=16))
    L.append("end 0 1 " + flat(P))
    return "\n".join(L)

@prop("S05")
def s05(c):
    hs = [s05_history(c.rng) for _ in range(tier(260, 3000))] + [s05_full(c.rng) for _ in range(tier(24, 200))]
    c.rng.shuffle(hs)
    c.conform("drv_surface", hs, "TraceSurface", surf(["px"]))

@prop("S06")
def s06(c):
    hs = [mixed_history(c.rng, kinds=(0,), ts=(1,), slow=1, spread=1200, length=(4, 12), origin=(0, 0)) for _ in range(tier(120, 1500))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px", "rq"]), variant="omp", retries=4, env={"OMP_NUM_THREADS": "6"})

def s07_history(rng):
    w, h = rng.choice([1, 63, 64, 65, 128, rng.randrange(1, 300)]), rng.choice([1, 63, 64, 65, 128, rng.randrange(1, 300)])
    L = ["new 0 1 %d %d %d 0" % (w, h, rng.randrange(2))]
    P = []
    for _ in range(12):
        x = rng.choice([-1, 0, w - 1, w, -64, -65, (w + 63) // 64 * 64, (w + 63) // 64 * 64 - 1, rng.randrange(-150, w + 150)])
        y = rng.choice([-1, 0, h - 1, h, -64, -65, (h + 63) // 64 * 64, (h + 63) // 64 * 64 - 1, rng.randrange(-150, h + 150)])
        if (x, y) not in P: P.append((x, y))
    L += ["probes 0 " + flat(P), "clear 0 %d %d %d %d" % pixel(rng)]
    for _ in range(rng.randrange(2, 6)):
        if rng.random() < 0.3: L.append(exact_sym(rng, 0, 4 * w & ~7, 4 * h & ~7))
        L.append("begin 0")
        for _ in range(rng.randrange(1, 6)):
            x, y = rng.choice(P)
            L.append(crisp(rng, 0, x8=(8*x + rng.randrange(-200, 200)) | 1, y8=(8*y + rng.randrange(-200, 200)) | 1))
            if rng.random() < 0.3:
                x, y = rng.choice(P); L.append("pick 0 %d %d %d %d" % (8*x+4, 8*y+4, rng.choice([8, 200, 900]), rng.choice([-ONE, 0])))
        L.append("end 0 %d %s" % (rng.choice([1, 3]), flat(P)))
    L.append("peek 0 " + flat(P))
    return "\n".join(L)

@prop("S07")
def s07(c):
    hs = [s07_history(c.rng) for _ in range(tier(300, 4000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px"]), variant="asan")

def s08_history(rng):
    L = ["new 0 0 0 0 %d 0" % rng.randrange(2)]
    P = probes_near(rng, 8, 0, 0, 900)
    L.append("probes 0 " + flat(P))
    for p in P:
        if rng.random() < 0.4: L.append("set 0 %d %d %d %d %d %d" % (*p, *pixel(rng)))
    T = [(tx, ty) for tx in range(-2, 2) for ty in range(-2, 2)]
    opened = False
    for _ in range(rng.randrange(6, 24)):
        q = rng.random()
        if q < 0.25:
            t = rng.choice(T) if rng.random() < 0.5 else (lambda p: (p[0] // 64, p[1] // 64))(rng.choice(P))
            L.append("fail 0 %d %d %d" % (*t, rng.choice([0, 1, 1, 2, 3])))
        elif not opened: L.append("begin 0"); opened = True
        elif q < 0.45: L.append("pick 0 %d %d %d %d" % (rng.randrange(-700, 700), rng.randrange(-700, 700), rng.choice([8, 100, 500]), rng.choice([-ONE, 0, ONE])))
        elif q < 0.6: L.append("end 0 1 " + flat(P)); opened = False
        else: L.append(crisp(rng, 0, spread=700))
    if opened: L.append("end 0 1 " + flat(P))
    for t in T: L.append("fail 0 %d %d 0" % t)
    # afterwards everything works again, and nothing of the refused painting comes back
    L += ["begin 0", crisp(rng, 0, spread=700), crisp(rng, 0, spread=700), "end 0 1 " + flat(P)]
    return "\n".join(L)

def s08_discs(rng):
    """a pick on an area of which some tiles cannot be read"""
    L = ["new 0 0 0 0 0 0", "discs 0 0 0 400"]
    v = pixel(rng)
    for tx in range(-1, 1):
        for ty in range(-1, 1): L.append("fill 0 %d %d %d %d %d %d" % (tx, ty, *v))
    for tx in range(-1, 1):
        for ty in range(-1, 1):
            if rng.random() < 0.5: L.append("fail 0 %d %d %d" % (tx, ty, rng.choice([1, 2, 3])))
    L.append("pick 0 4 4 %d %d" % (rng.choice([8, 100, 390]), rng.choice([-ONE, 0])))
    L.append("alpha 0 4 4 %d" % rng.choice([8, 390]))
    return "\n".join(L)

@prop("S08", "fault_enumeration")
def s08(c):
    hs = [s08_history(c.rng) for _ in range(tier(300, 4000))] + [s08_discs(c.rng) for _ in range(tier(60, 300))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px", "rq", "pick"]))

def p02_history(rng, pigment=False):
    """a sheet of arbitrary pixels under a few large dabs"""
    L = ["new 0 0 0 0 0 0"]
    P = [(x, y) for x in range(8) for y in range(5)]
    L.append("probes 0 " + flat(P))
    for p in P: L.append("set 0 %d %d %d %d %d %d" % (*p, *pixel(rng)))
    for _ in range(rng.randrange(1, 4)):
        L.append("begin 0")
        for _ in range(rng.choice([1, 1, 2])):
            L.append(crisp(rng, 0, x8=33, y8=17, r8=200, asp=16))
        L.append("end 0 1 " + flat(P))
    return "\n".join(L)

@prop("P02")
def p02(c):
    hs = [p02_history(c.rng) for _ in range(tier(500, 8000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px"]))

def p01_history(rng):
    L = ["new 0 0 0 0 0 0"]
    for x in range(-20, 20):
        for y in range(-2, 3): L.append("set 0 %d %d %d %d %d %d" % (x, y, *pixel(rng)))
    for _ in range(rng.randrange(1, 5)):
        if rng.random() < 0.2: L.append(any_sym(rng, 0, 0, 0))
        L.append("begin 0")
        for _ in range(rng.randrange(1, 7)): L.append(anydab(rng, 0, 0, 0, 200))
        L.append("end 0 1")
    return "\n".join(L)

@prop("P01")
def p01(c):
    hs = [p01_history(c.rng) for _ in range(tier(300, 5000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["inv"]))

def y01_history(rng):
    cx, cy = rng.randrange(-800, 800), rng.randrange(-800, 800)
    L = ["new 0 0 0 0 0 0"]
    t = rng.randrange(5)
    n = rng.choice([0, 2, 3, 4, 5, 6, 7, 8, 12, 20, 37]) if t == 3 else rng.choice([1, 2, 3, 4, 5, 6, 8, 13, 18]) if t == 4 else rng.randrange(0, 9)
    ang8 = rng.choice([0, 240, 360, 720, rng.randrange(-2880, 2880)])
    n = max(n, 2)
    dabs, P = [], []
    for _ in range(rng.randrange(1, 4)):
        d = crisp(rng, 0, cx=cx, cy=cy, spread=600, r8=rng.choice([40, 64, 100]), modes=False, asp=rng.choice([16, 16, 48]))
        f = d.split(); f[13] = str(rng.choice([0, 240, 500, -1000])) if f[12] != "16" else "0"
        dabs.append(" ".join(f))
        x, y = int(f[2]) - cx, int(f[3]) - cy
        a = math.radians(ang8 / 8)
        imgs = [(x, y)]
        mir = lambda m: (x*math.cos(2*m) + y*math.sin(2*m), x*math.sin(2*m) - y*math.cos(2*m))
        rot = lambda m: (x*math.cos(m) - y*math.sin(m), x*math.sin(m) + y*math.cos(m))
        if t in (0, 2): imgs.append(mir(math.pi/2 - a))
        if t in (1, 2): imgs.append(mir(-a))
        if t == 2: imgs.append((-x, -y))
        if t >= 3: imgs += [rot(-2*math.pi*i/n) for i in range(1, n)]
        if t == 4: imgs += [mir(-a - math.pi*i/n) for i in range(n)]
        rng.shuffle(imgs)
        for px, py in imgs[:6]:
            for _ in range(2):
                P.append((int((px + cx) // 8) + rng.randrange(-7, 8), int((py + cy) // 8) + rng.randrange(-7, 8)))
    for m in (mir, rot):      # and where a wrong direction or axis would put it
        px, py = m(rng.uniform(-7, 7)); P.append((int((px + cx) // 8), int((py + cy) // 8)))
    P = list(dict.fromkeys(P))
    L.append("probes 0 " + flat(P))
    L.append("sym 0 1 %d %d %d %d %d" % (cx, cy, ang8, t, n))
    L.append("begin 0")
    L += dabs
    L.append("end 0 1 " + flat(P))
    if rng.random() < 0.4:
        L += ["sym 0 0 %d %d %d %d %d" % (cx, cy, ang8, t, n), "begin 0", rng.choice(dabs), "end 0 1 " + flat(P)]
    return "\n".join(L)

@prop("Y01")
def y01(c):
    hs = [y01_history(c.rng) for _ in range(tier(500, 8000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px"]))

def y02_history(rng):
    """symmetry changed at any moment"""
    cx = cy = 0
    P = probes_near(rng, 10, 0, 0, 500)
    L = ["new 0 0 0 0 0 0", "probes 0 " + flat(P)]
    def on(): return exact_sym(rng, 0, 0, 0).split()
    s = on(); s[2] = "1"
    L.append(" ".join(s))
    for _ in range(rng.randrange(2, 6)):
        L.append("begin 0")
        for _ in range(rng.randrange(1, 5)):
            q = rng.random()
            if q < 0.35:
                s = on() if rng.random() < 0.5 else vary_sym(rng, " ".join(s)).split(); s[2] = "1"; L.append(" ".join(s))
            elif q < 0.5: L.append("pick 0 %d %d %d %d" % (rng.randrange(-300, 300), rng.randrange(-300, 300), 100, -ONE))
            else: L.append(crisp(rng, 0, spread=400, modes=False))
        L.append("end 0 1 " + flat(P))
        if rng.random() < 0.5:
            s = on() if rng.random() < 0.4 else vary_sym(rng, " ".join(s)).split(); L.append(" ".join(s))
            if s[2] == "0" and rng.random() < 0.5: s[2] = "1"; L.append(" ".join(s))
    return "\n".join(L)

@prop("Y02")
def y02(c):
    hs = [y02_history(c.rng) for _ in range(tier(400, 5000))]
    c.conform("drv_surface", hs, "TraceSurface", surf(["px", "rects"]))
