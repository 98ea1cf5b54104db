"""Random call histories for harness/drv_surface.c (lengths in 1/8 px)."""
ONE = 32768

def col(rng):
    return rng.choice([0, ONE, rng.randrange(ONE + 1), rng.randrange(0, ONE + 1, 1024)])

def crisp(rng, k, x8=None, y8=None, r8=None, cx=0, cy=0, spread=800, ca=None, modes=True, op=None, asp=None):
    """a dab whose effect the specification predicts exactly (hard edge, no pigment)"""
    if x8 is None:
        x8 = cx + (rng.randrange(-spread, spread) | 1); y8 = cy + (rng.randrange(-spread, spread) | 1)
    if r8 is None:
        r8 = rng.choice([24, 26, 40, 64, 100, 200, 2 * rng.randrange(12, 160)])
    if ca is None:
        ca = rng.choice([ONE, ONE, ONE, 0, rng.randrange(ONE + 1)])
    if op is None:
        op = rng.choice([ONE, ONE // 2, rng.randrange(1, ONE + 1)])
    soft = rng.choice([0, 0, rng.randrange(0, ONE, 256)])
    la = co = po = 0
    if modes and rng.random() < 0.4:
        la, co, po = [rng.choice([0, 0, 8192, 16384, ONE]) for _ in range(3)]
    if asp is None:
        asp = rng.choice([16, 16, 16, 32, 48])
    ang = rng.choice([0, 720, 1440, -720]) if asp != 16 else 0
    return "dab %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d 0" % (
        k, x8, y8, r8, col(rng), col(rng), col(rng), ca, op, ONE, soft, asp, ang, la, co, po, rng.choice([1, 2, 5, 16, 128]))

def anydab(rng, k, cx=0, cy=0, spread=800):
    """anything at all"""
    u = lambda: rng.choice([0, ONE, rng.randrange(ONE + 1)])
    r8 = rng.choice([0, 1, 4, 8, 10, 16, 23, 24, 30, 80, 300, rng.randrange(1, 500)])
    return "dab %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d %d" % (
        k, cx + rng.randrange(-spread, spread), cy + rng.randrange(-spread, spread), r8, u(), u(), u(),
        rng.choice([ONE, ONE, 0, u()]), u() or ONE, u() or ONE, rng.choice([0, 0, u()]), rng.choice([8, 16, 16, 40, 100, 160]),
        rng.randrange(-3000, 3000), rng.choice([0, u()]), rng.choice([0, 0, u()]), rng.choice([0, 0, u()]),
        rng.randrange(0, 140), rng.choice([0, 0, ONE, u()]))

def pixel(rng):
    a = rng.choice([ONE, ONE, 0, 1, 2, ONE - 1, rng.randrange(ONE + 1), rng.randrange(ONE + 1), 2 ** rng.randrange(16)])
    c = lambda: rng.choice([0, a, a, a and a - 1, rng.randrange(a + 1), rng.randrange(a + 1)])
    return c(), c(), c(), a

def exact_sym(rng, k, cx, cy):
    """a symmetry whose copies land exactly"""
    t = rng.randrange(5)
    if t < 3: ang, n = rng.choice([0, 0, 720, 1440, -720, 360 if t == 2 and False else 0]), rng.randrange(0, 6)
    elif t == 3: ang, n = rng.randrange(0, 2880), rng.choice([2, 4])
    else: ang, n = rng.choice([0, 720]), 2
    c = lambda v: v + 8 * rng.randrange(-30, 30)
    return "sym %d %d %d %d %d %d %d" % (k, rng.random() < 0.85, c(cx), c(cy), ang, t, n)

def any_sym(rng, k, cx, cy):
    t = rng.randrange(5)
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 17]) if t < 4 else rng.choice([1, 2, 3, 4, 5, 6, 9])
    return "sym %d %d %d %d %d %d %d" % (k, rng.random() < 0.9, cx + rng.randrange(-300, 300), cy + rng.randrange(-300, 300),
                                         rng.choice([0, 240, 360, rng.randrange(-2880, 2880)]), t, n)

def probes_near(rng, n, cx, cy, spread=700):
    """pixels around the centre, many of them along tile borders"""
    out = []
    for _ in range(n):
        x = (cx + rng.randrange(-spread, spread)) // 8; y = (cy + rng.randrange(-spread, spread)) // 8
        if rng.random() < 0.5: x = (x // 64) * 64 + rng.choice([0, 63, -1])
        if rng.random() < 0.5: y = (y // 64) * 64 + rng.choice([0, 63, -1])
        if (x, y) not in out: out.append((x, y))
    return out

def flat(ps):
    return " ".join("%d %d" % p for p in ps)

def vary(rng, line):
    """the same dab, but for one of its parameters"""
    f = line.split()
    i = rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 13, 13, 14, 15, 16])
    if i in (2, 3): f[i] = str(int(f[i]) + 2 * rng.randrange(-30, 31))
    elif i == 4: f[4] = str(max(24, int(f[4]) + 2 * rng.randrange(-10, 11)))
    elif i in (5, 6, 7): f[i] = str(col(rng))
    elif i in (8, 9): f[i] = str(rng.randrange(1, ONE + 1))
    elif i == 11: f[11] = str(rng.choice([0, rng.randrange(0, ONE, 256)]))
    elif i == 12: f[12] = str(rng.choice([16, 32, 48]))
    elif i == 13:
        if f[12] != "16": f[13] = str(rng.choice([0, 720, 1440, -720]))
    elif i < 17: f[i] = str(rng.choice([0, 8192, ONE]))
    return " ".join(f)

def vary_sym(rng, line):
    """the same symmetry, but for one of its parameters"""
    f = line.split()
    i = rng.choice([3, 4, 5, 6, 7, 7])
    if i < 5: f[i] = str(int(f[i]) + 8 * rng.randrange(-12, 13))
    elif i == 5: f[i] = str(int(f[i]) + rng.choice([720, -720, 1440]))
    elif i == 6: f[i] = str(rng.randrange(5))
    else: f[i] = str(rng.choice([2, 3, 4, 5, 6]))
    return " ".join(f)
