"""Properties of the brush engine."""
import math
from common import *

@prop("B12")
def b12(c):
    hs = []
    for _ in range(tier(60, 600)):
        r = c.rng
        L = ["new 0 %d" % r.choice([0, 1, 1000, 2**30 - 1, r.randrange(2**30)])]
        for _ in range(r.randrange(30, 120)):
            L.append(r.choice(["next 0", "next 0", "next 0", "next 0", "gauss 0"]))
            if r.random() < 0.03: L.append("seed 0 %d" % r.randrange(2**30))
            if r.random() < 0.03: L.append("new 1 %d" % r.randrange(2**30))
            if r.random() < 0.2 and any(l.startswith("new 1") for l in L): L.append("next 1")
        hs.append("\n".join(L))
    c.conform("drv_rng", hs, "TraceRng")

# ---- the engine: histories of brushes and pen motions -------------------------------
from gen_brush import *
def judge(*checks): return "CONSTANT CHECKS = {%s}" % ", ".join('"%s"' % x for x in checks)
FEATURES = dict(p=probe_inputs, g=gammas, f=filters, t=tracking, o=offsets, s=sizes, q=opacity, c=colours)

def engine(rng, feats, n=20, nb=None, lin=None, radius=None, dabs=None, pen=None, probes=None, mid=0.05, cv=0.1):
    """one brush with the features named, and a pen motion of n events"""
    if nb is None: nb = rng.choice([0, 0, 3]) if "m" in feats else 0
    L = ["new 0 %d" % nb] + simple(rng, radius=radius, dabs=dabs) + [canvas(rng, 0)]
    for x in feats:
        if x == "m": L += smudges(rng, 0, nb)
        elif x == "p" and probes: L += probe_inputs(rng, 0, probes)
        else: L += FEATURES[x](rng, 0)
    return "\n".join(L + strokes(rng, 0, n, lin=rng.choice([0, 0, 0, 1]) if lin is None else lin, pen=pen, mid=mid, cv=cv))

def some(rng, must, may, p=0.3):
    return must + "".join(x for x in may if rng.random() < p)

@prop("B06")
def b06(c):
    r = c.rng
    hs = [engine(r, some(r, "", "gftspqo", 0.25), 20) for _ in range(tier(250, 4000))]
    # densities that vary within the event; ellipses; short and long events
    for _ in range(tier(150, 2500)):
        L = ["new 0 0"] + simple(r, radius=r.uniform(-0.5, 2.5), dabs=(r.choice([0, r.uniform(0, 2)]), r.choice([0, r.uniform(0, 1)]), r.choice([0, r.uniform(1, 60)])))
        L += base(0, elliptical_dab_ratio=r.choice([1, 1, r.uniform(1, 6)]), elliptical_dab_angle=r.uniform(-90, 180))
        for s, hi in (("dabs_per_actual_radius", 2), ("dabs_per_basic_radius", 1), ("dabs_per_second", 50), ("radius_logarithmic", 1), ("elliptical_dab_ratio", 4), ("elliptical_dab_angle", 90)):
            if r.random() < 0.3: L.append(mapping(r, 0, s, r.choice(["pressure", "random", "stroke", "speed1", "direction", "custom"]), 0, hi))
        hs.append("\n".join(L + strokes(r, 0, 24, pen=Pen(r, step=r.choice([0.3, 2, 8])))))
    c.conform("drv_brush", hs, "TraceBrush", judge("space"))

@prop("B14")
def b14(c):
    r = c.rng
    hs = [engine(r, some(r, "pf", "gt", 0.5), 16) for _ in range(tier(250, 4000))]
    for i in INPUTS:          # each input alone on four curves
        for _ in range(tier(6, 60)): hs.append(engine(r, some(r, "pf", "gt", 0.5), 12, probes=[i]))
    c.conform("drv_brush", hs, "TraceBrush", judge("filt", "thru"))

@prop("B15")
def b15(c):
    r = c.rng
    hs = [engine(r, some(r, "s", "gtoqf", 0.2), 18, radius=r.choice([None, r.uniform(-2, 6)])) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("size", "dyn"))

@prop("B16")
def b16(c):
    r = c.rng
    hs = [engine(r, some(r, "o", "gtsf", 0.25), 18) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("pos"))

@prop("B17")
def b17(c):
    r = c.rng
    hs = [engine(r, some(r, "t", "gosf", 0.25), 24, mid=0.08) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("track"))

@prop("B18")
def b18(c):
    r = c.rng
    hs = [engine(r, some(r, "q", "sgt", 0.25), 18) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("opac"))

@prop("B13")
def b13(c):
    r = c.rng
    hs = [engine(r, some(r, "c", "sgtm", 0.2), 18, lin=r.choice([0, 1])) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("color"))

@prop("B11")
def b11(c):
    r = c.rng
    hs = [engine(r, some(r, "m", "cgto", 0.2), 16, nb=r.choice([0, 0, 0, 1, 4])) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("smudge", "color"))

def bucket_history(rng):
    nb = rng.choice([0, 1, 2, 4, 6])
    L = ["new 0 %d" % nb] + simple(rng) + smudges(rng, 0, nb) + [canvas(rng, 0)]
    pen = Pen(rng)
    for _ in range(rng.randrange(10, 30)):
        q = rng.random()
        i = rng.choice([-1, 0, nb - 1, nb, nb + 1, -2**31, 2**31 - 1] + list(range(nb)))
        if q < 0.25: L.append("bucket 0 %d %s" % (i, " ".join(f(rng.random()) for _ in range(9))))
        elif q < 0.5: L.append("getbucket 0 %d" % i)
        elif q < 0.55: L.append("resetb 0")
        elif q < 0.6: L += base(0, smudge_bucket=rng.uniform(-2, nb + 2))
        elif q < 0.65: L.append(canvas(rng, 0))
        else: L.append(pen.move(dt=rng.choice([None, None, None, 6])))
    return "\n".join(L)

@prop("B10")
def b10(c):
    hs = [bucket_history(c.rng) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("bucket", "reset"))

def split_history(rng):
    L = ["new 0 0"] + simple(rng, radius=rng.uniform(0, 2)) + [canvas(rng, 0, 1)]
    if rng.random() < 0.3: L += base(0, opaque=rng.choice([0, 1]), dabs_per_second=0)
    pen = Pen(rng, step=rng.choice([0.01, 0.3, 3]))
    for _ in range(rng.randrange(20, 70)):
        q = rng.random()
        if q < 0.03: L.append("stroke 0")
        elif q < 0.05: L.append("resetb 0")
        elif q < 0.12: L.append(canvas(rng, 0))
        elif q < 0.16: L += base(0, opaque=rng.choice([0, 0, 1]))
        else: L.append(pen.move(dt=rng.choice([0.001, 0.05, 0.09, 0.1, 0.11, 0.3, 0.9, 1, 1.2, 2.5, 4.9, 5.1])))
    return "\n".join(L)

@prop("B05")
def b05(c):
    hs = [split_history(c.rng) for _ in range(tier(400, 6000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("split"))

# ---- settings, metadata, loader ------------------------------------------------------
import json as _json
import gen_meta as GM
def register_history(rng):
    L = ["new 0 %d" % rng.choice([0, 2]), "new 1 0"]
    for _ in range(rng.randrange(15, 50)):
        k = rng.randrange(2); s = rng.choice(GM.SETTINGS); i = rng.choice(GM.INPUTS); q = rng.random()
        if rng.random() < 0.5: s = rng.choice(GM.SETTINGS[:4])
        if rng.random() < 0.5: i = rng.choice(GM.INPUTS[:3])
        if q < 0.2: L.append("set %d %s %s" % (k, s, f(rng.choice([0, rng.uniform(-5, 5), 1e6 * rng.random()]))))
        elif q < 0.45:
            n = rng.choice([0, 2, 2, 3, 5, 64]); x = rng.uniform(-5, 5); pts = []
            for _ in range(n): pts += [x, rng.uniform(-3, 3)]; x += rng.choice([0, rng.random(), 10 * rng.random()])
            L.append("map %d %s %s %s" % (k, s, i, " ".join(map(f, pts))))
        elif q < 0.5: L.append("defaults %d" % k)
        elif q < 0.55: L.append("setst %d %s %s" % (k, rng.choice(GM.STATES), f(rng.uniform(-3, 3))))
        elif q < 0.6: L.append(rng.choice(["resetb %d", "stroke %d"]) % k)
        else: L.append("get %d %s%s" % (k, s, rng.choice(["", " " + i, " " + i])))
    for k in (0, 1): L += ["get %d %s pressure" % (k, s) for s in rng.sample(GM.SETTINGS, 12)]
    return "\n".join(L)

@prop("B02")
def b02(c):
    c.conform("drv_brush", [register_history(c.rng) for _ in range(tier(2500, 30000))], "TraceBrush", judge("reg"))

def num(v): return float(f(v))
def document(rng):
    """-> (text, accepted, [(setting, value, [(input, points)])], spoilt settings)"""
    good, spoilt, body = [], set(), []
    names = rng.sample(GM.SETTINGS, rng.choice([0, 1, 2, 4, 8]))
    for s in names:
        b = num(rng.uniform(-5, 5)); ins = []
        for i in rng.sample(GM.INPUTS, rng.choice([0, 0, 1, 2, 4])):
            n = rng.choice([0, 2, 2, 3, 8, 64]); x = rng.uniform(-5, 5); pts = []
            for _ in range(n): pts.append([num(x), num(rng.uniform(-3, 3))]); x += rng.choice([0, rng.random(), 3 * rng.random()])
            ins.append((i, pts))
        o = {"base_value": b, "inputs": {i: p for i, p in ins}}
        if rng.random() < 0.25: o["comment"] = "x"
        if rng.random() < 0.15: o["inputs"] = dict(o["inputs"]); [p.append(0) for q in o["inputs"].values() for p in q if rng.random() < 0.5]
        bad = rng.random() < 0.25
        key = s
        if bad:
            j = rng.randrange(14); i = rng.choice(GM.INPUTS)
            if j == 0: o = rng.choice([None, 3, "x", [], True])
            elif j == 1: del o["base_value"]
            elif j == 2: del o["inputs"]
            elif j == 3: o["inputs"] = rng.choice([None, [], 4, "x"])
            elif j == 4: o["inputs"][i] = rng.choice([None, 3, "x", {}, 0.5])
            elif j == 5: o["inputs"]["no_such_input"] = rng.choice([[], [[0, 0], [1, 1]]])
            elif j == 6: o["inputs"][i] = [[0.5, 0.5]]
            elif j == 7: o["inputs"][i] = [[k, 0] for k in range(rng.choice([65, 66, 200]))]
            elif j == 8: o["inputs"][i] = [[0, 0], [rng.choice([-1, -0.01]), 1]]
            elif j == 9: o["inputs"][i] = [[0, 0], rng.choice([[], [1], 7, None, "x", {}])]
            elif j == 10: o["base_value"] = None
            elif j == 11: o["inputs"][i] = [[0, 0], [1, 1], [2, 2], [1.5, 0]]
            elif j == 12: key = rng.choice(["no_such_setting", "", s + "x", s.upper()])
            elif j == 13: o["inputs"][i] = [rng.choice([[], None, 1]), [1, 1]]
            if j != 12: spoilt.add(s)
        else:
            good.append((s, b, [(i, [v for p in o["inputs"][i] for v in p[:2]]) for i, _ in ins]))
        body.append((key, o))
    if len({k for k, _ in body}) < len(body): return document(rng)
    settings = dict(body)
    doc = {"version": 3, "settings": settings}
    if rng.random() < 0.3: doc["comment"] = "MyPaint brush file"; doc["group"] = ""; doc["notes"] = {"a": [1, {"b": None}]}
    if rng.random() < 0.3: doc = dict(reversed(list(doc.items())))
    q = rng.random()
    text = None
    if q < 0.2:
        j = rng.randrange(9)
        if j == 0: doc["version"] = rng.choice([2, 4, 0, -3, None])
        elif j == 1: del doc["version"]
        elif j == 2: del doc["settings"]
        elif j == 3: doc["settings"] = rng.choice([None, [], 3, "x"])
        elif j == 4: doc = rng.choice([[], [1, 2], 3, "x", None, True])
        elif j == 5: t = _json.dumps(doc); text = t[:rng.randrange(1, len(t))]
        elif j == 6: text = rng.choice(["{", "}", "[[[[", "nonsense", "{\"version\": 3,}", "{\"version\" 3}", "\\x00"])
        elif j == 7: text = "[" * 200
        else: text = ""
        if text is None: text = _json.dumps(doc)
        return text, 0, [], set()
    return _json.dumps(doc, indent=None), int(bool(good)), good, spoilt

def loader_history(rng):
    L = ["new 0 0"]; spoilt = set()
    if rng.random() < 0.5: L.append("defaults 0")
    for _ in range(rng.randrange(2, 8)):
        text, r, good, sp = document(rng)
        L.append(("load 0 " + text).rstrip())
        L.append("want 0 " + _json.dumps({"r": r, "s": [[s, repr(v), [[i, [repr(x) for x in p]] for i, p in ins]] for s, v, ins in good]}))
        spoilt |= sp; spoilt -= set()
        if spoilt and rng.random() < 0.4: L.append("defaults 0"); spoilt = set()
        look = [s for s, _, _ in good] + rng.sample(GM.SETTINGS, 3)
        for s in look:
            if s in spoilt: continue
            ins = [i for g in good if g[0] == s for i, _ in g[2]]
            L.append("get 0 %s %s" % (s, rng.choice(ins + [rng.choice(GM.INPUTS)])))
        if rng.random() < 0.3:
            s = rng.choice(GM.SETTINGS)
            if s not in spoilt: L.append("map 0 %s %s 0 0 1 %s" % (s, rng.choice(GM.INPUTS), f(rng.random())))
    for s in GM.SETTINGS:
        if s not in spoilt and rng.random() < 0.3: L.append("get 0 %s %s" % (s, rng.choice(GM.INPUTS)))
    return "\n".join(L)

@prop("B03")
def b03(c):
    hs = [loader_history(c.rng) for _ in range(tier(2500, 30000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("reg"))
    c.conform("drv_brush", hs[:tier(400, 4000)], "TraceBrush", judge("reg"), variant="asan")

@prop("B04")
def b04(c):
    L = ["counts 0"] + ["sinfo 0 %d" % i for i in range(len(GM.SETTINGS))] + ["iinfo 0 %d" % i for i in range(len(GM.INPUTS))]
    L += ["sname 0 " + s for s in GM.SETTINGS] + ["iname 0 " + s for s in GM.INPUTS]
    hs = ["\n".join(L)]
    for _ in range(tier(200, 3000)):
        r = c.rng; L = []
        for _ in range(30):
            s = r.choice(GM.SETTINGS + GM.INPUTS)
            j = r.randrange(6)
            if j == 0: s = s[:-1]
            elif j == 1: s += r.choice("_xy12")
            elif j == 2: s = s.upper()
            elif j == 3: s = "".join(r.sample(s, len(s)))
            elif j == 4: s = r.choice(["", "x", "opaque_", "radius"])
            L.append("%s 0 %s" % (r.choice(["sname", "iname"]), s))
        hs.append("\n".join(L))
    c.conform("drv_brush", hs, "TraceMeta", shards=8)
    c.extra["table"] = "%d settings, %d inputs, %d states, all compared" % (len(GM.SETTINGS), len(GM.INPUTS), GM.ALLSTATES)

# ---- brushes that should not be told apart ------------------------------------------------
def twin_settings(rng, feats, nb, avoid=()):
    """settings of one brush as lines for brush 0"""
    L = simple(rng)
    for x in feats:
        if x == "m": L += smudges(rng, 0, nb)
        else: L += FEATURES[x](rng, 0)
    return [l for l in L if not any(a in l.split() for a in avoid)]
def as_brush(k, lines): return [" ".join([l.split()[0], str(k)] + l.split()[2:]) for l in lines]
def noise_brush(rng):
    """another brush at work meanwhile"""
    return as_brush(2, engine(rng, some(rng, "", "tosqm", 0.3), 3, nb=0).split("\n")[1:])
def alike_history(rng):
    """the same settings, reached on different ways, the same motions, interleaved"""
    nb = rng.choice([0, 0, 3])
    feats = some(rng, "", "pgftosqcm", 0.35)
    S = twin_settings(rng, feats, nb)
    L = ["new 0 %d" % nb, "new 1 %d" % nb, "new 2 0", "canvas 2 0.3 0.9 0.1 1 1"]
    if rng.random() < 0.5: L += as_brush(1, register_history(rng).split("\n")[2:20])          # values that will all be overwritten
    L = [l for l in L if not l.startswith(("resetb 1", "setst", "stroke 1", "get"))]
    T = S[:1] + rng.sample(S[1:], len(S) - 1) if rng.random() < 0.5 and len(set(x.split()[2] for x in S[1:])) == len(S) - 1 else S
    L += S + as_brush(1, T)
    c = canvas(rng, 0); L += [c] + as_brush(1, [c])
    L += ["mark 0", "mark 1"]
    ev = strokes(rng, 0, 14, lin=rng.choice([0, 1]), cv=0.15)
    a = b = 0
    while a < len(ev) or b < len(ev):
        q = rng.random()
        if q < 0.1: L += noise_brush(rng)[-rng.randrange(1, 4):]
        elif q < 0.55 and a < len(ev): L.append(ev[a]); a += 1
        elif b < len(ev): L += as_brush(1, [ev[b]]); b += 1
    L.append("cut 0")
    return "\n".join(L)
def forget_history(rng):
    """brush 0 has a past, then it is reset; brush 1 is new"""
    nb = rng.choice([0, 0, 3, 5])
    avoid = ("random", "tracking_noise", "offset_by_random", "radius_by_random", "gridmap_x", "gridmap_y")
    feats = some(rng, "", "pgftosqcm", 0.45)
    S = twin_settings(rng, feats, nb, avoid)
    past = twin_settings(rng, some(rng, "", "pgftosqcm", 0.45), nb)
    L = ["new 0 %d" % nb, "new 1 %d" % nb, "new 2 0", "canvas 2 0.3 0.9 0.1 1 1"]
    L += past + [canvas(rng, 0)] + strokes(rng, 0, rng.choice([1, 5, 12]), cv=0.2)
    if rng.random() < 0.3: L += ["setst 0 %s %s" % (rng.choice([s for s in GM.STATES if s not in ("ATTACK_ANGLE", "RNG_SEED")]), f(rng.uniform(-2, 2))) for _ in range(4)]
    if nb and rng.random() < 0.5: L.append("bucket 0 %d %s" % (rng.randrange(nb), " ".join(f(rng.random()) for _ in range(9))))
    L += S + as_brush(1, S)
    ev = strokes(rng, 0, 12, lin=rng.choice([0, 1]), cv=0.15, mid=0)
    c = canvas(rng, 0)
    L += ["resetb 0", "resetb 1"]
    L += [c] + as_brush(1, [c]) + ["stroke 0", "stroke 1", "mark 0", "mark 1"]
    L += ev + as_brush(1, ev) if rng.random() < 0.5 else [x for l in ev for x in (l, as_brush(1, [l])[0])]
    L.append("cut 0")
    return "\n".join(L)

@prop("B08")
def b08(c):
    hs = [alike_history(c.rng) for _ in range(tier(800, 12000))]
    c.conform("drv_brush", hs, "TraceTwin", "CONSTANT FORGET = {}")

@prop("B07")
def b07(c):
    hs = [forget_history(c.rng) for _ in range(tier(800, 12000))]
    c.conform("drv_brush", hs, "TraceTwin", 'CONSTANT FORGET = {"gridmap_x", "gridmap_y"}')
    hs = [engine(c.rng, some(c.rng, "", "tfm", 0.4), 14, mid=0.3) for _ in range(tier(150, 2000))]
    c.conform("drv_brush", hs, "TraceBrush", judge("reset", "track"))

def insane_history(rng):
    def near():          # nonsensical positions become the origin: stay near it, that the way there does not take many dabs
        p = Pen(rng); p.x, p.y = rng.uniform(-40, 40), rng.uniform(-40, 40)
        return p
    L = engine(rng, some(rng, "", "pgftosqcm", 0.3), 4, nb=rng.choice([0, 2]), radius=rng.uniform(1, 3), dabs=(rng.uniform(0, 1), rng.uniform(0, 0.5), rng.choice([0, rng.uniform(0, 50)])), pen=near()).split("\n")
    pen = near()
    bad = ["nan", "inf", "-inf", "1e30", "-1e30", "3e38", "1.0001e10", "-1e11"]
    for _ in range(14):
        t = pen.move(lin=rng.choice([0, 1])).split()
        if rng.random() < 0.5:
            j = rng.choice([2, 2, 3, 3, 4, 5, 6, 7, 10])
            t[j] = {4: rng.choice(bad[:4] + ["-0.5", "2", "0", "-1e-30", "1e-30"]), 5: rng.choice(bad + ["1.5", "-7"]), 6: rng.choice(bad + ["1.5", "-7"]), 7: rng.choice(["0", "-1", "-1e30", "1e-9", "-inf", "-1e-30"]),
                    10: rng.choice(["-3", "7", "0"])}.get(j, rng.choice(bad))
            if j == 4 and t[4] in ("inf", "1e30"): t[4] = "1.5"
        L.append(" ".join(t))
    return "\n".join(L + strokes(rng, 0, 4, pen=pen))

@prop("B09")
def b09(c):
    hs = [insane_history(c.rng) for _ in range(tier(350, 5000))]
    every = judge("track", "filt", "dyn", "space", "pos", "size", "color", "opac", "thru", "split", "reset")
    c.conform("drv_brush", hs, "TraceBrush", every)
    c.conform("drv_brush", [insane_history(c.rng) for _ in range(tier(100, 1500))], "TraceBrush", every, variant="asan")
