"""Random brushes and pen motions."""
import math
INPUTS = "pressure random stroke direction tilt_declination tilt_ascension speed1 speed2 custom direction_angle attack_angle tilt_declinationx tilt_declinationy gridmap_x gridmap_y viewzoom brush_radius barrel_rotation".split()
RANGE = dict(pressure=(0, 1), random=(0, 1), stroke=(0, 1), direction=(0, 180), tilt_declination=(0, 90), tilt_ascension=(-180, 180), speed1=(0, 4), speed2=(0, 4),
             custom=(-3, 3), direction_angle=(0, 360), attack_angle=(-180, 180), tilt_declinationx=(-60, 60), tilt_declinationy=(-60, 60), gridmap_x=(0, 256), gridmap_y=(0, 256),
             viewzoom=(-2, 2), brush_radius=(-1, 4), barrel_rotation=(0, 360))
def f(v): return repr(round(float(v), 6))
def base(k, **kv): return ["set %d %s %s" % (k, s, f(v)) for s, v in kv.items()]
def curve(rng, inp, lo, hi, n=None):
    """points over the range of an input, values lo..hi"""
    a, b = RANGE[inp]
    n = n or rng.choice([2, 2, 2, 3, 4, 8])
    xs = sorted(a + (b - a) * (j + rng.uniform(0.1, 0.9)) / n for j in range(n))
    if rng.random() < 0.5: xs[0], xs[-1] = a, b
    ys = [rng.choice([lo, hi, rng.uniform(lo, hi), rng.uniform(lo, hi)]) for _ in xs]
    return " ".join("%s %s" % (f(x), f(y)) for x, y in zip(xs, ys))
def mapping(rng, k, s, inp, lo, hi, n=None): return "map %d %s %s %s" % (k, s, inp, curve(rng, inp, lo, hi, n))
def simple(rng, k=0, radius=None, dabs=None):
    """a brush that makes a moderate number of dabs"""
    L = ["defaults %d" % k]
    L += base(k, radius_logarithmic=radius if radius is not None else rng.uniform(-0.5, 3.2))
    q = rng.random()
    if dabs: L += base(k, dabs_per_actual_radius=dabs[0], dabs_per_basic_radius=dabs[1], dabs_per_second=dabs[2])
    elif q < 0.4: L += base(k, dabs_per_actual_radius=rng.uniform(0.2, 2))
    elif q < 0.6: L += base(k, dabs_per_actual_radius=0, dabs_per_basic_radius=rng.uniform(0.2, 2))
    elif q < 0.8: L += base(k, dabs_per_actual_radius=rng.uniform(0, 0.5), dabs_per_basic_radius=rng.uniform(0, 0.5), dabs_per_second=rng.uniform(5, 60))
    else: L += base(k, dabs_per_actual_radius=0, dabs_per_second=rng.uniform(10, 80))
    L += base(k, color_h=rng.random(), color_s=rng.random(), color_v=rng.random())
    return L
class Pen:
    def __init__(self, rng, step=None, k=0):
        self.r, self.k = rng, k
        s = rng.choice([1, 1, 1, 20])
        self.x, self.y = rng.uniform(-400, 400) * s, rng.uniform(-400, 400) * s
        self.a = rng.uniform(0, 2 * math.pi); self.step = step or rng.choice([0.5, 3, 10])
        self.p = rng.choice([0, 0.5]); self.xt = self.yt = 0.0; self.zoom, self.rot, self.bar = 1.0, 0.0, 0.0
        self.tilt = rng.random() < 0.5; self.view = rng.random() < 0.4; self.barrel = rng.random() < 0.4
        self.pause = 0.1
        if self.view: self.zoom = rng.choice([0.5, 1, 2, rng.uniform(0.2, 4)]); self.rot = rng.uniform(-3, 3)
    def move(self, dt=None, lin=0):
        r = self.r
        self.a += r.gauss(0, 0.6)
        d = self.step * r.choice([0, 0.3, 1, 1, 1, 3])
        self.x += d * math.cos(self.a); self.y += d * math.sin(self.a)
        if r.random() < 0.6: self.p = r.choice([0, 0.2, 0.5, 0.8, 1, r.random(), r.random()])
        if self.tilt and r.random() < 0.6: self.xt, self.yt = r.uniform(-1, 1), r.uniform(-1, 1)
        if self.view and r.random() < 0.2: self.zoom = r.uniform(0.2, 4); self.rot = r.uniform(-3, 3)
        if self.barrel: self.bar = r.random()
        if dt is None: dt = r.choice([0.005, 0.01, 0.02, 0.05, 0.09]) if r.random() > self.pause else r.choice([0, 0.15, 0.3, 1.2, 3])
        return "to %d %s %s %s %s %s %s %s %s %s %d" % (self.k, f(self.x), f(self.y), f(self.p), f(self.xt), f(self.yt), f(dt), f(self.zoom), f(self.rot), f(self.bar), lin)
THRU = {"lock_alpha": (-3, 3), "colorize": (-3, 3), "posterize": (-3, 3), "posterize_num": (-3, 3)}
def probe_inputs(rng, k, inputs=INPUTS, n=4):
    """maps inputs onto settings the surface is handed unchanged"""
    L = []
    for s in rng.sample(sorted(THRU), min(n, 4)):
        for i in rng.sample(list(inputs), rng.choice([1, 1, 1, 2]) if len(inputs) > 1 else 1):
            L.append(mapping(rng, k, s, i, -3, 3))
    return L
def gammas(rng, k): return base(k, speed1_gamma=rng.uniform(-2, 6), speed2_gamma=rng.uniform(-2, 6), pressure_gain_log=rng.uniform(-1.5, 1.5), stroke_threshold=rng.choice([0, 0.1, 0.3, rng.random() * 0.5]))
def filters(rng, k):
    L = base(k, speed1_slowness=rng.choice([0, 0.04, rng.uniform(0, 0.3)]), speed2_slowness=rng.choice([0, 0.8, rng.uniform(0, 3)]), direction_filter=rng.choice([0, 2, rng.uniform(0.1, 6)]),
             stroke_duration_logarithmic=rng.uniform(-1, 6), stroke_holdtime=rng.choice([0, 0.5, 2, 10, 11, rng.uniform(0, 3)]), custom_input_slowness=rng.choice([0, rng.uniform(0.01, 2)]),
             custom_input=rng.uniform(-2, 2), gridmap_scale=rng.uniform(-3, 1), gridmap_scale_x=rng.uniform(0, 4), gridmap_scale_y=rng.uniform(0, 4),
             offset_by_speed_slowness=rng.choice([0, 1, rng.uniform(0, 15)]))
    if rng.random() < 0.5: L.append(mapping(rng, k, "custom_input", rng.choice(["random", "pressure", "stroke", "direction_angle"]), -2, 2))
    return L
def tracking(rng, k):
    return base(k, slow_tracking=rng.choice([0, rng.uniform(0, 5)]), slow_tracking_per_dab=rng.choice([0, rng.uniform(0.05, 5)]), tracking_noise=rng.choice([0, 0, rng.uniform(0, 1.5)]))
OFFS = "offset_x offset_y offset_angle offset_angle_asc offset_angle_view offset_angle_2 offset_angle_2_asc offset_angle_2_view".split()
def offsets(rng, k):
    L = []
    for s in rng.sample(OFFS, rng.choice([1, 2, 3, 8])): L += base(k, **{s: rng.uniform(-5, 5)})
    L += base(k, offset_angle_adj=rng.choice([0, rng.uniform(-180, 180)]), offset_multiplier=rng.choice([0, rng.uniform(-2, 2), 3]))
    if rng.random() < 0.4: L += base(k, offset_by_speed=rng.uniform(-3, 3), offset_by_speed_slowness=rng.uniform(0, 10))
    if rng.random() < 0.4: L += base(k, offset_by_random=rng.choice([-1, rng.uniform(0, 3)]))
    if rng.random() < 0.4: L.append(mapping(rng, k, rng.choice(OFFS + ["offset_multiplier", "offset_angle_adj"]), rng.choice(["pressure", "random", "stroke", "custom", "direction"]), -2, 2))
    return L
def sizes(rng, k):
    L = base(k, hardness=rng.choice([0, 0.5, 0.95, 1, rng.random(), 1.2, -0.1]), softness=rng.choice([0, rng.random(), 1.5]), anti_aliasing=rng.choice([0, 1, rng.uniform(0, 5)]),
             elliptical_dab_ratio=rng.choice([0.5, 1, 1, rng.uniform(1, 8)]), elliptical_dab_angle=rng.uniform(-200, 400), snap_to_pixel=rng.choice([0, 0, 1, rng.random()]))
    if rng.random() < 0.4: L += base(k, radius_by_random=rng.uniform(0, 1))
    for s, lo, hi in (("radius_logarithmic", -1, 1.5), ("hardness", -0.5, 0.5), ("elliptical_dab_angle", -90, 90), ("elliptical_dab_ratio", 0, 3), ("anti_aliasing", 0, 3), ("radius_by_random", 0, 0.5)):
        if rng.random() < 0.3: L.append(mapping(rng, k, s, rng.choice(["pressure", "random", "stroke", "speed1", "custom", "tilt_declination"]), lo, hi))
    return L
def opacity(rng, k):
    L = base(k, opaque=rng.choice([1, rng.uniform(0, 2), -1]), opaque_multiply=rng.choice([0, 1, rng.uniform(-1, 2)]), opaque_linearize=rng.choice([0, 0.9, rng.uniform(0, 2)]))
    for s in ("opaque", "opaque_multiply"):
        if rng.random() < 0.5: L.append(mapping(rng, k, s, rng.choice(["pressure", "random", "stroke", "speed1"]), -1, 1.5))
    if rng.random() < 0.3: L += base(k, radius_by_random=rng.uniform(0, 1))
    return L
COLS = "change_color_h change_color_l change_color_hsl_s change_color_v change_color_hsv_s".split()
def colours(rng, k):
    L = []
    for s in rng.sample(COLS, rng.choice([0, 1, 2, 5])):
        L += base(k, **{s: rng.uniform(-1.5, 1.5)})
        if rng.random() < 0.3: L.append(mapping(rng, k, s, rng.choice(["pressure", "random", "stroke"]), -1, 1))
    if rng.random() < 0.5: L += base(k, eraser=rng.choice([1, rng.random()]))
    L += base(k, color_h=rng.uniform(-1, 2), color_s=rng.choice([0, 1, rng.uniform(-0.5, 1.5)]), color_v=rng.choice([0, 1, rng.uniform(-0.5, 1.5)]))
    return L
def smudges(rng, k, nb=0):
    L = base(k, smudge=rng.choice([0, 1, rng.random(), 1.5]), smudge_length=rng.choice([0, 0.5, 0.9, rng.random(), 1]), smudge_length_log=rng.choice([0, rng.uniform(0, 6)]),
             smudge_radius_log=rng.uniform(-1.6, 1.6), paint_mode=rng.choice([0, 1, rng.random()]), smudge_transparency=rng.choice([0, 0, 0, rng.uniform(-1, 1)]))
    if nb: L += base(k, smudge_bucket=rng.choice([0, 1, nb - 1, nb, nb + 3, -2, rng.randrange(nb)]))
    if rng.random() < 0.4: L.append(mapping(rng, k, "smudge", rng.choice(["pressure", "random", "stroke"]), -0.5, 1))
    if rng.random() < 0.2: L.append(mapping(rng, k, "paint_mode", rng.choice(["pressure", "random"]), -0.6, 1))
    if nb and rng.random() < 0.5: L.append(mapping(rng, k, "smudge_bucket", rng.choice(["random", "pressure", "custom"]), 0, nb))
    if rng.random() < 0.2: L.append(mapping(rng, k, "smudge_length", rng.choice(["pressure", "random"]), -0.5, 0.5))
    return L
def canvas(rng, k, draws=None):
    a = rng.choice([0, 0.005, 1, 1, rng.random()])
    return "canvas %d %s %s %s %s %d" % (k, f(rng.random()), f(rng.random()), f(rng.random()), f(a), rng.choice([1, 1, 1, 0]) if draws is None else draws)
def strokes(rng, k=0, n=20, lin=0, pen=None, mid=0.05, cv=0.1):
    p = pen or Pen(rng, k=k)
    L = []
    for _ in range(n):
        L.append(p.move(lin=lin))
        if rng.random() < mid: L.append(rng.choice(["resetb %d" % k, "stroke %d" % k]))
        if rng.random() < cv: L.append(canvas(rng, k))
    return L
