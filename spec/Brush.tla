--------------------------------- MODULE Brush ---------------------------------
(* The brush engine: what a brush does with one motion event.  A brush is a   *)
(* record (settings, dynamics, internal state, smudge buckets, noise source); *)
(* an event is cut into dabs; the surface is asked for a colour ("pick") or   *)
(* for a dab, after which the engine goes on.  States are kept as the bits of *)
(* single precision numbers and, at conformance checking, taken over from     *)
(* the library after every observation, so errors do not pile up.             *)
EXTENDS Colour, Rng, BrushMeta, FiniteSets, TLC

RMIN == F("0.2")   RMAX == F(1000)   GRID == F(256)
HUGE == F("1e30")
Wrap(v, n) == FMod(v, n)
Wrap180(v) == FMod(v ++ 180, 360) -- 180
Decay(t, T) == IF FLe(T, "0.001") THEN F(0) ELSE FExp(F(0) -- (t // T))
Fade(t, T) == F(1) -- Decay(t, T)
Not0(v) == ~FEq(v, 0)
Sum(s) == FoldLeft(LAMBDA x, y : x ++ y, F(0), s)

ZeroBucket == [ j \in 1..9 |-> 0 ]
MINUS1 == FToBits(-1)
ZeroState == [ n \in { StateNames[j] : j \in DOMAIN StateNames } \ {"rng_seed", "attack_angle"} |-> IF n = "flip" THEN MINUS1 ELSE 0 ]
St(b, n) == FBits(b.st[n])

NewBrush(nb) ==
  [ base |-> [ s \in Settings |-> F(0) ], map |-> << >>, st |-> ZeroState,
    nb |-> nb, bk |-> [ j \in 1..nb |-> ZeroBucket ], mn |-> -1, mx |-> -1,
    skip |-> F(0), sx |-> F(0), sy |-> F(0), sdt |-> F(0),
    rand |-> F(0), rng |-> RngNew(1000), grid |-> << F(0), F(0), F(0) >>,
    reset |-> TRUE, total |-> F(0), idle |-> F(0), lost |-> FALSE,
    pend |-> << >>, call |-> [ph |-> "idle"], prep |-> [none |-> TRUE] ]

\* ---- settings and dynamics -----------------------------------------------------
SetBase(b, s, v) == [b EXCEPT !.base[s] = v]
Points(b, s, i) == IF s \in DOMAIN b.map /\ i \in DOMAIN b.map[s] THEN b.map[s][i] ELSE << >>
SetMap(b, s, i, pts) ==
  LET old == IF s \in DOMAIN b.map THEN b.map[s] ELSE << >>
      D == IF pts = << >> THEN DOMAIN old \ {i} ELSE DOMAIN old \cup {i}
      new == [ j \in D |-> IF j = i THEN pts ELSE old[j] ]
      E == IF D = {} THEN DOMAIN b.map \ {s} ELSE DOMAIN b.map \cup {s}
  IN [b EXCEPT !.map = [ j \in E |-> IF j = s THEN new ELSE b.map[j] ]]
Constant(b, s) == s \notin DOMAIN b.map
UsedN(b, s) == IF Constant(b, s) THEN 0 ELSE Cardinality(DOMAIN b.map[s])
Defaults(b) == SetMap([b EXCEPT !.base = DefaultOf, !.map = << >>], "opaque_multiply", "pressure", << F(0), F(0), F(1), F(1) >>)

\* value of the piecewise linear curve through p = <<x1, y1, x2, y2, ...>> at x:
\* the outer segments are extended; a level or vertical segment has its left value
RECURSIVE Segment(_, _, _)
Segment(p, x, j) == IF j < Len(p) \div 2 - 1 /\ FLt(p[2*j + 1], x) THEN Segment(p, x, j + 1) ELSE j
Curve(p, x) ==
  LET j == Segment(p, x, 1)
      x0 == p[2*j - 1]  y0 == p[2*j]  x1 == p[2*j + 1]  y1 == p[2*j + 2]
  IN IF FEq(x0, x1) \/ FEq(y0, y1) THEN y0
     ELSE ((y1 ** (x -- x0)) ++ (y0 ** (x1 -- x))) // (x1 -- x0)
\* how much Curve can be off when its argument is off by up to e
CurveErr(p, x, e) ==
  FoldLeft(LAMBDA m, j :
             LET x0 == p[2*j - 1]  y0 == p[2*j]  x1 == p[2*j + 1]  y1 == p[2*j + 2]
                 here == (j = 1 \/ FLe(x0, x ++ e)) /\ (j = Len(p) \div 2 - 1 \/ FLe(x -- e, x1))
             IN IF ~here THEN m
                ELSE IF FEq(x0, x1) THEN FMax(m, IF FEq(e, 0) THEN F(0) ELSE FAbs(y1 -- y0))
                ELSE FMax(m, e ** (FAbs(y1 -- y0) // (x1 -- x0))),
           F(0), [ j \in 1..(Len(p) \div 2 - 1) |-> j ])
\* <<value, possible error>> of setting s, inp: input -> <<value, possible error>>
SettingValue(b, s, inp) ==
  IF Constant(b, s) THEN << b.base[s], F(0) >>
  ELSE FoldLeft(LAMBDA x, i : LET p == b.map[s][i]  c == Curve(p, inp[i][1])
                              IN TLCEval(<< x[1] ++ c, x[2] ++ CurveErr(p, inp[i][1], inp[i][2]) ++ (FAbs(c) ** "1e-6") >>),
                << b.base[s], F("1e-6") ** FAbs(b.base[s]) >>, SetToSeq(DOMAIN b.map[s]))
\* the value of a setting in a step, and its possible error
UV(u, s) == IF s \in DOMAIN u.ve THEN u.ve[s][1] ELSE u.base[s]
UE(u, s) == IF s \in DOMAIN u.ve THEN u.ve[s][2] ELSE F(0)
\* a dynamic setting so near a threshold that rounding may decide
Unsure(b, u, s, at) == /\ ~Constant(b, s) /\ FLe(FAbs(UV(u, s) -- at), UE(u, s))
                          /\ ~(FEq(UV(u, s), at) /\ \A i \in DOMAIN b.map[s] : \A j \in 1..(Len(b.map[s][i]) \div 2) : FEq(b.map[s][i][2*j], 0))

BaseRadius(b) == FExp(b.base["radius_logarithmic"])

\* ---- one call of stroke_to -------------------------------------------------------
Fix(x, y, p, xt0, yt0, dt, zoom, rot, barrel, lin) ==
  LET xt == IF FFinite(xt0) THEN FClamp(xt0, -1, 1) ELSE F(0)
      yt == IF FFinite(yt0) THEN FClamp(yt0, -1, 1) ELSE F(0)
      tilt == Not0(xt) \/ Not0(yt)
      insane == ~FFinite(x) \/ ~FFinite(y) \/ FLt("1e10", FAbs(x)) \/ FLt("1e10", FAbs(y))
  IN [ x |-> IF insane THEN F(0) ELSE x, y |-> IF insane THEN F(0) ELSE y,
       p |-> IF insane \/ ~FFinite(p) \/ FLe(p, 0) THEN F(0) ELSE p,
       zoom |-> IF insane THEN F(1) ELSE zoom, rot |-> IF insane THEN F(0) ELSE rot,
       barrel |-> IF insane THEN F(0) ELSE barrel,
       dt |-> IF FLe(dt, 0) THEN F("0.0001") ELSE dt,
       asc |-> IF tilt THEN FAtan2Deg(F(0) -- xt, yt) ELSE F(0),
       decl |-> IF tilt THEN F(90) -- (F(60) ** FHypot(xt, yt)) ELSE F(90),
       declx |-> IF tilt THEN F(60) ** xt ELSE F(90),
       decly |-> IF tilt THEN F(60) ** yt ELSE F(90),
       lin |-> lin ]
\* A pen that comes down after a pause is first moved there without pressure
Calls(b, c) ==
  IF FLt("0.1", c.dt) /\ Not0(c.p) /\ (b.reset \/ FEq(St(b, "pressure"), 0))
  THEN << [c EXCEPT !.p = F(0), !.asc = F(-90), !.decl = F(30), !.declx = F(60), !.decly = F(0), !.dt = c.dt -- "0.0001", !.barrel = F(0)],
          [c EXCEPT !.dt = F("0.0001")] >>
  ELSE << c >>

ResetBrush(b) ==
  [b EXCEPT !.st = ZeroState, !.skip = F(0), !.sx = F(0), !.sy = F(0), !.sdt = F(0), !.mn = -1, !.mx = -1,
            !.bk = [ j \in DOMAIN b.bk |-> IF b.mn <= j - 1 /\ j - 1 <= b.mx THEN ZeroBucket ELSE b.bk[j] ]]

Done(b, r) == [b EXCEPT !.call = [ph |-> "done", res |-> r], !.pend = Tail(b.pend)]
MaxDt(b, dt) == FLt(5, dt) \/ b.reset

Track(b, c, dt) ==
  LET noise == BaseRadius(b) ** b.base["tracking_noise"]
      noisy == Not0(b.base["tracking_noise"]) /\ FLt("0.001", noise)
      g1 == RngGauss(b.rng)  g2 == RngGauss(g1[2])
      b1 == IF noisy THEN [b EXCEPT !.skip = F32(noise ** "0.5"), !.sx = c.x, !.sy = c.y, !.rng = TLCEval(g2[2])] ELSE b
      x1 == IF noisy THEN F32(c.x ++ (noise ** g1[1])) ELSE c.x
      y1 == IF noisy THEN F32(c.y ++ (noise ** g2[1])) ELSE c.y
      fac == IF b.reset THEN F(1) ELSE Fade(dt ** 100, b.base["slow_tracking"])
      tx == IF b.reset THEN F32(x1) ELSE F32(St(b, "x") ++ ((x1 -- St(b, "x")) ** fac))
      ty == IF b.reset THEN F32(y1) ELSE F32(St(b, "y") ++ ((y1 -- St(b, "y")) ** fac))
  IN IF MaxDt(b, dt)
     THEN LET r == ResetBrush(b1)  n == RngNext(b1.rng)
          IN Done([r EXCEPT !.reset = FALSE, !.prep = [none |-> TRUE], !.rand = n[1], !.rng = TLCEval(n[2]),
                     !.st = [r.st EXCEPT !["x"] = FToBits(tx), !["y"] = FToBits(ty), !["actual_x"] = FToBits(tx), !["actual_y"] = FToBits(ty),
                                         !["pressure"] = FToBits(c.p), !["stroke"] = FToBits(1)]], TRUE)
     ELSE [b1 EXCEPT !.call = [ph |-> "run", c |-> c, tx |-> tx, ty |-> ty, etxy |-> F("1.2e-7") ** (FAbs(x1 -- St(b, "x")) ++ FAbs(y1 -- St(b, "y"))), dt |-> dt, left |-> dt, edt |-> dt ** "1e-6",
                               moved |-> St(b, "partial_dabs"), painted |-> "unknown"],
                     !.st = [b.st EXCEPT !["actual_radius"] = IF @ = 0 THEN FToBits(FClamp(BaseRadius(b), RMIN, RMAX)) ELSE @]]
\* the records possible after the first pending call began (more than one only when rounding decides)
Begin(b) ==
  LET c == Head(b.pend)
      sk == F32(b.skip -- FHypot(b.sx -- c.x, b.sy -- c.y))
      dt == F32(b.sdt ++ c.dt)
      over == MaxDt(b, dt)
      wait == [b EXCEPT !.sx = c.x, !.sy = c.y, !.sdt = dt, !.skip = sk]
      go == [b EXCEPT !.sx = F(0), !.sy = F(0), !.sdt = F(0), !.skip = F(0)]
  IN IF FLe(b.skip, "0.001") THEN { Track(b, c, c.dt) }
     ELSE (IF ~over /\ FLt("0.0009", sk) THEN { Done(wait, FALSE) } ELSE {})
          \cup (IF over \/ FLt(sk, "0.0011") THEN { Track(go, c, dt) } ELSE {})
\* ... going on to the second call if the first is over
Ready(b) == UNION { IF d.call.ph = "done" /\ d.pend # << >> THEN Begin(d) ELSE { d } : d \in Begin(b) }
StrokeTo(b, c) == Ready([b EXCEPT !.pend = Calls(b, c), !.call = [ph |-> "idle"]])

\* ---- dabs to the end of the event ---------------------------------------------------
PosErr(b) == (F("3e-7") ** (F(1) ++ FAbs(b.call.tx) ++ FAbs(b.call.ty))) ++ b.call.etxy
PerPixel(b) ==
  (St(b, "dabs_per_actual_radius") // St(b, "actual_radius"))
  ++ (St(b, "dabs_per_basic_radius") // FClamp(BaseRadius(b), RMIN, RMAX))
Todo(b) ==
  LET dx == b.call.tx -- St(b, "x")  dy == b.call.ty -- St(b, "y")
      ratio == St(b, "actual_elliptical_dab_ratio")  ang == St(b, "actual_elliptical_dab_angle")
      dist == IF FLt(1, ratio)
              THEN FHypot(((dy ** FCosDeg(ang)) -- (dx ** FSinDeg(ang))) ** ratio, (dy ** FSinDeg(ang)) ++ (dx ** FCosDeg(ang)))
              ELSE FHypot(dx, dy)
  IN FMax(0, (dist ** PerPixel(b)) ++ (b.call.left ** St(b, "dabs_per_second")))
TodoErr(b) == (F("2e-6") ** (F(1) ++ Todo(b))) ++ (PosErr(b) ** FMax(1, St(b, "actual_elliptical_dab_ratio")) ** FAbs(PerPixel(b)))
                ++ (b.call.edt ** FAbs(St(b, "dabs_per_second")))
CanStep(b) == b.call.ph = "run" /\ FLe(1, b.call.moved ++ Todo(b) ++ TodoErr(b))
CanTail(b) == b.call.ph = "run" /\ FLt(b.call.moved ++ Todo(b) -- TodoErr(b), 1)

\* ---- the simulation step ---------------------------------------------------------------
AngDiff(a, c) == Wrap180(c -- a)
NearWrap(v, n, e) == LET m == Wrap(v, n) IN FLt(m, e) \/ FLt(F(n) -- e, m)

\* Everything that changes when the brush moves by the fraction frac (possibly off by ef) of the
\* remaining way, ddab dabs: s the new states, v/e the settings and their possible errors, t how far
\* off the states may be.
Update(b, frac, ef, ddab) ==
  LET c == b.call.c
      S(n) == St(b, n)
      B0(s) == b.base[s]
      rx == b.call.tx -- S("x")  ry == b.call.ty -- S("y")
      dx == frac ** rx  dy == frac ** ry
      dt0 == frac ** b.call.left
      dt == IF FLe(dt0, 0) THEN F("0.001") ELSE dt0
      edt == b.call.edt ++ (ef ** b.call.left) ++ (dt0 ** "1e-6")
      badDt == FLe(dt0, edt ** 4)
      Lin(n, target) == S(n) ++ (frac ** (target -- S(n)))
      LinErr(n, target) == ef ** FAbs(target -- S(n))
      Turn(n, target) == S(n) ++ (frac ** AngDiff(S(n), target))
      press == FMax(0, Lin("pressure", c.p))
      ePress == F("1e-6") ++ LinErr("pressure", c.p)
      barrelTo == c.barrel ** 360
      turnErr(n, target) == IF NearWrap(AngDiff(S(n), target) ++ 180, 360, F("0.01")) THEN HUGE ELSE (ef ** 180) ++ "2e-4"
      asc == Turn("ascension", c.asc)  barrel == Turn("barrel_rotation", barrelTo)
      rot == Wrap180(c.rot ** "57.29577951308232")
      eRot == IF FEq(c.rot, 0) THEN F(0) ELSE F("1e-4") ++ (FAbs(c.rot) ** "2e-5")
      \* grid map: from the position before the step and the settings of the previous one
      gsize == FExp(b.grid[1]) ** GRID
      Grid(v, k) == LET g == (Wrap(FAbs(v ** b.grid[k]), gsize) // gsize) ** GRID IN IF FLt(v, 0) THEN GRID -- g ELSE g
      gx == Grid(S("actual_x"), 2)  gy == Grid(S("actual_y"), 3)
      GridErr(v, k) == IF FEq(v ** b.grid[k], 0) THEN F(0)
                       ELSE F("1e-4") ++ ((FAbs(v ** b.grid[k]) ** "1e-6" ** GRID) // gsize)
      \* the stroke input starts and ends with the pressure
      thr == B0("stroke_threshold")
      was == Not0(S("stroke_started"))
      starts == ~was /\ FLt(thr ++ "0.0001", press)
      stops == was /\ FLe(press, (thr ** "0.9") ++ "0.0001")
      unsureStroke == \/ ~was /\ FNear(thr ++ "0.0001", press, ePress ++ "1e-6", 0)
                      \/ was /\ FNear(press, (thr ** "0.9") ++ "0.0001", ePress ++ "1e-6", 0)
      started == IF starts THEN F(1) ELSE IF stops THEN F(0) ELSE S("stroke_started")
      stroke0 == IF starts THEN F(0) ELSE S("stroke")
      \* speeds
      zoom == c.zoom
      eDist == PosErr(b) ++ (ef ** FHypot(rx, ry))
      ndx == (dx // dt) ** zoom  ndy == (dy // dt) ** zoom
      nspeed == FHypot(ndx, ndy)
      eSpeed == IF badDt THEN HUGE ELSE ((eDist // dt) ** zoom) ++ (nspeed ** (edt // dt) ** 2)
      radius0 == BaseRadius(b)
      ndist == FHypot(dx, dy) // radius0
      \* inputs
      dirZero(p, q) == FEq(p, 0) /\ FEq(q, 0)
      ang180 == FAtan2Deg(S("direction_dy"), S("direction_dx"))
      ang360 == FAtan2Deg(S("direction_angle_dy"), S("direction_angle_dx"))
      exact180 == dirZero(S("direction_dx"), S("direction_dy")) /\ FEq(eRot, 0)
      exact360 == dirZero(S("direction_angle_dx"), S("direction_angle_dy")) /\ FEq(eRot, 0)
      Angle(v, n, e) == << v, IF NearWrap(v, n, e ** 2) THEN HUGE ELSE e >>
      Speed(k) == LET g == FExp(B0(IF k = 1 THEN "speed1_gamma" ELSE "speed2_gamma"))
                      m == F("0.015") ** (F(45) ++ g)
                  IN (FLog(g ++ S(IF k = 1 THEN "norm_speed1_slow" ELSE "norm_speed2_slow")) ** m) ++ (F("0.5") -- (m ** FLog(F(45) ++ g)))
      SpeedErr(k) == F("1e-5") ++ (FExp(B0(IF k = 1 THEN "speed1_gamma" ELSE "speed2_gamma")) ** "2e-7")
      gain == FExp(B0("pressure_gain_log"))
      attackAsc == asc  attackDir == Wrap(ang360 ++ 90, 360)
      Input(i) ==
        CASE i = "pressure" -> << press ** gain, (ePress ** gain) >>
          [] i = "random" -> << b.rand, F("1e-7") >>
          [] i = "stroke" -> << FMin(stroke0, 1), IF unsureStroke THEN HUGE ELSE F("1e-6") >>
          [] i = "direction" -> IF exact180 THEN << F(0), F(0) >> ELSE Angle(Wrap(ang180 ++ rot ++ 180, 180), 180, eRot ++ "1e-3")
          [] i = "direction_angle" -> IF exact360 THEN << F(0), F(0) >> ELSE Angle(Wrap(ang360 ++ rot, 360), 360, eRot ++ "1e-3")
          [] i = "tilt_declination" -> << Lin("declination", c.decl), LinErr("declination", c.decl) ++ "1e-4" >>
          [] i = "tilt_declinationx" -> << Lin("declinationx", c.declx), LinErr("declinationx", c.declx) ++ "1e-4" >>
          [] i = "tilt_declinationy" -> << Lin("declinationy", c.decly), LinErr("declinationy", c.decly) ++ "1e-4" >>
          [] i = "tilt_ascension" -> LET e1 == turnErr("ascension", c.asc) ++ eRot ++ "1e-3"
                                     IN << Wrap180(asc ++ rot), IF NearWrap(asc ++ rot ++ 180, 360, e1 ** 2) THEN HUGE ELSE e1 >>
          [] i = "speed1" -> << Speed(1), SpeedErr(1) >>
          [] i = "speed2" -> << Speed(2), SpeedErr(2) >>
          [] i = "custom" -> << S("custom_input"), F("1e-6") >>
          [] i = "attack_angle" -> LET v == AngDiff(asc, attackDir)  e1 == turnErr("ascension", c.asc) ++ "1e-3"
                                   IN << v, IF NearWrap(v ++ 180, 360, e1 ** 2) THEN HUGE ELSE e1 >>
          [] i = "gridmap_x" -> LET e1 == GridErr(S("actual_x"), 2) IN << gx, IF Not0(e1) /\ NearWrap(gx, 256, e1 ** 2) THEN HUGE ELSE e1 >>
          [] i = "gridmap_y" -> LET e1 == GridErr(S("actual_y"), 3) IN << gy, IF Not0(e1) /\ NearWrap(gy, 256, e1 ** 2) THEN HUGE ELSE e1 >>
          [] i = "viewzoom" -> << FLog(zoom), F("2e-6") >>
          [] i = "brush_radius" -> << B0("radius_logarithmic"), F(0) >>
          [] i = "barrel_rotation" -> IF FEq(barrel, 0) THEN << F(0), F(0) >>
                                      ELSE Angle(Wrap(barrel, 360), 360, turnErr("barrel_rotation", barrelTo) ++ "1e-3")
      used == UNION { DOMAIN b.map[s] : s \in DOMAIN b.map }
      inp == TLCEval([ i \in used |-> TLCEval(Input(i)) ])
      ve == TLCEval([ s \in DOMAIN b.map |-> TLCEval(SettingValue(b, s, inp)) ])
      v(s) == IF s \in DOMAIN ve THEN ve[s][1] ELSE b.base[s]
      e(s) == IF s \in DOMAIN ve THEN ve[s][2] ELSE F(0)
      \* filters
      SlowErr(T, eT, t) == IF FLe(T, (F(0) ** T) ++ "0.00101") /\ FLt("0.00099", T) THEN F(1)
                           ELSE FMin(1, (t // FMax(T, "0.001")) ** (eT // FMax(T, "0.001")))
      xn == S("x") ++ dx  yn == S("y") ++ dy
      tpd == v("slow_tracking_per_dab")
      fac == Fade(ddab, tpd)
      eFac == FMin(1, SlowErr(tpd, e("slow_tracking_per_dab"), ddab) ++ (ef // FMax(tpd, "0.001")) ++ "1e-6")
      Slow(old, new, f) == old ++ ((new -- old) ** f)
      T1 == v("speed1_slowness")  T2 == v("speed2_slowness")
      f1 == Fade(dt, T1)  f2 == Fade(dt, T2)
      eF(T, eT) == IF badDt THEN F(1) ELSE FMin(1, SlowErr(T, eT, dt) ++ (edt // FMax(T, "0.001")) ++ "1e-6")
      T3 == FMax("0.002", FExp(v("offset_by_speed_slowness") ** "0.01") -- 1)
      f3 == Fade(dt, T3)
      eT3 == (e("offset_by_speed_slowness") ** "0.012") ++ "1e-6"
      zx == dx ** zoom  zy == dy ** zoom
      way == FHypot(zx, zy)
      T4 == FExp(v("direction_filter") ** "0.5") -- 1
      f4 == Fade(way, T4)
      eT4 == (e("direction_filter") ** (T4 ++ 1)) ++ "1e-6"
      eF4 == FMin(1, SlowErr(T4, eT4, way) ++ ((eDist ** zoom) // FMax(T4, "0.001")) ++ "1e-6")
      ox == S("direction_dx")  oy == S("direction_dy")
      dot == (ox ** zx) ++ (oy ** zy)
      flips == FLt(dot, 0)
      eDot == (eDist ** zoom ** FHypot(ox, oy)) ++ (way ** FHypot(ox, oy) ** "1e-6")
                ++ ((way ++ FHypot(ox, oy)) ** (way ++ FHypot(ox, oy)) ** "1e-6")
      unsureFlip == (Not0(ox) \/ Not0(oy)) /\ FLe(FAbs(dot), eDot)
      kx == IF flips THEN F(0) -- zx ELSE zx
      ky == IF flips THEN F(0) -- zy ELSE zy
      Tc == v("custom_input_slowness")
      f5 == Fade("0.1", Tc)
      frequency == FExp(F(0) -- v("stroke_duration_logarithmic"))
      str == FMax(0, stroke0 ++ (ndist ** frequency))
      eStr == F("2e-6") ** (F(1) ++ str) ++ ((eDist // radius0) ** frequency) ++ (ndist ** frequency ** (e("stroke_duration_logarithmic") ++ "1e-6"))
      wrapAt == F(1) ++ FMax(0, v("stroke_holdtime"))
      strWraps == FLe(wrapAt, str)
      unsureWrap == \/ unsureStroke \/ FLe(FAbs(wrapAt -- str), eStr ++ e("stroke_holdtime"))
                    \/ strWraps /\ (FLe(FAbs(wrapAt -- "10.9"), e("stroke_holdtime") ++ "1e-5") \/ NearWrap(FDiv(str, wrapAt), 1, FDiv(eStr ++ (e("stroke_holdtime") ** (str // wrapAt)), wrapAt)))
      str1 == IF ~strWraps THEN str ELSE IF FLt("10.9", wrapAt) THEN F(1) ELSE FRem(str, wrapAt)
      rlog == v("radius_logarithmic")
      rad == FClamp(FExp(rlog), RMIN, RMAX)
      ell == Wrap(v("elliptical_dab_angle") -- rot ++ 180, 180) -- 180
  IN [ ve |-> ve, base |-> b.base, dp |-> c.p -- S("pressure"), dt |-> dt0, used |-> used,
       s |-> [ x |-> xn, y |-> yn, pressure |-> press, declination |-> Lin("declination", c.decl),
               declinationx |-> Lin("declinationx", c.declx), declinationy |-> Lin("declinationy", c.decly),
               ascension |-> asc, barrel_rotation |-> barrel, viewzoom |-> zoom, viewrotation |-> rot,
               gridmap_x |-> gx, gridmap_y |-> gy, stroke_started |-> started, stroke |-> str1,
               actual_x |-> Slow(S("actual_x"), xn, fac), actual_y |-> Slow(S("actual_y"), yn, fac),
               norm_speed1_slow |-> Slow(S("norm_speed1_slow"), nspeed, f1), norm_speed2_slow |-> Slow(S("norm_speed2_slow"), nspeed, f2),
               norm_dx_slow |-> Slow(S("norm_dx_slow"), ndx, f3), norm_dy_slow |-> Slow(S("norm_dy_slow"), ndy, f3),
               direction_angle_dx |-> Slow(S("direction_angle_dx"), zx, f4), direction_angle_dy |-> Slow(S("direction_angle_dy"), zy, f4),
               direction_dx |-> Slow(ox, kx, f4), direction_dy |-> Slow(oy, ky, f4),
               custom_input |-> Slow(S("custom_input"), v("custom_input"), f5),
               dabs_per_basic_radius |-> v("dabs_per_basic_radius"), dabs_per_actual_radius |-> v("dabs_per_actual_radius"),
               dabs_per_second |-> v("dabs_per_second"), actual_radius |-> rad,
               actual_elliptical_dab_ratio |-> v("elliptical_dab_ratio"), actual_elliptical_dab_angle |-> ell ],
       t |-> LET far(n, new, ev, f, ef2) == (ev ** f) ++ (FAbs(new -- S(n)) ** ef2) ++ (FAbs(S(n)) ** "1e-6") ++ "1e-6"
                 eAct == far("actual_x", xn, PosErr(b), F(1), eFac)
                 eActY == far("actual_y", yn, PosErr(b), F(1), eFac)
                 eN3 == eF(T3, eT3)
             IN [ x |-> PosErr(b) ++ (ef ** FAbs(rx)) ++ (FAbs(xn) ** "1e-6"), y |-> PosErr(b) ++ (ef ** FAbs(ry)) ++ (FAbs(yn) ** "1e-6"),
                  pressure |-> ePress, declination |-> LinErr("declination", c.decl) ++ "1e-4",
                  declinationx |-> LinErr("declinationx", c.declx) ++ "1e-4", declinationy |-> LinErr("declinationy", c.decly) ++ "1e-4",
                  ascension |-> turnErr("ascension", c.asc), barrel_rotation |-> turnErr("barrel_rotation", barrelTo),
                  viewzoom |-> F(0), viewrotation |-> eRot, gridmap_x |-> GridErr(S("actual_x"), 2), gridmap_y |-> GridErr(S("actual_y"), 3),
                  stroke_started |-> IF unsureStroke THEN HUGE ELSE F(0), stroke |-> IF unsureWrap THEN HUGE ELSE (eStr ++ (e("stroke_holdtime") ** (F(1) ++ (str // wrapAt)))),
                  actual_x |-> eAct ++ (ef ** FAbs(rx)), actual_y |-> eActY ++ (ef ** FAbs(ry)),
                  norm_speed1_slow |-> far("norm_speed1_slow", nspeed, eSpeed, f1, eF(T1, e("speed1_slowness"))),
                  norm_speed2_slow |-> far("norm_speed2_slow", nspeed, eSpeed, f2, eF(T2, e("speed2_slowness"))),
                  norm_dx_slow |-> far("norm_dx_slow", ndx, eSpeed, f3, eN3), norm_dy_slow |-> far("norm_dy_slow", ndy, eSpeed, f3, eN3),
                  direction_angle_dx |-> far("direction_angle_dx", zx, eDist ** zoom, F(1), eF4),
                  direction_angle_dy |-> far("direction_angle_dy", zy, eDist ** zoom, F(1), eF4),
                  direction_dx |-> IF unsureFlip THEN HUGE ELSE far("direction_dx", kx, eDist ** zoom, F(1), eF4),
                  direction_dy |-> IF unsureFlip THEN HUGE ELSE far("direction_dy", ky, eDist ** zoom, F(1), eF4),
                  custom_input |-> far("custom_input", v("custom_input"), e("custom_input"), F(1), FMin(1, SlowErr(Tc, e("custom_input_slowness"), F("0.1")) ++ "1e-6")),
                  dabs_per_basic_radius |-> e("dabs_per_basic_radius"), dabs_per_actual_radius |-> e("dabs_per_actual_radius"),
                  dabs_per_second |-> e("dabs_per_second"),
                  actual_radius |-> rad ** (FMin(HUGE, e("radius_logarithmic") ** 2) ++ "2e-6"),
                  actual_elliptical_dab_ratio |-> e("elliptical_dab_ratio"),
                  actual_elliptical_dab_angle |-> e("elliptical_dab_angle") ++ eRot ++ "1e-4" ] ]
\* angles that come out the same modulo n
Modulo == [ ascension |-> 360, barrel_rotation |-> 360, viewrotation |-> 360, actual_elliptical_dab_angle |-> 180 ]
StateNear(u, o, n) ==
  LET d == FAbs(u.s[n] -- FBits(o[n]))  t == u.t[n] ++ (FAbs(u.s[n]) ** "1e-6")
  IN \/ FLe(HUGE, t ** 2) \/ FLe(d, t)
     \/ (n \in {"gridmap_x", "gridmap_y"} /\ FLe(GRID -- d, t))
     \/ (n \in DOMAIN Modulo /\ FFinite(d) /\ LET m == Wrap(d, Modulo[n]) IN FLe(m, t) \/ FLe(F(Modulo[n]) -- m, t))

\* ---- a step that ends in a dab ------------------------------------------------------------
StepUpdate(b) ==
  LET ddab == IF FLt(0, b.call.moved) THEN F(1) -- b.call.moved ELSE F(1)
      td == Todo(b)
      frac == ddab // td
      ef == FMin(1, (TodoErr(b) // td) ** FMin(frac, 2)) ++ "3e-7"
  IN Update(b, frac, ef, ddab)
TailUpdate(b) == Update(b, F(1), F("3e-7"), Todo(b))
GridOf(u) == << UV(u, "gridmap_scale"), UV(u, "gridmap_scale_x"), UV(u, "gridmap_scale_y") >>

\* where the dab goes, relative to the brush, and how exactly that is known
Offsets(b, u, st, flip) ==
  LET V(s) == UV(u, s)
      St1(n) == FBits(st[n])
      mult == FExp(V("offset_multiplier"))
      adj == V("offset_angle_adj")
      dir == FAtan2Deg(St1("direction_angle_dy"), St1("direction_angle_dx")) -- 90
      vrot == St1("viewrotation")
      asc == St1("ascension") -- vrot
      part(n, ang, len) == IF FEq(len, 0) THEN << F(0), F(0) >> ELSE << FCosDeg(ang) ** len, FSinDeg(ang) ** len >>
      pos(s) == FMax(0, V(s))
      ps == << << V("offset_x"), V("offset_y") >>,
               part(1, dir ++ adj, V("offset_angle")),
               part(2, asc ++ adj, V("offset_angle_asc")),
               part(3, F(0) -- (vrot ++ adj), V("offset_angle_view")),
               part(4, dir ++ (adj ** flip), pos("offset_angle_2") ** flip),
               part(5, asc ++ (adj ** flip), pos("offset_angle_2_asc") ** flip),
               part(6, F(0) -- (vrot ++ adj), pos("offset_angle_2_view") ** flip) >>
      k == BaseRadius(b) ** mult
      O == { "offset_x", "offset_y", "offset_angle", "offset_angle_asc", "offset_angle_view", "offset_angle_2", "offset_angle_2_asc", "offset_angle_2_view" }
      OS == << "offset_x", "offset_y", "offset_angle", "offset_angle_asc", "offset_angle_view", "offset_angle_2", "offset_angle_2_asc", "offset_angle_2_view" >>
      size == Sum([ j \in 1..8 |-> FAbs(V(OS[j])) ])
      err == k ** ( Sum([ j \in 1..8 |-> UE(u, OS[j]) ]) ++ (size ** (UE(u, "offset_multiplier") ++ (UE(u, "offset_angle_adj") ** "0.018") ++ "1e-5")) )
  IN IF ~FFinite(mult) THEN << F(0), F(0), F(0) >>
     ELSE << FClamp(k ** Sum([ j \in 1..7 |-> ps[j][1] ]), -3240, 3240), FClamp(k ** Sum([ j \in 1..7 |-> ps[j][2] ]), -3240, 3240), err >>

Bits(s) == [ j \in DOMAIN s |-> FToBits(s[j]) ]
SmudgeStates == << "smudge_ra", "smudge_ga", "smudge_ba", "smudge_a", "last_getcolor_r", "last_getcolor_g", "last_getcolor_b", "last_getcolor_a", "last_getcolor_recentness" >>
BucketIndex(b, u) == IF b.nb = 0 THEN -1 ELSE LET r == FRound(FClamp(UV(u, "smudge_bucket"), -1, 1000)) IN IF r < 0 THEN 0 ELSE IF r > b.nb - 1 THEN b.nb - 1 ELSE r
Bucket(b, k) == IF k = -1 THEN [ j \in 1..9 |-> St(b, SmudgeStates[j]) ] ELSE [ j \in 1..9 |-> FBits(b.bk[k + 1][j]) ]
PutBucket(b, k, q) ==
  IF k = -1 THEN [b EXCEPT !.st = [ n \in DOMAIN b.st |-> IF \E j \in 1..9 : SmudgeStates[j] = n
                                                         THEN FToBits(q[CHOOSE j \in 1..9 : SmudgeStates[j] = n]) ELSE b.st[n] ]]
  ELSE [b EXCEPT !.bk[k + 1] = Bits(q)]
UseBucket(b, k) == IF k = -1 THEN b ELSE [b EXCEPT !.mn = IF @ = -1 \/ k < @ THEN k ELSE @, !.mx = IF k > @ THEN k ELSE @]

\* First half of preparing a dab, with the states st seen at the next observation:
\* everything up to the question for the canvas colour, if one is needed.
Prepare(b, u, st) ==
  LET V(s) == UV(u, s)  E(s) == UE(u, s)
      S(n) == FBits(st[n])
      op1 == FClamp(FMax(0, V("opaque")) ** V("opaque_multiply"), 0, 1)
      eOp1 == (E("opaque") ** FAbs(V("opaque_multiply"))) ++ (E("opaque_multiply") ** (FAbs(V("opaque")) ++ E("opaque"))) ++ "1e-6"
      lin == b.base["opaque_linearize"]
      n0 == FMax(1, (S("dabs_per_actual_radius") ++ S("dabs_per_basic_radius")) ** 2)
      dpp == F(1) ++ (lin ** (n0 -- 1))
      op2 == IF FEq(lin, 0) THEN op1 ELSE F(1) -- FPow(F(1) -- op1, F(1) // dpp)
      \* 1 - (1-a)^(1/n) is steep near a = 1
      hi == FMin(1, op1 ++ eOp1)  lo == FMax(0, op1 -- eOp1)
      eOp2 == IF FEq(lin, 0) THEN eOp1
              ELSE FAbs(FPow(F(1) -- lo, F(1) // dpp) -- FPow(F(1) -- hi, F(1) // dpp)) ++ "1e-5"
      off == Offsets(b, u, st, S("flip"))
      r0 == BaseRadius(b)
      byspeed == V("offset_by_speed")
      sx == IF FEq(byspeed, 0) THEN F(0) ELSE (S("norm_dx_slow") ** byspeed ** "0.1") // S("viewzoom")
      sy == IF FEq(byspeed, 0) THEN F(0) ELSE (S("norm_dy_slow") ** byspeed ** "0.1") // S("viewzoom")
      eS == ((FAbs(S("norm_dx_slow")) ++ FAbs(S("norm_dy_slow"))) ** (E("offset_by_speed") ++ (FAbs(byspeed) ** "2e-6")) ** "0.1") // S("viewzoom")
      rnd == Not0(V("offset_by_random"))
      amp == FMax(0, V("offset_by_random")) ** r0
      g1 == IF rnd THEN TLCEval(RngGauss(b.rng)) ELSE << F(0), b.rng >>
      g2 == IF rnd THEN TLCEval(RngGauss(g1[2])) ELSE << F(0), b.rng >>
      rbr == Not0(V("radius_by_random"))
      g3 == IF rbr THEN TLCEval(RngGauss(g2[2])) ELSE << F(0), g2[2] >>
      radR == FClamp(FExp(V("radius_logarithmic") ++ (g3[1] ** V("radius_by_random"))), RMIN, RMAX)
      rad == IF rbr THEN radR ELSE S("actual_radius")
      eRad == rad ** (E("radius_logarithmic") ++ (E("radius_by_random") ** 4) ++ "4e-6")
      corr == (S("actual_radius") // rad) ** (S("actual_radius") // rad)
      op3 == IF rbr /\ FLe(corr, 1) THEN op2 ** corr ELSE op2
      eOp3 == eOp2 ++ IF rbr THEN op2 ** FMin(corr, 1) ** ((F(2) ** eRad) // rad) ELSE F(0)
      x == S("actual_x") ++ off[1] ++ sx ++ (g1[1] ** amp)
      y == S("actual_y") ++ off[2] ++ sy ++ (g2[1] ** amp)
      eXY == off[3] ++ eS ++ (F(5) ** r0 ** E("offset_by_random")) ++ (F("2e-6") ** (F(1) ++ FAbs(x) ++ FAbs(y)))
      paint == V("paint_mode")
      legacy == FLe(paint, 0) /\ Constant(b, "paint_mode")
      len == V("smudge_length")
      smudging == FLt(len, 1) /\ (Not0(V("smudge")) \/ ~Constant(b, "smudge"))
      applies == FLt(0, V("smudge"))
      k == BucketIndex(b, u)
      q == Bucket(b, k)
      upd == FMax("0.01", len)
      rec == q[9] ** upd
      limit == FMin(1, FPow(upd ** "0.5", V("smudge_length_log")) ++ "1e-16")
      ask == smudging /\ FLt(rec, limit)
      unsure == \/ \E s \in {"offset_by_random", "radius_by_random"} : Unsure(b, u, s, 0)
      unsureSm == \/ Unsure(b, u, "smudge_length", 1) \/ Unsure(b, u, "smudge", 0)
                  \/ (smudging /\ ~FEq(rec, limit) /\ FNear(rec, limit, (E("smudge_length") ++ E("smudge_length_log")), "1e-5"))
                  \/ (b.nb > 0 /\ (smudging \/ applies) /\ LET fr == Wrap(V("smudge_bucket") ++ "0.5", 1) IN ~Constant(b, "smudge_bucket") /\ NearWrap(fr, 1, E("smudge_bucket") ++ "1e-6"))
      first == FEq(rec, 0)
      b1 == IF smudging THEN UseBucket(b, k) ELSE b
      b2 == IF smudging THEN PutBucket(b1, k, [q EXCEPT ![9] = IF ask THEN F(1) ELSE rec]) ELSE b1
  IN [ b |-> [b2 EXCEPT !.rng = TLCEval(g3[2])], x |-> x, y |-> y, eXY |-> eXY, rad |-> rad, eRad |-> eRad, op |-> op3, eOp |-> eOp3,
       legacy |-> legacy, smudging |-> smudging, ask |-> ask, first |-> first, upd |-> upd, k |-> k, applies |-> applies,
       askRad |-> FClamp(rad ** FExp(V("smudge_radius_log")), RMIN, RMAX), askPaint |-> IF legacy THEN F(-1) ELSE paint,
       unsure |-> unsure, unsureSm |-> unsureSm, eUpd |-> E("smudge_length") ]

\* The smudge colour takes in the canvas colour c (straight, with alpha)
Smudge(q, p, c, pm) ==
  LET fac == IF p.first THEN F(0) ELSE p.upd
      fold == fac  fnew == (F(1) -- fac) ** c[4]
  IN IF p.legacy THEN [ j \in 1..9 |-> IF j <= 3 THEN (fold ** q[j]) ++ (fnew ** c[j]) ELSE IF j = 4 THEN Unit((fold ** q[4]) ++ fnew) ELSE q[j] ]
     ELSE IF FLt("0.01", c[4]) THEN LET m == MixColours(q, c, fac, pm) IN [ j \in 1..9 |-> IF j <= 4 THEN m[j] ELSE q[j] ]
     ELSE [q EXCEPT ![4] = (q[4] ++ c[4]) // 2]

\* refused by the canvas's opacity (smudge_transparency)?
TooClear(u, c) == LET l == UV(u, "smudge_transparency")
                  IN (FLt(0, l) /\ FLt(c[4], l)) \/ (FLt(l, 0) /\ FLt(F(0) -- l, c[4]))
UnsureClear(b, u, c) == LET l == UV(u, "smudge_transparency")
                        IN ~Constant(b, "smudge_transparency") /\ (FLe(FAbs(FAbs(l) -- c[4]), UE(u, "smudge_transparency") ++ "1e-6") \/ FLe(FAbs(l), UE(u, "smudge_transparency")))

\* Second half: the brush p.b (smudge bucket up to date) -> the dab
Dab(b, u, p, st, c) ==
  LET V(s) == UV(u, s)  E(s) == UE(u, s)
      S(n) == FBits(st[n])
      pm == V("paint_mode")
      q0 == Bucket(b, p.k)
      col == IF p.ask THEN c ELSE << q0[5], q0[6], q0[7], q0[8] >>
      q1 == IF p.ask THEN [q0 EXCEPT ![5] = c[1], ![6] = c[2], ![7] = c[3], ![8] = c[4]] ELSE q0
      q2 == IF p.smudging THEN TLCEval(Smudge(q1, p, col, pm)) ELSE q1
      \* how the nine numbers get onto single precision in between does not matter
      bA == IF p.smudging THEN PutBucket(b, p.k, q2) ELSE b
      bB == IF p.applies THEN UseBucket(bA, p.k) ELSE bA
      own == HsvToRgb(<< b.base["color_h"], b.base["color_s"], b.base["color_v"] >>)
      sf == FMin(1, V("smudge"))
      ea0 == IF p.applies THEN Unit((F(1) -- sf) ++ (sf ** q2[4])) ELSE F(1)
      rgb0 == IF ~p.applies THEN own
              ELSE IF FLe(ea0, 0) THEN << F(1), F(0), F(0) >>
              ELSE IF p.legacy THEN [ j \in 1..3 |-> ((sf ** q2[j]) ++ ((F(1) -- sf) ** own[j])) // ea0 ]
              ELSE LET m == MixColours(q2, << own[1], own[2], own[3], F(1) >>, sf, pm) IN << m[1], m[2], m[3] >>
      ea == IF Not0(V("eraser")) THEN ea0 ** (F(1) -- V("eraser")) ELSE ea0
      hsv == Not0(V("change_color_h")) \/ Not0(V("change_color_hsv_s")) \/ Not0(V("change_color_v"))
      hsl == Not0(V("change_color_l")) \/ Not0(V("change_color_hsl_s"))
      lin == b.call.c.lin /\ (hsv \/ hsl)
      rgb1 == IF lin THEN [ j \in 1..3 |-> FPow(rgb0[j], F(1) // "2.2") ] ELSE rgb0
      rgb2 == IF ~hsv THEN rgb1
              ELSE LET h == RgbToHsv(rgb1)
                   IN HsvToRgb(<< h[1] ++ V("change_color_h"), h[2] ++ (h[2] ** h[3] ** V("change_color_hsv_s")), h[3] ++ V("change_color_v") >>)
      rgb3 == IF ~hsl THEN rgb2
              ELSE LET h == RgbToHsl(rgb2)  l == h[3] ++ V("change_color_l")
                   IN HslToRgb(<< h[1], h[2] ++ (h[2] ** FMin(FAbs(F(1) -- l), FAbs(l)) ** 2 ** V("change_color_hsl_s")), l >>)
      rgb4 == IF lin THEN [ j \in 1..3 |-> FPow(rgb3[j], "2.2") ] ELSE rgb3
      eCol == F("2e-4") ++ (Sum([ j \in 1..5 |-> E(<< "change_color_h", "change_color_hsv_s", "change_color_v", "change_color_l", "change_color_hsl_s" >>[j]) ]) ** 12)
                ++ ((E("smudge") ** 4) // FMax(ea0, "0.01")) ++ (E("paint_mode") ** 4) ++ (p.eUpd ** 4)
      hard0 == Unit(V("hardness"))
      fade == p.rad ** (F(1) -- hard0)
      aa == V("anti_aliasing")
      soft == FLt(fade, aa)
      opt == p.rad -- (fade // 2)
      hard1 == IF soft THEN (opt -- (aa // 2)) // (opt ++ (aa // 2)) ELSE hard0
      rad1 == IF soft THEN aa // (F(1) -- hard1) ELSE p.rad
      eHard == E("hardness") ++ (E("anti_aliasing") // FMax(rad1, "0.1")) ++ (p.eRad // FMax(p.rad, "0.1")) ++ "1e-5"
      eRad1 == p.eRad ++ (E("hardness") ** p.rad) ++ E("anti_aliasing") ++ (rad1 ** "1e-5") ++ (IF soft THEN (F("4e-7") ** rad1 ** rad1) // FMax(aa, "0.001") ELSE F(0))
      snap == V("snap_to_pixel")
      snaps == FLt(0, snap)
      Snap(z) == FFloor(z) ++ "0.5"
      unsureSnap == snaps /\ (NearWrap(p.x, 1, p.eXY) \/ NearWrap(p.y, 1, p.eXY))
      unsureSnapR == snaps /\ NearWrap(rad1 ** 2 ++ "0.5", 1, eRad1 ** 4)
      sr0 == FMax("0.5", FFloor(rad1 ** 2 ++ "0.5") // 2)
      sr == IF FLt("0.9999", snap) THEN sr0 -- "0.0001" ELSE sr0
      eSn == E("snap_to_pixel")
      x == IF snaps THEN p.x ++ ((Snap(p.x) -- p.x) ** snap) ELSE p.x
      y == IF snaps THEN p.y ++ ((Snap(p.y) -- p.y) ** snap) ELSE p.y
      rad == IF snaps THEN rad1 ++ ((sr -- rad1) ** snap) ELSE rad1
  IN [ b |-> bB, q |-> q2, ea |-> ea, eEa |-> E("smudge") ++ (E("eraser") ** 1) ++ "1e-4",
       x |-> x, y |-> y, eXY |-> IF unsureSnap THEN F(1) ++ p.eXY ELSE p.eXY ++ eSn,
       rad |-> rad, eRad |-> IF unsureSnapR THEN F("0.6") ++ eRad1 ELSE eRad1 ++ (eSn ** (F(1) ++ FAbs(sr -- rad1))) ++ (IF Constant(b, "snap_to_pixel") THEN F(0) ELSE F("2e-4")),
       rgb |-> rgb4, eCol |-> eCol, op |-> p.op, eOp |-> p.eOp ++ "1e-5", hard |-> hard1, eHard |-> eHard,
       soft |-> Unit(V("softness")), eSoft |-> E("softness") ++ "1e-6",
       thru |-> << "lock_alpha", "colorize", "posterize", "posterize_num", "paint_mode" >> ]

\* the dab is drawn (or not): painted says whether the surface took it
AfterDab(b, u, painted) ==
  LET n == RngNext(b.rng)
  IN [b EXCEPT !.rand = n[1], !.rng = TLCEval(n[2]), !.grid = GridOf(u), !.prep = [none |-> TRUE],
               !.call = [b.call EXCEPT !.ph = "run", !.moved = F(0), !.left = @ -- F32(u.dt), !.edt = @ ++ (F("2e-7") ** b.call.dt),
                                       !.painted = IF painted THEN "yes" ELSE IF @ = "unknown" THEN "no" ELSE @]]

\* ---- the end of the event -----------------------------------------------------------------
\* possible results: pairs <<stroke is to be split, total, idle>>
Split(b, dp, exactDp) ==
  LET c == b.call
      painted == IF c.painted # "unknown" THEN c.painted
                 ELSE IF FLt(0, b.idle) \/ FEq(b.total, 0) THEN "no" ELSE "yes"
      tot == b.total ++ c.dt  idl == b.idle ++ c.dt
      Over(v, l) == { r \in BOOLEAN : r = FLt(l, v) \/ FNear(v, l, "1e-5", 0) }
      limit == IF painted = "yes" THEN F(4) ++ (F(3) ** c.c.p) ELSE F("0.9") ++ (F(5) ** c.c.p)
  IN IF painted = "yes"
     THEN { << r /\ s, tot, F(0) >> : r \in Over(tot, limit), s \in { s \in BOOLEAN : s = FLe(0, dp) \/ (~exactDp /\ FNear(dp, 0, "2e-6", 0)) } }
     ELSE IF FEq(b.total, 0) THEN { << r, b.total, idl >> : r \in Over(idl, F(1)) }
     ELSE { << r, b.total, idl >> : r \in Over(b.total ++ idl, limit) }
AfterTail(b, u, sp) ==
  LET pd == b.call.moved ++ Todo(b)
  IN Done([b EXCEPT !.grid = GridOf(u), !.total = sp[2], !.idle = sp[3],
                    !.st = [ n \in DOMAIN b.st |-> IF n = "partial_dabs" THEN FToBits(pd) ELSE IF n \in DOMAIN u.s THEN FToBits(u.s[n]) ELSE b.st[n] ]], sp[1])
TailDone(b) ==
  LET u == TLCEval(TailUpdate(b))
  IN { [AfterTail(b, u, sp) EXCEPT !.prep = [tail |-> u]] : sp \in Split(b, u.dp, FEq(b.call.c.p, St(b, "pressure"))) }
\* records in which the main call runs, after the first of two calls ended without a trace
Onward(b) == IF CanTail(b) /\ Len(b.pend) > 1 THEN UNION { Begin(d) : d \in TailDone(b) } ELSE {}
=============================================================================
