------------------------------ MODULE TraceBrush ------------------------------
(* Checks traces of the real brush engine (harness/drv_brush.c) against Brush.*)
(* CHECKS selects what is judged:                                             *)
(*   reg    settings, dynamics and state registers, the loader                *)
(*   track  interpolated pen values and the filtered position                 *)
(*   filt   speeds, directions, stroke, custom input, view, grid map          *)
(*   dyn    radius, ellipse and dab density derived from the settings         *)
(*   space  how many dabs an event makes and when they happen                 *)
(*   pos, size, color, opac, thru   the arguments of a dab                    *)
(*   smudge picked colours, smudge buckets     bucket  which buckets are used *)
(*   split  return value and painting time     reset  the state after a reset *)
EXTENDS Brush, Json, IOUtils
CONSTANT CHECKS
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, B
vars == << i, B >>
e == Trace[i]
k == e.k
b0 == B[k]
On(c) == c \in CHECKS
Holds(x) == x = TRUE
Put(b) == B' = [B EXCEPT ![k] = b]
Fl(s) == [ j \in DOMAIN s |-> FBits(s[j]) ]
A(j) == FBits(e.a[j])
\* take over what the library says its state is
Adopt(b) == [b EXCEPT !.st = e.st, !.bk = e.bk, !.mn = e.mn, !.mx = e.mx]
Unjudged == TLCSet(1, TLCGet(1) + 1)
Lost(b) == Unjudged /\ Put([b EXCEPT !.lost = TRUE])
NearB(x, y, abs, rel) == FNear(FBits(x), FBits(y), abs, rel)

TrackNames == {"x", "y", "actual_x", "actual_y", "pressure", "declination", "declinationx", "declinationy", "ascension", "barrel_rotation"}
FiltNames == {"viewzoom", "viewrotation", "gridmap_x", "gridmap_y", "stroke", "stroke_started", "norm_speed1_slow", "norm_speed2_slow",
              "norm_dx_slow", "norm_dy_slow", "direction_dx", "direction_dy", "direction_angle_dx", "direction_angle_dy", "custom_input"}
DynNames == {"actual_radius", "actual_elliptical_dab_ratio", "actual_elliptical_dab_angle", "dabs_per_basic_radius", "dabs_per_actual_radius", "dabs_per_second"}
Judged == (IF On("track") THEN TrackNames ELSE {}) \cup (IF On("filt") THEN FiltNames ELSE {}) \cup (IF On("dyn") THEN DynNames ELSE {})
StatesOK(u) == \A n \in Judged : StateNear(u, e.st, n)
ColourNear(s, t, n, tl) == \A j \in 1..n : FNear(FBits(s[j]), FBits(t[j]), tl, tl)
\* ---- set-up ----------------------------------------------------------------------
Reset == e.op = "reset" /\ B' = [ j \in 0..3 |-> NewBrush(0) ]
New == e.op = "new" /\ LET b == NewBrush(e.n)
                       IN /\ Holds((On("reg") \/ On("reset")) => e.st = b.st /\ e.bk = SubSeq(b.bk, 1, Len(e.bk)) /\ e.mn = -1 /\ e.mx = -1)
                          /\ Put(Adopt(b))
Set == e.op = "set" /\ Put(SetBase(b0, e.s, FBits(e.v)))
Map == e.op = "map" /\ Put(SetMap(b0, e.s, e.i, Fl(e.p)))
Get == /\ e.op = "get"
       /\ Holds(On("reg") => /\ FEq(FBits(e.v), F32(b0.base[e.s]))
                             /\ e.const = (IF Constant(b0, e.s) THEN 1 ELSE 0)
                             /\ e.used = UsedN(b0, e.s)
                             /\ e.i # "" => LET p == Points(b0, e.s, e.i) IN Len(p) = Len(e.p) /\ \A j \in DOMAIN p : FEq(FBits(e.p[j]), F32(p[j])))
       /\ UNCHANGED B
Default == e.op = "defaults" /\ Put(Defaults(b0))
\* load: what it should return and set is the following line
Load == e.op = "load" /\ Put([b0 EXCEPT !.prep = [r |-> e.r]])
\* w = [r: accepted, s: list of <<setting, value, list of <<input, points>>>>] (numbers as strings)
Apply(b, w) == FoldLeft(LAMBDA x, t : FoldLeft(LAMBDA y, m : SetMap(y, t[1], m[1], [ j \in DOMAIN m[2] |-> F32(m[2][j]) ]), SetBase(x, t[1], F32(t[2])), t[3]), b, w.s)
Want == /\ e.op = "want"
        /\ Holds(On("reg") => b0.prep.r = e.w.r)
        /\ Put(Apply([b0 EXCEPT !.prep = [none |-> TRUE]], e.w))
ResetB == e.op = "resetb" /\ Put([b0 EXCEPT !.reset = TRUE])
Stroke == e.op = "stroke" /\ Put([b0 EXCEPT !.total = F(0), !.idle = F(0)])
Canvas == e.op = "canvas" /\ UNCHANGED B
SetBucket ==
  /\ e.op = "bucket"
  /\ LET ok == e.i >= 0 /\ e.i < b0.nb
         b == IF ok THEN UseBucket([b0 EXCEPT !.bk[e.i + 1] = e.v], e.i) ELSE b0
     IN /\ Holds((On("bucket") /\ ~b0.lost) => /\ e.r = (IF ok THEN 1 ELSE 0) /\ e.mn = b.mn /\ e.mx = b.mx
                                 /\ e.bk = SubSeq(b.bk, 1, Len(e.bk)) /\ e.st = b.st)
        /\ Put(b)
GetBucket ==
  /\ e.op = "getbucket"
  /\ Holds((On("bucket") /\ ~b0.lost) => IF e.i >= 0 /\ e.i < b0.nb THEN e.r = 1 /\ e.v = b0.bk[e.i + 1] ELSE e.r = 0 /\ e.v = ZeroBucket)
  /\ UNCHANGED B
SetSt == e.op = "setst" /\ Holds((On("reg") /\ ~b0.lost) => e.st = [b0.st EXCEPT ![e.s] = e.v]) /\ Put(Adopt(b0))

\* ---- motion events -----------------------------------------------------------------
To == /\ e.op = "to"
      /\ IF b0.lost THEN Unjudged /\ UNCHANGED B
         ELSE \E b \in StrokeTo(b0, Fix(A(1), A(2), A(3), A(4), A(5), A(6), A(7), A(8), A(9), e.lin = 1)) : Put(b)

\* a step that ended without a dab because of the colour it picked
TooClearNow(b) == LET p == b.prep IN TooClear(p.u, p.c)
MayEnd(b) == TooClearNow(b) \/ UnsureClear(b, b.prep.u, b.prep.c)
MayDraw(b) == ~TooClearNow(b) \/ UnsureClear(b, b.prep.u, b.prep.c)
Settled(b) == IF b.call.ph = "pick" THEN IF MayEnd(b) THEN { AfterDab(b, b.prep.u, FALSE) } ELSE {} ELSE { b }
\* the records from which the next dab can follow, or the event can end
Steps(b) == UNION { (IF CanStep(d) THEN { d } ELSE {}) \cup { f \in Onward(d) : CanStep(f) } : d \in Settled(b) }
Ends(b) == UNION { (IF d.call.ph = "done" \/ (CanTail(d) /\ Len(d.pend) = 1) THEN { d } ELSE {})
                   \cup { f \in Onward(d) : f.call.ph = "done" \/ CanTail(f) } : d \in Settled(b) }
\* the library's states, but the smudge colour of the specification
WithStates(b) == [b EXCEPT !.st = [ n \in DOMAIN b.st |-> IF \E j \in 1..9 : SmudgeStates[j] = n THEN b.st[n] ELSE e.st[n] ]]
Flipped(b) == [b EXCEPT !.st["flip"] = FToBits(F(0) -- St(b, "flip"))]
Touched(p) == IF p.smudging THEN { p.k + 1 } ELSE {}
\* b: the brush as it should be now, before: as it was
BucketsOK(b, before, touched, tl) ==
  /\ On("bucket") => /\ e.mn = b.mn /\ e.mx = b.mx
                     /\ \A j \in DOMAIN e.bk : j \notin touched => e.bk[j] = before.bk[j]
                     /\ 0 \notin touched => \A j \in 1..9 : e.st[SmudgeStates[j]] = before.st[SmudgeStates[j]]
  /\ On("smudge") => \A j \in touched : IF j = 0 THEN \A q \in 1..9 : NearB(e.st[SmudgeStates[q]], b.st[SmudgeStates[q]], tl, tl)
                                        ELSE j \in DOMAIN e.bk => ColourNear(e.bk[j], b.bk[j], 9, tl)
SmTol(p) == IF FEq(p.eUpd, 0) THEN F("5e-4") ELSE F("5e-4") ++ (p.eUpd ** 4)
PickOK(p) ==
  On("smudge") => /\ FLe(FAbs(A(1) -- p.x), (IF FLt(p.x, "0.1") THEN F("1.5") ELSE F("0.5")) ++ "1e-3" ++ p.eXY)
                  /\ FLe(FAbs(A(2) -- p.y), (IF FLt(p.y, "0.1") THEN F("1.5") ELSE F("0.5")) ++ "1e-3" ++ p.eXY)
                  /\ FNear(A(3), p.askRad, p.eRad ** 6, "1e-3")
                  /\ FNear(A(4), p.askPaint, "1e-4", "1e-4")
Pick ==
  /\ e.op = "pick"
  /\ IF b0.lost THEN Unjudged /\ UNCHANGED B
     ELSE IF Steps(b0) = {} THEN ~On("space") /\ Lost(b0)
     ELSE \E b \in Steps(b0) :
       LET u == TLCEval(StepUpdate(b))
           f == Flipped(b)
           p == TLCEval(Prepare(WithStates(f), u, e.st))
       IN /\ Holds(On("space") => e.st.flip = f.st.flip)
          /\ Holds(StatesOK(u))
          /\ IF p.unsure \/ p.unsureSm THEN Lost(b)
             ELSE IF ~p.ask THEN ~On("smudge") /\ Lost(b)
             ELSE /\ Holds(PickOK(p)) /\ Holds(BucketsOK(p.b, b, Touched(p), SmTol(p)))
                  /\ Put([Adopt(p.b) EXCEPT !.prep = [u |-> u, p |-> p, c |-> Fl(e.c)], !.call.ph = "pick"])
DabOK(d, u, b) ==
  /\ On("pos") => FLe(FAbs(A(1) -- d.x), d.eXY) /\ FLe(FAbs(A(2) -- d.y), d.eXY)
  /\ On("size") => /\ FNear(A(3), d.rad, d.eRad, "1e-4") /\ FNear(A(8), d.hard, d.eHard, "1e-5") /\ FNear(A(9), d.soft, d.eSoft, "1e-6")
                   /\ FNear(A(11), FBits(e.st.actual_elliptical_dab_ratio), "1e-6", "1e-6")
                   /\ FNear(A(12), FBits(e.st.actual_elliptical_dab_angle), "1e-4", "1e-6")
  /\ On("color") => \A j \in 1..3 : FNear(A(3 + j), d.rgb[j], d.eCol ** 4, "1e-3")
  /\ On("color") => FNear(A(10), d.ea, d.eEa, "1e-4")
  /\ On("opac") => FNear(A(7), d.op, d.eOp, "1e-4")
  /\ On("thru") => \A j \in 1..5 : FNear(A(12 + j), UV(u, d.thru[j]), UE(u, d.thru[j]) ++ "1e-6", "1e-6")
\* b: before drawing, bucket values as before; p prepared; c the colour picked, if any
DrawOn(b, before, u, p, c) ==
  LET d == TLCEval(Dab(b, u, p, e.st, c))
  IN /\ Holds(DabOK(d, u, b))
     /\ Holds(BucketsOK(d.b, before, Touched(p), SmTol(p)))
     /\ Put(AfterDab(Adopt(d.b), u, e.r = 1))
DrawNow ==
  IF Steps(b0) = {} THEN ~On("space") /\ Lost(b0)
  ELSE \E b \in Steps(b0) :
       LET u == TLCEval(StepUpdate(b))
           f == Flipped(b)
           p == TLCEval(Prepare(WithStates(f), u, e.st))
       IN /\ Holds(On("space") => e.st.flip = f.st.flip)
          /\ Holds(StatesOK(u))
          /\ IF p.unsure \/ p.unsureSm THEN Lost(b)
             ELSE IF p.ask THEN ~On("smudge") /\ Lost(b)
             ELSE DrawOn(p.b, f, u, p, << >>)
TDab ==
  /\ e.op = "dab"
  /\ IF b0.lost THEN Unjudged /\ UNCHANGED B
     ELSE \/ Holds(b0.call.ph = "pick" /\ MayDraw(b0)) /\ DrawOn([b0 EXCEPT !.call.ph = "run"], b0, b0.prep.u, b0.prep.p, b0.prep.c)
          \/ Holds(b0.call.ph # "pick" \/ MayEnd(b0)) /\ DrawNow
          \/ Holds(b0.call.ph = "pick" /\ ~MayDraw(b0)) /\ ~On("smudge") /\ Lost(b0)
\* an event without a dab leaves the states alone, or sets them outright; when only the second of two
\* calls was such, they are those the first one left
DoneStates(f) == \A n \in DOMAIN f.st : IF "tail" \in DOMAIN f.prep THEN n \in DOMAIN f.prep.tail.s => StateNear(f.prep.tail, e.st, n)
                                        ELSE IF n \in {"x", "y", "actual_x", "actual_y"} THEN NearB(e.st[n], f.st[n], "1e-4", "1e-6")
                                        ELSE NearB(e.st[n], f.st[n], "1e-5", "1e-5")
Result(f, r) == On("split") => /\ e.r = (IF r THEN 1 ELSE 0) /\ FNear(FBits(e.t), f.total, "1e-5", "1e-5")
Ret ==
  /\ e.op = "ret"
  /\ IF b0.lost THEN Unjudged /\ UNCHANGED B
     ELSE IF Ends(b0) = {} THEN ~On("space") /\ Lost(b0)
     ELSE \E b \in Ends(b0) :
       IF b.call.ph = "done"
       THEN /\ Holds(On("reset") => DoneStates(b) /\ e.bk = SubSeq(b.bk, 1, Len(e.bk)) /\ e.mn = b.mn /\ e.mx = b.mx)
            /\ Holds(Result(b, b.call.res))
            /\ Put([Adopt(b) EXCEPT !.call = [ph |-> "idle"], !.pend = << >>, !.prep = [none |-> TRUE]])
       ELSE LET u == TLCEval(TailUpdate(b))  same == FEq(b.call.c.p, St(b, "pressure"))
            IN /\ Holds(StatesOK(u))
               /\ Holds(On("space") => /\ FLe(FAbs(FBits(e.st.partial_dabs) -- (b.call.moved ++ Todo(b))), TodoErr(b) ++ "1e-5")
                                       /\ e.st.flip = b.st.flip)
               /\ Holds(BucketsOK(b, b, {}, F(0)))
               /\ \E sp \in Split(b, u.dp, same) :
                    LET f == AfterTail(b, u, sp)
                    IN /\ Holds(Result(f, sp[1]))
                       /\ Put([Adopt(f) EXCEPT !.call = [ph |-> "idle"], !.pend = << >>])
Init == i = 1 /\ TLCSet(1, 0) /\ B = [ j \in 0..3 |-> NewBrush(0) ]
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \/ Reset \/ New \/ Set \/ Map \/ Get \/ Default \/ Load \/ Want \/ ResetB \/ Stroke \/ Canvas
           \/ SetBucket \/ GetBucket \/ SetSt \/ To \/ Pick \/ TDab \/ Ret
Spec == Init /\ [][Next]_vars
Accepts == PrintT("UNJUDGED " \o ToString(TLCGet(1))) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
