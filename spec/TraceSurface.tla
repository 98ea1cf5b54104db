---------------------------- MODULE TraceSurface ----------------------------
(* Checks traces of the real library against TiledSurface.  The trace driver *)
(* (harness/drv_surface.c) logs every public call with its arguments and     *)
(* what could be observed; each line must be a step of the specification.    *)
(* CHECKS selects which observations are judged:                             *)
(*   px     stored pixels            pick   picked colours, drawn/not drawn  *)
(*   rects  changed rectangles       inv    no invalid pixel anywhere        *)
(*   rq     tile request protocol    life   destructor runs exactly once     *)
EXTENDS TiledSurface, Json, IOUtils

CONSTANT CHECKS
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S
vars == << i, S >>

No == [kind |-> "none"]
e == Trace[i]
A(k) == e.a[k]
k0 == A(1)
s0 == S[k0]
Upd(s) == S' = [S EXCEPT ![k0] = s]
Dab == [ x |-> A(2), y |-> A(3), rad |-> A(4), r |-> Clamp(A(5), 0, ONE), g |-> Clamp(A(6), 0, ONE),
         b |-> Clamp(A(7), 0, ONE), ca |-> Clamp(A(8), 0, ONE), op |-> Clamp(A(9), 0, ONE),
         hard |-> Clamp(A(10), 0, ONE), soft |-> Clamp(A(11), 0, ONE), asp |-> Max(16, A(12)),
         ang |-> 125 * A(13), la |-> Clamp(A(14), 0, ONE), col |-> Clamp(A(15), 0, ONE),
         pos |-> Clamp(A(16), 0, ONE), pn |-> Clamp(A(17), 1, 128), paint |-> Clamp(A(18), 0, ONE), fz |-> 0 ]
Pairs(from) == [ j \in 1..((Len(e.a) - from + 1) \div 2) |-> << A(from + 2*j - 2), A(from + 2*j - 1) >> ]
On(c) == c \in CHECKS
Holds(b) == b = TRUE        \* a condition, not a choice between next states

\* ---- tile requests ---------------------------------------------------------
\* [event, tx, ty, surface]: 1 writable tile asked for, 2 read-only tile asked
\* for, 4/5 the same and refused, 3 given back, 6 refused request closed,
\* 9 given back wrongly (other tile, or written to although read-only)
RECURSIVE Wellformed(_, _)
Wellformed(rq, open) ==      \* open: set of <<tx, ty, mode>> currently out
  IF rq = << >> THEN open = {}
  ELSE LET h == Head(rq)  t == << h[2], h[3] >>
           mine == { o \in open : << o[1], o[2] >> = t }
       IN /\ h[4] = k0
          /\ CASE h[1] = 1 -> mine = {} /\ Wellformed(Tail(rq), open \cup { << h[2], h[3], 1 >> })
               [] h[1] = 2 -> mine = {} /\ Wellformed(Tail(rq), open \cup { << h[2], h[3], 2 >> })
               [] h[1] = 3 -> Cardinality(mine) = 1 /\ (CHOOSE o \in mine : TRUE)[3] \in {1, 2} /\ Wellformed(Tail(rq), open \ mine)
               [] h[1] = 4 -> mine = {} /\ Wellformed(Tail(rq), open \cup { << h[2], h[3], 4 >> })
               [] h[1] = 5 -> mine = {} /\ Wellformed(Tail(rq), open \cup { << h[2], h[3], 5 >> })
               [] h[1] = 6 -> Cardinality(mine) = 1 /\ (CHOOSE o \in mine : TRUE)[3] \in {4, 5} /\ Wellformed(Tail(rq), open \ mine)
               [] OTHER -> FALSE
Asked(modes) == { << e.rq[j][2], e.rq[j][3] >> : j \in { j \in DOMAIN e.rq : e.rq[j][1] \in modes } }
Times(t, modes) == Cardinality({ j \in DOMAIN e.rq : e.rq[j][1] \in modes /\ << e.rq[j][2], e.rq[j][3] >> = t })
\* T tiles with queued dabs among those carried out now, R tiles to be read
Requests(T, R) ==
  On("rq") =>
    /\ Wellformed(e.rq, {})
    /\ s0.exact => /\ Asked({1, 4}) = T
                   /\ \A t \in T : Times(t, {1, 4}) = 1
                   /\ Asked({2, 5}) = R
    /\ \A t \in Asked({2, 5}) : Times(t, {2, 5}) = 1
KnowsRequests == s0.kind = "open"

\* ---- picked colours ----------------------------------------------------------
Close(x, y, tol) == Abs(x - y) <= tol
Straight(c, al) == (c * 32768 + al \div 2) \div al
\* colour c (straight, 1/32768) read where every pixel has the value v
PickOK(v, c, mode) ==
  /\ Close(c[4], v[4], 24)
  /\ IF v[4] = 0 THEN mode < 0 => (c[1] = 0 /\ c[2] = 32768 /\ c[3] = 0)
     ELSE \A j \in 1..3 : Close(c[j], Straight(v[j], v[4]), 40 + (65536 * 2) \div v[4] + (IF mode < 0 THEN 0 ELSE 200))
SureAlpha == << 0, 0, 0, 0 >>

\* ---- changed rectangles --------------------------------------------------------
RectBox(r) == << r[1], r[2], r[1] + r[3] - 1, r[2] + r[4] - 1 >>
Within(b, c, m) == b[1] >= c[1] - m /\ b[2] >= c[2] - m /\ b[3] <= c[3] + m /\ b[4] <= c[4] + m
JoinAll(bs) == FoldLeft(Join, Head(bs), Tail(bs))
RectsOK(cap) ==
  LET bs == s0.boxes  n == Len(bs)
      all == IF n = 0 THEN << 0, 0, 0, 0 >> ELSE JoinAll(bs)
      m == IF s0.exact THEN 0 ELSE 1
      rs == [ j \in DOMAIN e.rects |-> RectBox(e.rects[j]) ]
  IN /\ e.n = Min(cap, n)                         \* never more than asked for
     /\ Len(e.rects) = e.n
     /\ e.wrote = 0                               \* and nothing else is written
     /\ cap > 0 => e.diff[2] = 0                  \* every changed pixel is inside
     /\ \A j \in DOMAIN rs : e.rects[j][3] > 0 /\ e.rects[j][4] > 0 /\ Within(rs[j], all, m)
     /\ cap >= n => /\ \A j \in DOMAIN rs : \E c \in DOMAIN bs : Within(rs[j], bs[c], m) /\ Within(bs[c], rs[j], m)
                    /\ \A c \in DOMAIN bs : \E j \in DOMAIN rs : Within(rs[j], bs[c], m) /\ Within(bs[c], rs[j], m)
     /\ (cap > 0 /\ n > cap) => \A c \in DOMAIN bs : \E j \in DOMAIN rs : Within(bs[c], rs[j], m)

\* ---- one trace line = one step --------------------------------------------------
Seen(ps, vs) == \A j \in DOMAIN ps : \A q \in DOMAIN s0.probes :
                  s0.probes[q] = ps[j] => TRUE
PixelsOK(s, ps, vs) ==
  On("px") => \A q \in DOMAIN s.probes : \A j \in DOMAIN ps :
     s.probes[q] = ps[j] => Allows(s.img[q], vs[j])

Reset == e.op = "reset" /\ S' = [k \in 0..3 |-> No]
New   == e.op = "new" /\ Upd(NewSurface(IF A(2) = 1 THEN "fixed" ELSE IF A(2) = 2 THEN "gegl" ELSE "open", A(3), A(4)))
Probes == e.op = "probes" /\ Upd(Track(s0, Pairs(2)))
Discs  == e.op = "discs" /\ Upd(TrackDisc(s0, [ j \in 1..((Len(e.a) - 1) \div 3) |-> << A(3*j-1), A(3*j), A(3*j+1) >> ]))
Fill  == e.op = "fill" /\ Upd(FillTile(s0, << A(2), A(3) >>, << A(4), A(5), A(6), A(7) >>))
Clear == e.op = "clear" /\ Upd(FillAll(s0, << A(2), A(3), A(4), A(5) >>))
SetPx == e.op = "set" /\ Upd(SetPixel(s0, << A(2), A(3) >>, << A(4), A(5), A(6), A(7) >>))
TBegin == e.op = "begin" /\ (On("rq") => e.rq = << >>) /\ Upd(Begin(s0))
TSym  == e.op = "sym" /\ Upd(SetSymmetry(s0, A(2) # 0, A(3), A(4), 125 * A(5), A(6), A(7)))
TDab  == /\ e.op = "dab"
         /\ (On("pick") => e.r = (IF Accepted(Dab) THEN 1 ELSE 0))
         /\ (On("rq") => Wellformed(e.rq, {}))
         /\ Upd(Draw(s0, Dab))
TPick == /\ e.op = "pick"
         /\ LET T == PickTiles(A(2), A(3), A(4))  s1 == Pick(s0, A(2), A(3), A(4))
            IN /\ Holds(KnowsRequests => Requests(T \cap Pending(s0), T))
               /\ Holds(On("pick") =>
                    /\ e.c[4] \in 0..32768 /\ \A j \in 1..3 : e.c[j] \in 0..32768
                    /\ \A q \in DOMAIN s0.patches :
                        LET p == s0.patches[q]
                        IN (8*p[1] + 4 = A(2) /\ 8*p[2] + 4 = A(3) /\ Max(A(4), 8) + 8 <= p[3])
                           => (s1.col[q] = { ANY } \/ \E v \in s1.col[q] : PickOK(v, e.c, A(5))))
               /\ Upd(s1)
TAlpha == /\ e.op = "alpha"
          /\ LET T == PickTiles(A(2), A(3), A(4))  s1 == Pick(s0, A(2), A(3), A(4))
             IN /\ Holds(KnowsRequests => Requests(T \cap Pending(s0), T))
                /\ Holds(On("pick") =>
                    /\ e.c \in 0..32768
                    /\ \A q \in DOMAIN s0.patches :
                        LET p == s0.patches[q]
                        IN (8*p[1] + 4 = A(2) /\ 8*p[2] + 4 = A(3) /\ Max(A(4), 8) + 8 <= p[3])
                           => (s1.col[q] = { ANY } \/ \E v \in s1.col[q] : Close(e.c, v[4], 24)))
                /\ Upd(s1)
TEnd  == /\ e.op = "end"
         /\ LET s1 == End(s0)  ps == Pairs(3)
            IN /\ Holds(KnowsRequests => Requests(Pending(s0), {}))
               /\ Holds((On("rects") /\ A(2) >= 0) => RectsOK(A(2)))
               /\ On("inv") => e.inv = 0
               /\ Holds(PixelsOK(s1, ps, e.px))
               /\ Upd(See(s1, ps, e.px))
TPeek == /\ e.op = "peek"
         /\ Holds(PixelsOK(s0, Pairs(2), e.px))
         /\ Upd(See(s0, Pairs(2), e.px))
TRow  == e.op = "row" /\ UNCHANGED S
TFail == e.op = "fail" /\ Upd(Refuse(s0, << A(2), A(3) >>, A(4)))

Init == i = 1 /\ S = [k \in 0..3 |-> No]
Next == /\ i <= Len(Trace)
        /\ i' = i + 1
        /\ \/ Reset \/ New \/ Probes \/ Discs \/ Fill \/ Clear \/ SetPx \/ TBegin \/ TSym \/ TDab
           \/ TPick \/ TAlpha \/ TEnd \/ TPeek \/ TRow \/ TFail
Spec == Init /\ [][Next]_vars
Accepts == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
