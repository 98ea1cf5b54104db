---------------------------- MODULE TiledSurface ----------------------------
(* The tiled painting surface.  A surface is a record, and every call is an  *)
(* operator from a surface (and arguments) to the surface it leaves behind,  *)
(* so that several surfaces can be put side by side.                         *)
(*                                                                           *)
(*  kind     "open": the application's own tile store, "fixed": a w x h      *)
(*           canvas whose outside swallows paint                             *)
(*  probes   the pixels <<x, y>> the specification keeps track of            *)
(*  img      per probe, the set of values the stored pixel may have (usually *)
(*           one; a rim pixel of a dab has two)                              *)
(*  patches  discs <<x, y, s>> around a pixel's centre, radius s/8 px ...    *)
(*  col      ... and the values their (uniform) pixels have or will have     *)
(*           once everything drawn has reached the tiles                     *)
(*  pend     tile -> dabs drawn but not yet in the tile, oldest first        *)
(*  boxes    copy number -> bounding box of that copy's dabs in this batch   *)
(*  active sym symPend   symmetry; symPend takes effect at the next batch    *)
(*  fail     set of <<tx, ty, mode>>: tiles the store refuses to hand out    *)
(*           for writing (mode 1), reading (2) or both (3)                   *)
EXTENDS Symmetry, Blend, TLC, FiniteSets, SequencesExt

ANY == << -1, -1, -1, -1 >>               \* pixel value the model cannot tell
CAP == 48
Norm(V) == IF ANY \in V \/ Cardinality(V) > CAP THEN {ANY} ELSE V
Nowhere == << >>

NewSurface(kind, w, h) ==
  [ kind |-> kind, w |-> w, h |-> h, probes |-> << >>, img |-> << >>,
    patches |-> << >>, col |-> << >>, pend |-> Nowhere, boxes |-> << >>,
    active |-> FALSE, sym |-> DefaultSym, symPend |-> DefaultSym, fail |-> {}, n |-> 0, exact |-> TRUE ]

\* ---- what one dab does ---------------------------------------------------
Accepted(d) == d.rad * 10 >= 8 /\ d.hard > 0 /\ d.soft < ONE /\ d.op > 0
\* shapes the model predicts exactly: hard edge, big enough not to be smoothed
Crisp(d) == d.hard = ONE /\ d.rad >= 24 /\ d.paint = 0
Step(d, p, s, V) ==
  IF V = {ANY} THEN V
  ELSE LET c == IF d.fz > 0 \/ d.rad < 24 THEN CoverF(d, p, s) ELSE Cover(d, p, s)
       IN IF c = "out" THEN V
          ELSE IF ~Crisp(d) \/ (s > 0 /\ c = "rim") THEN {ANY}
          ELSE LET W == UNION { Results(d, HardMask(d), v) : v \in V }
               IN Norm(IF c = "in" THEN W ELSE V \cup W)
Steps(ds, p, s, V) == FoldLeft(LAMBDA W, d : TLCEval(Step(d, p, s, W)), V, ds)

\* ---- tiles ----------------------------------------------------------------
TilesW == {1, 3}  TilesR == {2, 3}
Refuses(s, t, modes) == \E m \in modes : << t[1], t[2], m >> \in s.fail
Outside(s, t) == s.kind = "fixed" /\ (t[1] < 0 \/ t[2] < 0 \/ t[1] * TILE >= s.w \/ t[2] * TILE >= s.h)
Pending(s) == DOMAIN s.pend
\* carries out the queued dabs of the tiles T; a tile the store refuses loses its own
FlushTiles(s, T) ==
  LET F == T \cap Pending(s)
      Lost(t) == Refuses(s, t, TilesW) \/ Outside(s, t)
      One(i) == LET p == s.probes[i]  t == TileOf(p)
                IN IF t \in F /\ ~Lost(t) THEN Steps(s.pend[t], p, 0, s.img[i]) ELSE s.img[i]
  IN IF F = {} THEN s
     ELSE [s EXCEPT !.img = [ i \in DOMAIN s.img |-> One(i) ],
                    !.pend = [ t \in Pending(s) \ F |-> s.pend[t] ]]

\* ---- calls ---------------------------------------------------------------
Begin(s) == [s EXCEPT !.sym = s.symPend, !.boxes = << >>, !.n = 0]

SetSymmetry(s, act, cx, cy, ang, type, lines) ==
  [s EXCEPT !.active = act,
            !.symPend = [type |-> type, cx |-> cx, cy |-> cy, ang |-> ang, lines |-> Max(2, lines)]]

Enqueue(s, d) ==
  LET T == TilesOf(d)
  IN [s EXCEPT !.pend = TLCEval([ t \in Pending(s) \cup T |->
        IF t \in T THEN (IF t \in Pending(s) THEN Append(s.pend[t], d) ELSE << d >>) ELSE s.pend[t] ])]
EnqueueAll(s, ds) == FoldLeft(Enqueue, s, ds)

Join(b, c) == << Min(b[1], c[1]), Min(b[2], c[2]), Max(b[3], c[3]), Max(b[4], c[4]) >>
Copies(s, d) == IF s.active THEN Orbit(s.sym, d) ELSE << d >>
Draw(s, d) ==
  IF ~Accepted(d) THEN s
  ELSE LET ds == TLCEval(Copies(s, d))
           old == s.boxes
           new == [ i \in 1..Max(Len(ds), Len(old)) |->
                      IF i > Len(ds) THEN old[i]
                      ELSE IF i > Len(old) THEN Box(ds[i]) ELSE Join(old[i], Box(ds[i])) ]
           q == EnqueueAll(s, ds)
       IN [q EXCEPT !.boxes = new, !.n = s.n + 1,
                    !.exact = s.exact /\ \A i \in DOMAIN ds : ds[i].fz = 0,
                    !.col = [ i \in DOMAIN s.col |->
                       Steps(ds, << s.patches[i][1], s.patches[i][2] >>, s.patches[i][3], s.col[i]) ]]

\* the tiles a pick of radius r (at least one pixel) looks at
PickTiles(x, y, r) == LET rr == Max(r, 8) IN TilesOf([x |-> x, y |-> y, rad |-> rr])
Pick(s, x, y, r) == FlushTiles(s, PickTiles(x, y, r))

End(s) == FlushTiles(s, Pending(s))

\* ---- bookkeeping of the observer ------------------------------------------
BlankPx == << 0, 0, 0, 0 >>
Track(s, ps) == [s EXCEPT !.probes = s.probes \o ps, !.img = s.img \o [ i \in DOMAIN ps |-> { BlankPx } ]]
TrackDisc(s, qs) == [s EXCEPT !.patches = s.patches \o qs, !.col = s.col \o [ i \in DOMAIN qs |-> { BlankPx } ]]
\* the application writes pixels itself (between batches)
FillTile(s, t, v) ==
  [s EXCEPT !.img = [ i \in DOMAIN s.img |-> IF TileOf(s.probes[i]) = t /\ ~Outside(s, t) THEN { v } ELSE s.img[i] ],
            !.col = [ i \in DOMAIN s.col |->
              LET q == s.patches[i]  b == TilesOf([x |-> 8*q[1]+4, y |-> 8*q[2]+4, rad |-> q[3]])
              IN IF b = {t} THEN { v } ELSE IF t \in b THEN { ANY } ELSE s.col[i] ]]
FillAll(s, v) ==
  [s EXCEPT !.img = [ i \in DOMAIN s.img |-> IF Outside(s, TileOf(s.probes[i])) THEN s.img[i] ELSE { v } ],
            !.col = [ i \in DOMAIN s.col |->
              LET q == s.patches[i]  b == TilesOf([x |-> 8*q[1]+4, y |-> 8*q[2]+4, rad |-> q[3]])
              IN IF \E t \in b : Outside(s, t) THEN { ANY } ELSE { v } ]]
SetPixel(s, p, v) == [s EXCEPT !.img = [ i \in DOMAIN s.img |-> IF s.probes[i] = p THEN { v } ELSE s.img[i] ]]
Refuse(s, t, mode) ==
  [s EXCEPT !.fail = { f \in s.fail : << f[1], f[2] >> # t } \cup (IF mode = 0 THEN {} ELSE { << t[1], t[2], mode >> })]

\* a pixel value v is one the specification allows
Allows(V, v) == V = { ANY } \/ v \in V
\* the stored values were seen: the model keeps exactly what was seen
See(s, ps, vs) ==
  [s EXCEPT !.img = [ i \in DOMAIN s.img |->
     IF \E j \in DOMAIN ps : ps[j] = s.probes[i]
     THEN { vs[CHOOSE j \in DOMAIN ps : ps[j] = s.probes[i]] } ELSE s.img[i] ]]
=============================================================================
