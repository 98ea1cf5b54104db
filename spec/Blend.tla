------------------------------- MODULE Blend -------------------------------
(* What one dab does to one pixel.  A pixel is <<r, g, b, a>>, 15-bit fixed  *)
(* point with premultiplied alpha.  A dab is a record with integer fields    *)
(*   r g b : straight colour      ca : alpha the dab drives towards          *)
(*   op    : opacity              la col pos : lock-alpha, colorize and      *)
(*   pn    : posterize levels                  posterize weights (quarters)  *)
(* and the mask value m is the dab's shape at that pixel.                    *)
EXTENDS Fix15

Valid(px) == /\ px[4] \in 0..ONE
             /\ \A i \in 1..3 : px[i] \in 0..px[4]

\* ---- the plain (non-pigment) blend modes ---------------------------------
Normal(px, m, d, op) ==
  LET oa == Mul(m, op)  ob == ONE - oa
  IN << Mix(oa, d.r, ob, px[1]), Mix(oa, d.g, ob, px[2]),
        Mix(oa, d.b, ob, px[3]), oa + Mul(ob, px[4]) >>

\* used when the dab's target alpha is below 1: smudging and erasing
Eraser(px, m, d, op) ==
  LET oa0 == Mul(m, op)  ob == ONE - oa0  oa == Mul(oa0, d.ca)
  IN << Mix(oa, d.r, ob, px[1]), Mix(oa, d.g, ob, px[2]),
        Mix(oa, d.b, ob, px[3]), oa + Mul(ob, px[4]) >>

LockAlpha(px, m, d, op) ==
  LET oa0 == Mul(m, op)  ob == ONE - oa0  oa == Mul(oa0, px[4])
  IN << Mix(oa, d.r, ob, px[1]), Mix(oa, d.g, ob, px[2]),
        Mix(oa, d.b, ob, px[3]), px[4] >>

\* a channel rounded to pn levels; a premultiplied channel never exceeds alpha
PostLevel(c, pn) == (ONE * ((2 * c * pn + ONE) \div (2 * ONE))) \div pn
Posterize(px, m, pn, op) ==
  LET oa == Mul(m, op)  ob == ONE - oa
      P(c) == Min(PostLevel(c, pn), px[4])
  IN << Mix(oa, P(px[1]), ob, px[1]), Mix(oa, P(px[2]), ob, px[2]),
        Mix(oa, P(px[3]), ob, px[3]), px[4] >>

\* Colorize keeps the pixel's luminosity and takes the dab's hue and saturation
\* (PDF/W3C "Color": SetLum and ClipColor).  Luma is computed in floating point
\* by the implementation; where the exact value is within 2% of a unit of an
\* integer both neighbours are allowed, everything after it is exact.
LumaN(r, g, b) == 2126 * r + 7152 * g + 722 * b         \* scaled by 10000
LumaSet(r, g, b) == LET n == LumaN(r, g, b)
                    IN { CDiv(n - 200, 10000), CDiv(n + 200, 10000) }
SetLums(top, bot) ==
  UNION { LET df == bl - tl
              r == top[1] + df  g == top[2] + df  b == top[3] + df
              mn == Min(r, Min(g, b))  mx == Max(r, Max(g, b))
          IN { LET lo(c) == IF mn < 0 THEN lum + CDiv((c - lum) * lum, lum - mn) ELSE c
                   hi(c0, c) == IF mx > ONE THEN lum + CDiv((c - lum) * (ONE - lum), mx - lum) ELSE c
               IN << hi(r, lo(r)), hi(g, lo(g)), hi(b, lo(b)) >>
             : lum \in { x \in LumaSet(r, g, b) : (mn < 0 => x > mn) /\ (mx > ONE => x < mx) } }
        : bl \in LumaSet(bot[1], bot[2], bot[3]), tl \in LumaSet(top[1], top[2], top[3]) }
Unmul(c, al) == IF al = 0 THEN 0 ELSE (ONE * c) \div al
Colorize(px, m, d, op) ==      \* the set of allowed results
  LET al == px[4]
      bot == << Unmul(px[1], al), Unmul(px[2], al), Unmul(px[3], al) >>
      oa == Mul(m, op)  ob == ONE - oa
  IN { << Mix(oa, Mul(Clamp(t[1], 0, ONE), al), ob, px[1]),
          Mix(oa, Mul(Clamp(t[2], 0, ONE), al), ob, px[2]),
          Mix(oa, Mul(Clamp(t[3], 0, ONE), al), ob, px[3]), al >>
       : t \in SetLums(<<d.r, d.g, d.b>>, bot) }

\* ---- one dab: the modes it mixes, in order --------------------------------
Q(x) == x \div 8192                     \* la, col, pos come in quarters of ONE
OpNormal(d) == (d.op * (4 - Q(d.la)) * (4 - Q(d.col)) * (4 - Q(d.pos))) \div 64
OpLock(d)   == (d.op * Q(d.la) * (4 - Q(d.col)) * (4 - Q(d.pos))) \div 64
OpColor(d)  == (d.op * Q(d.col)) \div 4
OpPost(d)   == (d.op * Q(d.pos)) \div 4

\* everything but colorize and posterize
BasePass(d, m, px) ==
  LET n == IF d.la = ONE \/ d.col = ONE \/ d.pos = ONE THEN px
           ELSE IF d.ca = ONE THEN Normal(px, m, d, OpNormal(d))
           ELSE Eraser(px, m, d, OpNormal(d))
  IN IF d.la > 0 /\ d.ca > 0 THEN LockAlpha(n, m, d, OpLock(d)) ELSE n
PostPass(d, m, px) == IF d.pos > 0 THEN Posterize(px, m, d.pn, OpPost(d)) ELSE px

\* the set of allowed results (a singleton unless the dab colorizes)
Results(d, m, px) ==
  LET b == BasePass(d, m, px)
  IN { PostPass(d, m, c) : c \in IF d.col > 0 THEN Colorize(b, m, d, OpColor(d)) ELSE {b} }
\* deterministic part
Result(d, m, px) == PostPass(d, m, BasePass(d, m, px))
=============================================================================
