------------------------------ MODULE Geometry ------------------------------
(* Where a dab lands.  Lengths are in eighths of a pixel, angles in          *)
(* millidegrees, aspect ratios in sixteenths.  A dab has fields              *)
(*   x y rad asp ang hard soft  (hard/soft: fractions of ONE)                *)
EXTENDS Fix15

TILE == 64

\* the pixel box a dab may touch: its radius plus one pixel, rounded outwards
Box(d) == << (d.x - d.rad - 8) \div 8, (d.y - d.rad - 8) \div 8,
             (d.x + d.rad + 8) \div 8, (d.y + d.rad + 8) \div 8 >>
TilesOf(d) == LET b == Box(d)
              IN { <<tx, ty>> : tx \in (b[1] \div TILE)..(b[3] \div TILE),
                                ty \in (b[2] \div TILE)..(b[4] \div TILE) }
TileOf(p) == << p[1] \div TILE, p[2] \div TILE >>

\* squared normalised distance of the centre of pixel p from the dab, in the
\* same units as rad^2.  Callers have checked that p is inside the bounding box.
DX(d, p) == 8 * p[1] + 4 - d.x
DY(d, p) == 8 * p[2] + 4 - d.y
Right(d) == d.ang % 90000 = 0
Axis(d, p) ==     \* <<along, across>> the major axis
  LET dx == DX(d, p)  dy == DY(d, p)  q == (d.ang \div 90000) % 2
  IN IF d.asp = 16 THEN << dx, dy >>
     ELSE IF Right(d) THEN (IF q = 0 THEN << dx, dy >> ELSE << dy, dx >>)
     ELSE << (dy * Sin(d.ang) + dx * Cos(d.ang)) \div K, (dy * Cos(d.ang) - dx * Sin(d.ang)) \div K >>
Near(d, p, slack) == Abs(DX(d, p)) <= d.rad + slack /\ Abs(DY(d, p)) <= d.rad + slack

\* "in", "out" or, too close to the rim to tell, "rim": does a hard-edged dab
\* cover the whole disc of radius s around the centre of pixel p?
Cover(d, p, s) ==
  IF ~Near(d, p, s) THEN "out"
  ELSE LET ax == Axis(d, p)
           sa == (s * d.asp) \div 16
           acr == (Abs(ax[2]) * d.asp) \div 16
           n2 == ax[1] * ax[1] + acr * acr
           r2 == d.rad * d.rad
           inexact == d.asp # 16 /\ ~Right(d)
           tol == IF inexact THEN r2 \div 32 + 8 * d.rad
                  ELSE IF d.asp # 16 THEN 4 * d.rad
                  ELSE r2 \div 20000
       IN IF acr > d.rad + sa + 64 THEN "out"
          ELSE IF s = 0 THEN (IF Abs(n2 - r2) <= tol THEN "rim" ELSE IF n2 < r2 THEN "in" ELSE "out")
          ELSE IF d.rad > sa /\ n2 + tol < (d.rad - sa) * (d.rad - sa) THEN "in"
          ELSE IF n2 > (d.rad + sa) * (d.rad + sa) + tol THEN "out"
          ELSE "rim"

\* the same with the position known only to d.fz eighths of a pixel, or the
\* edge smoothed over a pixel (small dabs)
CoverF(d, p, s) ==
  LET f == d.fz + (IF d.rad < 24 THEN 12 ELSE 0)
  IN IF ~Near(d, p, s + f) THEN "out"
     ELSE LET dx == DX(d, p)  dy == DY(d, p)  n2 == dx * dx + dy * dy
              lo == d.rad - f - s  hi == d.rad + f + s
          IN IF d.asp # 16 THEN (IF n2 > hi * hi THEN "out" ELSE
                 LET c == Cover([d EXCEPT !.rad = Max(1, lo)], p, 0)
                     o == Cover([d EXCEPT !.rad = hi + (f * d.asp) \div 16], p, 0)
                 IN IF s = 0 /\ lo * 16 > f * d.asp /\ c = "in"
                       /\ Cover([d EXCEPT !.rad = d.rad - f - (f * d.asp) \div 16], p, 0) = "in" THEN "in"
                    ELSE IF s = 0 /\ o = "out" THEN "out" ELSE "rim")
             ELSE IF lo > 0 /\ n2 < lo * lo THEN "in"
             ELSE IF n2 > hi * hi THEN "out" ELSE "rim"

\* the shape of a hard-edged dab (hardness 1): constant inside the rim
HardMask(d) == ONE - d.soft
=============================================================================
