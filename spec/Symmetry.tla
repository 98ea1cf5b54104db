------------------------------ MODULE Symmetry ------------------------------
(* The symmetric copies of a dab.  A symmetry is [type, cx, cy, ang, lines]  *)
(* (lengths 1/8 px, ang in millidegrees).  y grows downwards.                *)
EXTENDS Geometry

VERTICAL == 0  HORIZONTAL == 1  VERTHORZ == 2  ROTATIONAL == 3  SNOWFLAKE == 4
SymTypes == VERTICAL..SNOWFLAKE
DefaultSym == [type |-> VERTICAL, cx |-> 0, cy |-> 0, ang |-> 0, lines |-> 2]

\* n * (v / K), rounded to nearest
Sc(n, v) == IF v = K THEN n ELSE IF v = -K THEN -n ELSE (n * v + K \div 2) \div K

\* mirror image across the line through the centre with direction angle m
MirrorPt(sy, x, y, m) ==
  LET dx == x - sy.cx  dy == y - sy.cy  c == Cos(2 * m)  s == Sin(2 * m)
  IN << sy.cx + Sc(dx, c) + Sc(dy, s), sy.cy + Sc(dx, s) - Sc(dy, c) >>
\* turned by the angle m (positive: from x towards y)
TurnPt(sy, x, y, m) ==
  LET dx == x - sy.cx  dy == y - sy.cy  c == Cos(m)  s == Sin(m)
  IN << sy.cx + Sc(dx, c) - Sc(dy, s), sy.cy + Sc(dx, s) + Sc(dy, c) >>

IsRight(m) == m % 90000 = 0
\* a copy whose box ends exactly between two pixels may be rounded either way
OnEdge(d, p) == \E v \in {p[1], p[2]} : (v - d.rad) % 8 = 0 \/ (v + d.rad) % 8 = 0
Fuzz(sy, d, m, p) == IF IsRight(m) THEN (IF OnEdge(d, p) THEN 1 ELSE 0) ELSE 2 + (Abs(d.x - sy.cx) + Abs(d.y - sy.cy)) \div 4096

Mirror(sy, d, m) == LET p == MirrorPt(sy, d.x, d.y, m)
                    IN [d EXCEPT !.x = p[1], !.y = p[2], !.ang = 2 * m - d.ang, !.fz = Fuzz(sy, d, 2 * m, p)]
Turn(sy, d, m) == LET p == TurnPt(sy, d.x, d.y, m)
                  IN [d EXCEPT !.x = p[1], !.y = p[2], !.ang = d.ang + m, !.fz = Fuzz(sy, d, m, p)]

\* the whole orbit, the dab itself first
Orbit(sy, d) ==
  LET a == sy.ang  n == sy.lines
      Rot(i) == (360000 * i) \div n
  IN CASE sy.type = VERTICAL   -> << d, Mirror(sy, d, 90000 - a) >>
       [] sy.type = HORIZONTAL -> << d, Mirror(sy, d, -a) >>
       [] sy.type = VERTHORZ   -> << d, Mirror(sy, d, -a), Turn(sy, d, 180000), Mirror(sy, d, 90000 - a) >>
       [] sy.type = ROTATIONAL -> [ i \in 1..n |-> IF i = 1 THEN d ELSE Turn(sy, d, -Rot(i - 1)) ]
       [] sy.type = SNOWFLAKE  -> [ i \in 1..2*n |-> IF i = 1 THEN d
                                     ELSE IF i <= n THEN Turn(sy, d, -Rot(i - 1))
                                     ELSE Mirror(sy, d, -a - Rot(i - n - 1) \div 2) ]
=============================================================================
