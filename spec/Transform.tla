------------------------------ MODULE Transform ------------------------------
(* 3x3 matrices (row by row, nine numbers) acting on points of the plane.     *)
(* Positive angles turn from the x axis towards the negative y axis ("cw"),   *)
(* angles in radians.                                                         *)
EXTENDS Colour, FiniteSets
Deg(a) == a ** "57.29577951308232"
E3(m, r, c) == m[3 * (r - 1) + c]
Mat(f(_, _)) == [ j \in 1..9 |-> f(((j - 1) \div 3) + 1, ((j - 1) % 3) + 1) ]
\* first m, then n
Then(m, n) == LET e(r, c) == (E3(n, r, 1) ** E3(m, 1, c)) ++ (E3(n, r, 2) ** E3(m, 2, c)) ++ (E3(n, r, 3) ** E3(m, 3, c)) IN Mat(e)
\* the sum of the magnitudes, for rounding
Mag(m, n) == LET e(r, c) == FAbs(E3(n, r, 1) ** E3(m, 1, c)) ++ FAbs(E3(n, r, 2) ** E3(m, 2, c)) ++ FAbs(E3(n, r, 3) ** E3(m, 3, c)) IN Mat(e)
O == F(0)  I == F(1)
Unit1 == << I, O, O,  O, I, O,  O, O, I >>
Cw(a)  == LET c == FCosDeg(Deg(a))  s == FSinDeg(Deg(a)) IN << c, s, O,  O -- s, c, O,  O, O, I >>
Ccw(a) == Cw(O -- a)
\* mirror image at the line through the origin with direction (cos a, sin a)
Reflect(a) == LET c == FCosDeg(Deg(a ** 2))  s == FSinDeg(Deg(a ** 2)) IN << c, s, O,  s, O -- c, O,  O, O, I >>
Shift(x, y) == << I, O, x,  O, I, y,  O, O, I >>
Apply(m, x, y) == << (m[1] ** x) ++ (m[2] ** y) ++ m[3], (m[4] ** x) ++ (m[5] ** y) ++ m[6] >>
=============================================================================
