------------------------------- MODULE Mapping -------------------------------
(* Piecewise linear curves, one per input, added to a base value.  A curve is *)
(* a sequence x1, y1, x2, y2, ... with x1 <= x2 <= ...                        *)
EXTENDS Colour
N(p) == Len(p) \div 2
X(p, j) == p[2*j - 1]
Y(p, j) == p[2*j]
\* the segment that decides at x: the first one whose right end is not left of x, or the last one
Seg(p, x) == IF \E j \in 1..(N(p) - 1) : FLe(x, X(p, j + 1))
             THEN CHOOSE j \in 1..(N(p) - 1) : FLe(x, X(p, j + 1)) /\ \A i \in 1..(j - 1) : FLt(X(p, i + 1), x)
             ELSE N(p) - 1
\* its straight line, extended beyond both ends; a level or vertical one has its left value
At(p, x) ==
  LET j == Seg(p, x)
      w == X(p, j + 1) -- X(p, j)
  IN IF FEq(w, 0) \/ FEq(Y(p, j), Y(p, j + 1)) THEN Y(p, j)
     ELSE Y(p, j) ++ (((Y(p, j + 1) -- Y(p, j)) ** (x -- X(p, j))) // w)
\* what single precision may lose
Loss(p, x) ==
  LET j == Seg(p, x)
      w == X(p, j + 1) -- X(p, j)
      y == FAbs(Y(p, j)) ++ FAbs(Y(p, j + 1))
  IN IF FEq(w, 0) THEN F(0) ELSE F("1e-6") ** y ** (F(1) ++ ((FAbs(x -- X(p, j)) ++ FAbs(X(p, j + 1) -- x)) // w))
=============================================================================
