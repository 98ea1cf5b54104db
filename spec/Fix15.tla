------------------------------- MODULE Fix15 -------------------------------
(* Integer arithmetic shared by the whole specification: 15-bit fixed point  *)
(* (2^15 stands for 1.0), C division, trigonometry in scaled integers.       *)
EXTENDS Integers, Sequences

ONE == 32768

Abs(x) == IF x < 0 THEN -x ELSE x
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
Clamp(x, lo, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x

\* C's integer division (truncates towards zero); TLA+'s \div floors.
CDiv(x, y) == IF (x >= 0) = (y > 0) THEN Abs(x) \div Abs(y) ELSE -(Abs(x) \div Abs(y))

\* product of two values of at most 2^15, scaled back (never exceeds 2^30)
Mul(x, y) == (x * y) \div ONE
\* weighted sum of two values, the weights adding up to ONE
Mix(wa, va, wb, vb) == (wa * va + wb * vb) \div ONE

K == 16384      \* scale of the sine table
SinTab == <<0,286,572,857,1143,1428,1713,1997,2280,2563,2845,3126,3406,3686,3964,4240,4516,4790,5063,5334,5604,5872,6138,6402,6664,6924,7182,7438,7692,7943,8192,8438,8682,8923,9162,9397,9630,9860,10087,10311,10531,10749,10963,11174,11381,11585,11786,11982,12176,12365,12551,12733,12911,13085,13255,13421,13583,13741,13894,14044,14189,14330,14466,14598,14726,14849,14968,15082,15191,15296,15396,15491,15582,15668,15749,15826,15897,15964,16026,16083,16135,16182,16225,16262,16294,16322,16344,16362,16374,16382,16384>>

\* sine of m millidegrees, 0 <= m <= 90000, linear interpolation (error < 1)
SinQ(m) == LET d == m \div 1000  f == m % 1000
           IN IF f = 0 THEN SinTab[d + 1]
              ELSE SinTab[d + 1] + ((SinTab[d + 2] - SinTab[d + 1]) * f + 500) \div 1000
Sin(m) == LET t == m % 360000
          IN CASE t <= 90000  -> SinQ(t)
               [] t <= 180000 -> SinQ(180000 - t)
               [] t <= 270000 -> -SinQ(t - 180000)
               [] OTHER       -> -SinQ(360000 - t)
Cos(m) == Sin(m + 90000)
=============================================================================
