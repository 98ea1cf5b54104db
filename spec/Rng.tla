--------------------------------- MODULE Rng ---------------------------------
(* The generator of random numbers: Knuth's lagged Fibonacci generator       *)
(* ran_array (fractions modulo 1) with lags 10 and 7; nineteen numbers are    *)
(* made at a time, of which the first ten are used.                           *)
EXTENDS Fl, Integers, Sequences, SequencesExt, TLC
KK == 10  LL == 7  QUALITY == 19
Frac1(v) == FSub(v, FTrunc(v))
ModSum(v, w) == Frac1(FAdd(v, w))
\* u followed by n more terms of the recurrence x[j] = x[j-KK] + x[j-LL] mod 1
Extend(u, n) == TLCEval(FoldLeft(LAMBDA x, j : Append(x, ModSum(x[Len(x) - KK + 1], x[Len(x) - LL + 1])), u, [ j \in 1..n |-> j ]))
Skip(u, n) == SubSeq(Extend(u, n), n + 1, n + KK)

ULP == FPow(2, -52)
RECURSIVE Boot(_, _)
Boot(u, ss) == IF Len(u) = KK THEN u
               ELSE LET d == FAdd(ss, ss) IN Boot(Append(u, ss), IF FLe(1, d) THEN FSub(d, FSub(1, FMul(2, ULP))) ELSE d)
At(u, j, v) == [u EXCEPT ![j + 1] = v]        \* arrays below count from 0
Square(u) ==
  LET w == [ j \in 1..19 |-> IF j % 2 = 1 THEN u[(j - 1) \div 2 + 1] ELSE F(0) ]
  IN FoldLeft(LAMBDA x, j : LET y == At(x, j - (KK - LL), ModSum(x[j - (KK - LL) + 1], x[j + 1]))
                            IN TLCEval(At(y, j - KK, ModSum(y[j - KK + 1], y[j + 1]))),
              TLCEval(w), << 18, 17, 16, 15, 14, 13, 12, 11, 10 >>)
TimesZ(u) ==
  LET w == [ j \in 1..19 |-> IF j = 1 THEN u[10] ELSE IF j <= 11 THEN u[j - 1] ELSE u[j] ]
  IN TLCEval(At(w, LL, ModSum(w[LL + 1], w[KK + 1])))
RECURSIVE Mix(_, _, _)
Mix(u, s, t) == IF t = 0 THEN u
                ELSE LET q == TLCEval(Square(u))  r == IF s % 2 = 1 THEN TimesZ(q) ELSE q
                     IN Mix(r, s \div 2, IF s # 0 THEN t ELSE t - 1)
\* seed: 0 .. 2^30 - 1
RngNew(seed) ==
  LET u == Boot(<< >>, FMul(FMul(2, ULP), seed + 2))
      m == Mix([ At(u, 1, FAdd(u[2], ULP)) EXCEPT ![1] = u[1] ] \o [ j \in 1..9 |-> F(0) ], seed, 6)
      start == SubSeq(m, 8, 10) \o SubSeq(m, 1, 7)
  IN [u |-> TLCEval(FoldLeft(LAMBDA x, j : Skip(x, QUALITY), start, [ j \in 1..10 |-> j ])), out |-> << >>]
\* <<the next number, the generator afterwards>>
RngNext(g) ==
  IF g.out # << >> THEN << Head(g.out), [g EXCEPT !.out = Tail(g.out)] >>
  ELSE LET x == Extend(g.u, QUALITY)
       IN << x[1], [u |-> SubSeq(x, QUALITY + 1, QUALITY + KK), out |-> SubSeq(x, 2, KK)] >>
\* approximately normal: the scaled sum of four numbers
RngGauss(g) ==
  LET a == TLCEval(RngNext(g))  b == TLCEval(RngNext(a[2]))  c == TLCEval(RngNext(b[2]))  d == TLCEval(RngNext(c[2]))
      sum == FAdd(FAdd(FAdd(a[1], b[1]), c[1]), d[1])
  IN << F32(FSub(FMul(sum, "1.73205080757"), "3.46410161514")), d[2] >>
=============================================================================
