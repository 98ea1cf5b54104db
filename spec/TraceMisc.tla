------------------------------ MODULE TraceMisc ------------------------------
(* Checks traces of harness/drv_misc.c: mappings, rectangles, transforms and  *)
(* colour models.                                                             *)
EXTENDS Mapping, Transform, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, Ms, Ts, Rs
vars == << i, Ms, Ts, Rs >>
e == Trace[i]
k == e.k
Holds(x) == x = TRUE
Fs(s) == [ j \in DOMAIN s |-> FBits(s[j]) ]
A == Fs(e.f)
Near(x, y, t) == FNear(FBits(x), y, t, t)
Keep(v) == v' = v
\* ---- mappings ----------------------------------------------------------------
Blank(n) == [base |-> 0, p |-> [ j \in 1..n |-> << >> ]]
MNew == e.op = "mnew" /\ Ms' = [Ms EXCEPT ![k] = Blank(e.a[1])] /\ UNCHANGED << Ts, Rs >>
MBase == e.op = "mbase" /\ Ms' = [Ms EXCEPT ![k].base = e.f[1]] /\ UNCHANGED << Ts, Rs >>
MSet == e.op = "mset" /\ Ms' = [Ms EXCEPT ![k].p[e.i + 1] = e.f] /\ UNCHANGED << Ts, Rs >>
MCut == e.op = "mcut" /\ Ms' = [Ms EXCEPT ![k].p[e.a[1] + 1] = SubSeq(@, 1, 2 * e.a[2])] /\ UNCHANGED << Ts, Rs >>
MGet == /\ e.op = "mget"
        /\ LET u == Cardinality({ j \in DOMAIN Ms[k].p : Ms[k].p[j] # << >> })
           IN Holds(e.const = (IF u = 0 THEN 1 ELSE 0) /\ e.used = u /\ e.b[1] = Ms[k].base /\ e.p = Ms[k].p)
        /\ UNCHANGED << Ms, Ts, Rs >>
Used == { j \in DOMAIN Ms[k].p : Ms[k].p[j] # << >> }
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN F(0) ELSE LET j == CHOOSE j \in S : TRUE IN f[j] ++ SumOver(S \ {j}, f)
MCalc == /\ e.op = "mcalc"
         /\ LET ys == TLCEval([ j \in Used |-> At(Fs(Ms[k].p[j]), A[j]) ])
                ls == TLCEval([ j \in Used |-> Loss(Fs(Ms[k].p[j]), A[j]) ++ (FAbs(ys[j]) ** "1e-6") ])
                b == FBits(Ms[k].base)
            IN Holds(IF Used = {} THEN e.v[1] = Ms[k].base
                     ELSE FLe(FAbs(FBits(e.v[1]) -- (b ++ SumOver(Used, ys))), (FAbs(b) ** "1e-6") ++ SumOver(Used, ls)))
         /\ UNCHANGED << Ms, Ts, Rs >>
\* ---- rectangles: the smallest one that contains both ---------------------------------
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x > y THEN x ELSE y
Cover(r, o) == IF r[3] = 0 THEN o
               ELSE LET x == Lo(r[1], o[1])  y == Lo(r[2], o[2])
                    IN << x, y, Hi(r[1] + r[3], o[1] + o[3]) - x, Hi(r[2] + r[4], o[2] + o[4]) - y >>
Put(r) == Rs' = [Rs EXCEPT ![k] = r] /\ Holds(e.r = r) /\ UNCHANGED << Ms, Ts >>
RSet == e.op = "rset" /\ Put(e.a)
RPt == e.op = "rpt" /\ Put(Cover(Rs[k], << e.a[1], e.a[2], 1, 1 >>))
RRect == e.op = "rrect" /\ Holds(e.o = IF e.a[1] = k THEN e.r ELSE Rs[e.a[1]]) /\ Put(Cover(Rs[k], Rs[e.a[1]]))
RCopy == e.op = "rcopy" /\ Put(Rs[e.a[1]])
\* ---- transforms -----------------------------------------------------------------
\* m then n, as far as single precision tells; s: rounding of n's entries
IsThen(t, m, n) == LET w == Then(m, n)  g == Mag(m, n) IN \A j \in 1..9 : FLe(FAbs(FBits(t[j]) -- w[j]), (g[j] ** "1e-6") ++ (FAbs(m[3]) ++ FAbs(m[6]) ++ FAbs(m[9]) ++ 1) ** "3e-7")
M(j) == Fs(Ts[j])
TPut == Ts' = [Ts EXCEPT ![k] = e.t] /\ UNCHANGED << Ms, Rs >>
TUnit == e.op = "tunit" /\ Holds(\A j \in 1..9 : FEq(FBits(e.t[j]), Unit1[j])) /\ TPut
TSet == e.op = "tset" /\ Holds(e.t = e.f) /\ TPut
TCw == e.op = "tcw" /\ Holds(IsThen(e.t, M(k), Cw(A[1]))) /\ TPut
TCcw == e.op = "tccw" /\ Holds(IsThen(e.t, M(k), Ccw(A[1]))) /\ TPut
TRefl == e.op = "trefl" /\ Holds(IsThen(e.t, M(k), Reflect(A[1]))) /\ TPut
TMove == e.op = "tmove" /\ Holds(IsThen(e.t, M(k), Shift(A[1], A[2]))) /\ TPut
TPt == /\ e.op = "tpt"
       /\ LET m == M(k)  v == Apply(m, A[1], A[2])
              g(r) == (FAbs(m[r] ** A[1]) ++ FAbs(m[r + 1] ** A[2]) ++ FAbs(m[r + 2])) ** "1e-6"
          IN Holds(FLe(FAbs(FBits(e.v[1]) -- v[1]), g(1)) /\ FLe(FAbs(FBits(e.v[2]) -- v[2]), g(4)))
       /\ UNCHANGED << Ms, Ts, Rs >>
\* ---- colours ------------------------------------------------------------------------
V == Fs(e.v)
Close(a, b, t) == FLe(FAbs(a -- b), F(t))
Close3(a, b, t) == \A j \in 1..3 : Close(a[j], b[j], t)
HueClose(a, b, t) == LET d == FMod(a -- b, 1) IN FLe(d, t) \/ FLe(F(1) -- d, t)
In01(v) == FLe("-1e-6", v) /\ FLe(v, "1.000001")
Spread(c) == Max3(Unit3(c)) -- Min3(Unit3(c))
c3 == << A[1], A[2], A[3] >>
Grey(c, at) == FNear(Spread(c), at, "1e-6", 0)
ColourOK ==
  CASE e.op = "c_rgbhsv" -> LET w == RgbToHsv(c3) IN \A j \in 1..3 : In01(V[j]) /\ (Grey(c3, "0.0001") \/ (HueClose(V[1], w[1], F("2e-7") // FMax(Spread(c3), "1e-4")) /\ Close(V[2], w[2], F("1e-6") // FMax(Max3(Unit3(c3)), "1e-4")))) /\ Close(V[3], w[3], "1e-6")
    [] e.op = "c_rgbhsl" -> LET w == RgbToHsl(c3) l == FMin(w[3], F(1) -- w[3]) IN \A j \in 1..3 : In01(V[j]) /\ (Grey(c3, 0) \/ (HueClose(V[1], w[1], F("3e-7") // FMax(Spread(c3), "1e-7")) /\ (FLt(l, "1e-5") \/ Close(V[2], w[2], F("1e-6") // l)))) /\ Close(V[3], w[3], "1e-6")
    [] e.op = "c_hsvrgb" -> Close3(V, HsvToRgb(c3), F("4e-6") ++ (FAbs(A[1]) ** "1e-6"))
    [] e.op = "c_hslrgb" -> Close3(V, HslToRgb(c3), F("4e-6") ++ (FAbs(A[1]) ** "1e-6"))
    [] e.op = "c_hsvback" -> Close3(V, Unit3(c3), IF FLe(Spread(c3), "0.000101") THEN "1.02e-4" ELSE "6e-6")   \* there and back again
    [] e.op = "c_hslback" -> Close3(V, Unit3(c3), "6e-6")
    [] e.op = "c_spec" -> LET s == Spectrum(c3) IN /\ \A j \in 1..10 : FNear(FBits(e.s[j]), s[j], "1e-6", "2e-6")
                                                    /\ Close3(V, OfSpectrum(s), "2e-5")
                                                    /\ Close3(V, Unit3(c3), "5e-3")          \* and back again
    [] e.op = "c_mix" -> LET w == MixColours(<< A[1], A[2], A[3], A[4] >>, << A[5], A[6], A[7], A[8] >>, A[9], A[10])
                         IN Close3(V, w, "5e-5") /\ Close(V[4], w[4], "1e-6")
    [] OTHER -> FALSE
Colour == e.op \in { "c_rgbhsv", "c_rgbhsl", "c_hsvrgb", "c_hslrgb", "c_hsvback", "c_hslback", "c_spec", "c_mix" } /\ Holds(ColourOK) /\ UNCHANGED << Ms, Ts, Rs >>
Angle == /\ e.op = "angdiff"
         /\ LET d == FMod(V[1] -- (A[2] -- A[1]), 360)  t == F("1e-4") ++ ((FAbs(A[1]) ++ FAbs(A[2])) ** "5e-7")
            IN Holds(FLe(FAbs(V[1]), F(180) ++ t) /\ (FLe(d, t) \/ FLe(F(360) -- d, t)))
         /\ UNCHANGED << Ms, Ts, Rs >>
Mod == /\ e.op = "mod"
       /\ LET d == FMod(V[1] -- A[1], A[2])  t == ((FAbs(A[1]) ++ A[2]) ** "5e-7")
          IN Holds(FLe(F(0) -- t, V[1]) /\ FLe(V[1], A[2] ++ t) /\ (FLe(d, t) \/ FLe(A[2] -- d, t)))
       /\ UNCHANGED << Ms, Ts, Rs >>
Fresh == e.op = "reset" /\ Ms' = [ j \in 0..3 |-> Blank(0) ] /\ Ts' = [ j \in 0..3 |-> [ n \in 1..9 |-> FToBits(Unit1[n]) ] ] /\ Rs' = [ j \in 0..3 |-> << 0, 0, 0, 0 >> ]
Init == i = 1 /\ Ms = << >> /\ Ts = << >> /\ Rs = << >>
Next == /\ i <= Len(Trace) /\ i' = i + 1
        /\ \/ Fresh \/ MNew \/ MBase \/ MSet \/ MCut \/ MGet \/ MCalc \/ RSet \/ RPt \/ RRect \/ RCopy
           \/ TUnit \/ TSet \/ TCw \/ TCcw \/ TRefl \/ TMove \/ TPt \/ Colour \/ Angle \/ Mod
Spec == Init /\ [][Next]_vars
Accepts == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
