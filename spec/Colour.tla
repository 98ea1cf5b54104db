-------------------------------- MODULE Colour --------------------------------
(* Colours as triples of reals in 0..1: HSV and HSL models, and the mixing of *)
(* two colours by weighted geometric mean of a ten band spectrum.             *)
EXTENDS Fl, Integers, Sequences
a ++ b == FAdd(a, b)
a -- b == FSub(a, b)
a ** b == FMul(a, b)
a // b == FDiv(a, b)
FClamp(v, lo, hi) == FMax(lo, FMin(hi, v))
Unit(v) == FClamp(v, 0, 1)
FMod(v, n) == v -- (n ** FFloor(v // n))
Max3(c) == FMax(c[1], FMax(c[2], c[3]))
Min3(c) == FMin(c[1], FMin(c[2], c[3]))
Unit3(c) == << Unit(c[1]), Unit(c[2]), Unit(c[3]) >>

\* hue (0..1) of a colour with maximum M and difference d between maximum and minimum
Hue(c, M, d) ==
  LET h == IF FEq(c[1], M) THEN (c[2] -- c[3]) // d
           ELSE IF FEq(c[2], M) THEN F(2) ++ ((c[3] -- c[1]) // d)
           ELSE F(4) ++ ((c[1] -- c[2]) // d)
  IN FMod(h // 6, 1)
RgbToHsv(c0) ==
  LET c == Unit3(c0)  M == Max3(c)  d == M -- Min3(c)
  IN IF FLt("0.0001", d) THEN << Hue(c, M, d), d // M, M >> ELSE << F(0), F(0), M >>
HsvToRgb(c) ==
  LET h == FMod(c[1], 1) ** 6  s == Unit(c[2])  v == Unit(c[3])
      i == FTrunc(h)  f == h -- i
      w == v ** (F(1) -- s)
      q == v ** (F(1) -- (s ** f))
      t == v ** (F(1) -- (s ** (F(1) -- f)))
  IN CASE i = 0 -> << v, t, w >> [] i = 1 -> << q, v, w >> [] i = 2 -> << w, v, t >>
       [] i = 3 -> << w, q, v >> [] i = 4 -> << t, w, v >> [] OTHER -> << v, w, q >>
RgbToHsl(c0) ==
  LET c == Unit3(c0)  M == Max3(c)  m == Min3(c)  l == (M ++ m) // 2  d == M -- m
  IN IF FEq(d, 0) THEN << F(0), F(0), l >>
     ELSE << Hue(c, M, d), IF FLe(l, "0.5") THEN d // (M ++ m) ELSE d // (F(2) -- M -- m), l >>
HslToRgb(c) ==
  LET h == FMod(c[1], 1)  s == Unit(c[2])  l == Unit(c[3])
      m2 == IF FLe(l, "0.5") THEN l ** (F(1) ++ s) ELSE l ++ s -- (l ** s)
      m1 == (F(2) ** l) -- m2
      V(k) == LET x == FMod(h ** 6 ++ k, 6)
              IN IF FLt(x, 1) THEN m1 ++ ((m2 -- m1) ** x)
                 ELSE IF FLt(x, 3) THEN m2
                 ELSE IF FLt(x, 4) THEN m1 ++ ((m2 -- m1) ** (F(4) -- x))
                 ELSE m1
  IN IF FEq(s, 0) THEN << l, l, l >> ELSE << V(2), V(0), V(-2) >>

\* ---- ten bands -----------------------------------------------------------------
EPS == F("0.001")
OFS == F(1) -- EPS
TR == << "0.026595621243689", "0.049779426257903", "0.022449850859496", "-0.218453689278271", "-0.256894883201278",
         "0.445881722194840", "0.772365886289756", "0.194498761382537", "0.014038157587820", "0.007687264480513" >>
TG == << "-0.032601672674412", "-0.061021043498478", "-0.052490001018404", "0.206659098273522", "0.572496335158169",
         "0.317837248815438", "-0.021216624031211", "-0.019387668756117", "-0.001521339050858", "-0.000835181622534" >>
TB == << "0.339475473216284", "0.635401374177222", "0.771520797089589", "0.113222640692379", "-0.055251113343776",
         "-0.048222578468680", "-0.012966666339586", "-0.001523814504223", "-0.000094718948810", "-0.000051604594741" >>
SR == << "0.009281362787953", "0.009732627042016", "0.011254252737167", "0.015105578649573", "0.024797924177217",
         "0.083622585502406", "0.977865045723212", "1.000000000000000", "0.999961046144372", "0.999999992756822" >>
SG == << "0.002854127435775", "0.003917589679914", "0.012132151699187", "0.748259205918013", "1.000000000000000",
         "0.865695937531795", "0.037477469241101", "0.022816789725717", "0.021747419446456", "0.021384940572308" >>
SB == << "0.537052150373386", "0.546646402401469", "0.575501819073983", "0.258778829633924", "0.041709923751716",
         "0.012662638828324", "0.007485593127390", "0.006766900622462", "0.006699764779016", "0.006676219883241" >>
Spectrum(c) ==
  LET r == (c[1] ** OFS) ++ EPS  g == (c[2] ** OFS) ++ EPS  b == (c[3] ** OFS) ++ EPS
  IN [ i \in 1..10 |-> (SR[i] ** r) ++ (SG[i] ** g) ++ (SB[i] ** b) ]
OfSpectrum(s) == LET X(t) == FClamp((FDot(t, s) -- EPS) // OFS, 0, 1) IN << X(TR), X(TG), X(TB) >>
\* a and b: colour with alpha as fourth component; fac: weight of a; pm: 0 plain, 1 pigment
MixColours(a, b, fac, pm0) ==
  LET pm == FMax(0, pm0)
      ob == F(1) -- fac
      al == Unit((fac ** a[4]) ++ (ob ** b[4]))
      sa == IF FEq(a[4], 0) THEN F(0) ELSE (fac ** a[4]) // (a[4] ++ (b[4] ** ob))
      sb == F(1) -- sa
      xa == Spectrum(a)  xb == Spectrum(b)
      wgm == OfSpectrum([ i \in 1..10 |-> FPow(xa[i], sa) ** FPow(xb[i], sb) ])
      one(i) == IF FLe(1, pm) THEN wgm[i]
                ELSE LET plain == (a[i] ** fac) ++ (b[i] ** ob)
                     IN IF FEq(pm, 0) THEN plain ELSE (wgm[i] ** pm) ++ ((F(1) -- pm) ** plain)
  IN << one(1), one(2), one(3), al >>
=============================================================================
