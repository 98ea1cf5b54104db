--------------------------------- MODULE Fl ---------------------------------
(* Real numbers for the specifications of the brush engine.  The arguments   *)
(* may be integers, decimal strings ("0.015") or results of these operators. *)
(* TLC evaluates the operators in IEEE double precision (java/Fl.java);      *)
(* specifications compare with FNear, never exactly, unless they say so.     *)
LOCAL INSTANCE Integers
LOCAL Rl == CHOOSE r : TRUE
F(a) == Rl              \* the number itself
FBits(a) == Rl          \* the number with the IEEE single precision bits a
FToBits(a) == 0
F32(a) == Rl            \* rounded to single precision
FAdd(a, b) == Rl        FSub(a, b) == Rl
FMul(a, b) == Rl        FDiv(a, b) == Rl
FMin(a, b) == Rl        FMax(a, b) == Rl
FAbs(a) == Rl           FFloor(a) == Rl
FExp(a) == Rl           FLog(a) == Rl
FPow(a, b) == Rl        FSqrt(a) == Rl
FSinDeg(a) == Rl        FCosDeg(a) == Rl        FAtan2Deg(a, b) == Rl
FHypot(a, b) == Rl      FRem(a, b) == Rl        \* remainder, sign of a
FLt(a, b) == FALSE      FLe(a, b) == FALSE      FEq(a, b) == FALSE
FFinite(a) == TRUE
FNear(a, b, abs, rel) == TRUE   \* |a - b| <= abs + rel * max(|a|, |b|)
FRound(a) == 0          \* to the nearest integer, halves away from zero
FTrunc(a) == 0
FStr(a) == ""           \* for messages
FDot(s, t) == Rl        \* sum of s[i] * t[i]
=============================================================================
