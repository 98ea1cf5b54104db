------------------------------ MODULE TraceMeta ------------------------------
(* What the library publishes about settings, inputs and states is what the  *)
(* table in BrushMeta says; names and numbers are each other's inverse.       *)
EXTENDS BrushMeta, Integers, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
e == Trace[i]
ST == TLCEval(SettingTable)
IT == TLCEval(InputTable)
Index(t, n) == IF \E j \in DOMAIN t : t[j][1] = n THEN (CHOOSE j \in DOMAIN t : t[j][1] = n) - 1 ELSE -1
FLTMAX == F("3.4028234663852886e38")
\* "none": as far as a float goes
Same(b, s) == IF s = "none" THEN FEq(FAbs(FBits(b)), FLTMAX) ELSE FEq(FBits(b), F32(s))
Counts == e.op = "counts" /\ (e.s = Len(ST) /\ e.i = Len(IT) /\ e.t = Len(StateNames)
                              /\ \A n \in DOMAIN e.st : StateNames[e.st[n] + 1] = n) = TRUE
SInfo == e.op = "sinfo" /\ LET t == ST[e.i + 1]
                           IN (e.n = t[1] /\ e.const = (IF t[2] THEN 1 ELSE 0) /\ e.text = 1 /\ \A j \in 1..3 : Same(e.f[j], t[j + 2])) = TRUE
IInfo == e.op = "iinfo" /\ LET t == IT[e.i + 1] IN (e.n = t[1] /\ e.text = 1 /\ \A j \in 1..5 : Same(e.f[j], t[j + 1])) = TRUE
SName == e.op = "sname" /\ e.i = Index(ST, e.n)
IName == e.op = "iname" /\ e.i = Index(IT, e.n)
\* the table itself is sound
ASSUME \A t \in { ST[j] : j \in DOMAIN ST } : FLe(t[3], t[4]) /\ FLe(t[4], t[5])
ASSUME Cardinality(Settings) = Len(ST) /\ Cardinality(Inputs) = Len(IT) /\ Cardinality({ StateNames[j] : j \in DOMAIN StateNames }) = Len(StateNames)
Init == i = 1
Next == i <= Len(Trace) /\ i' = i + 1 /\ (e.op = "reset" \/ Counts \/ SInfo \/ IInfo \/ SName \/ IName)
Spec == Init /\ [][Next]_i
Accepts == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
