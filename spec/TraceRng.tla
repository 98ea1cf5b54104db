------------------------------ MODULE TraceRng ------------------------------
EXTENDS Rng, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, R
vars == << i, R >>
e == Trace[i]
k == e.a[1]
Holds(b) == b = TRUE
Reset == e.op = "reset" /\ R' = << >>
New == e.op \in {"new", "seed"} /\ R' = [ j \in DOMAIN R \cup {k} |-> IF j = k THEN RngNew(e.a[2]) ELSE R[j] ]
Next1 == e.op = "next" /\ LET n == RngNext(R[k]) IN
            /\ Holds(FEq(e.v, n[1])) /\ Holds(FLe(0, e.v) /\ FLt(e.v, 1))
            /\ R' = [R EXCEPT ![k] = n[2]]
Gauss == e.op = "gauss" /\ LET n == RngGauss(R[k]) IN
            /\ Holds(FNear(e.v, n[1], "1e-6", 0)) /\ R' = [R EXCEPT ![k] = n[2]]
Init == i = 1 /\ R = << >>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Reset \/ New \/ Next1 \/ Gauss)
Spec == Init /\ [][Next]_vars
Accepts == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
