------------------------------ MODULE TraceTwin ------------------------------
(* Two brushes that should not be told apart.  From its "mark" on, everything *)
(* brush 0 shows (dabs, picks, states, results) is compared, bit for bit, with *)
(* what brush 1 shows from its mark on; at a "cut" both must have shown the   *)
(* same.  The other brushes may do what they like in between.                 *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANT FORGET       \* states the two may differ in
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, on, q    \* q: what one of them has shown and the other not yet, lead: who is ahead
vars == << i, on, q >>
e == Trace[i]
Watched == e.op \in { "dab", "pick", "ret" } /\ e.k \in { 0, 1 } /\ on[e.k]
Forgotten(o) == [ n \in DOMAIN o |-> IF n = "k" THEN 0 ELSE IF n = "st" THEN [ m \in DOMAIN o.st \ FORGET |-> o.st[m] ] ELSE o[n] ]
Mark == e.op = "mark" /\ on' = [on EXCEPT ![e.k] = TRUE] /\ UNCHANGED q
Cut == e.op = "cut" /\ q = << >> /\ UNCHANGED << on, q >>
Show == /\ Watched
        /\ IF q = << >> \/ q[1][1] = e.k THEN q' = Append(q, << e.k, Forgotten(e) >>)
           ELSE (q[1][2] = Forgotten(e)) = TRUE /\ q' = Tail(q)
        /\ UNCHANGED on
Other == e.op \notin { "reset", "mark", "cut" } /\ ~Watched /\ UNCHANGED << on, q >>
Init == i = 1 /\ on = [ k \in {0, 1} |-> FALSE ] /\ q = << >>
Reset == e.op = "reset" /\ on' = [ k \in {0, 1} |-> FALSE ] /\ q' = << >>
Next == i <= Len(Trace) /\ i' = i + 1 /\ (Reset \/ Mark \/ Cut \/ Show \/ Other)
Spec == Init /\ [][Next]_vars
Accepts == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
