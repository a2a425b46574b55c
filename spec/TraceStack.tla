----------------------------- MODULE TraceStack ------------------------------
(* Recorded temperature changes of stacks of layers.                         *)
EXTENDS Energy, TraceBase
VARIABLE l
TInit == l = 1
Ev == Trace[l]
N == Ev.n
New(i) == Ev.t[i] + ((Ev.dT[i] + 5) \div 10)
G(i) == IF i < N THEN Conductance(Ev.d[i], Ev.k[i], Ev.d[i + 1], Ev.k[i + 1]) ELSE Conductance(Ev.d[i], Ev.k[i], Ev.db, Ev.kb)
Down(i) == IF i = 0 THEN Ev.flux ELSE Flow(G(i), New(i), IF i < N THEN New(i + 1) ELSE Ev.base)     \* 1e-3 W m-2
Sup(f) == SMulDiv(f, Ev.dt, 1000)
Gain(i) == LET x == AbsF(Ev.dT[i]) s == IF Ev.dT[i] < 0 THEN -1 ELSE 1
           IN IF x < 2000000 THEN SMulDiv(Ev.cap[i] * s, x, 100000) ELSE SMulDiv(Ev.cap[i] * s, x \div 10, 10000)
Tol(i) == 30 + (Ev.cap[i] \div 100000) + ((Ev.dt * 2) \div 1000) + ((Ev.dt * ((G(i) \div 10000) + 1)) \div 8000)
          + (IF i > 1 THEN (Ev.dt * ((G(i - 1) \div 10000) + 1)) \div 8000 ELSE 0) + ((AbsF(Sup(Down(i - 1))) + AbsF(Sup(Down(i)))) \div 2000)
Ok == Ev.error = "" /\ \A i \in 1..N : Finite(Ev.dT[i])
Range == {Ev.t[i] : i \in 1..N} \cup {Ev.base}
Checks == [
  completed |-> Ev.error = "",
  values |-> \A i \in 1..N : Finite(Ev.dT[i]),
  arguments_untouched |-> Ev.untouched,
  conserves |-> Ok => \A i \in 1..N : AbsF(Gain(i) - Sup(Down(i - 1) - Down(i))) <= Tol(i),
  within_range |-> Ok => \A i \in 1..N : /\ Ev.flux <= 0 => \E x \in Range : New(i) <= x + 2
                                         /\ Ev.flux >= 0 => \E x \in Range : New(i) >= x - 2]
TNext == l <= TraceLen /\ l' = l + 1 /\ Report(l, Ev.case, Checks)
TSpec == TInit /\ [][TNext]_l
=============================================================================
