------------------------------- MODULE MCHeat --------------------------------
(* Heat moving through a stack of layers: between neighbours it passes from  *)
(* the warmer to the colder one, from above as the surface flux, and below   *)
(* to ground of fixed temperature.  Whatever the order in which it moves,    *)
(* none appears or vanishes, and without a surface flux no layer leaves the  *)
(* range of temperatures there were.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Fixed
CONSTANTS MaxN, Temps, MaxMoves
VARIABLES n, t, base, flux, in, out, moves, t0
vars == <<n, t, base, flux, in, out, moves, t0>>
Init == /\ n \in 1..MaxN /\ t \in [1..n -> Temps] /\ base \in Temps /\ flux \in {0, 1, 2} /\ in = 0 /\ out = 0 /\ moves = 0 /\ t0 = t
Go == moves < MaxMoves /\ moves' = moves + 1 /\ UNCHANGED <<n, base, flux, t0>>
\* one unit of heat changes the temperature of a layer by one
Pass(i, j) == t[i] > t[j] + 1 /\ t' = [t EXCEPT ![i] = @ - 1, ![j] = @ + 1] /\ UNCHANGED <<in, out>>
Between == Go /\ \E k \in 1..(n - 1) : Pass(k, k + 1) \/ Pass(k + 1, k)
Top == Go /\ flux # 0 /\ t' = [t EXCEPT ![1] = @ + (flux - 1) * 2 - 1] /\ in' = in + (flux - 1) * 2 - 1 /\ UNCHANGED out
Bottom == Go /\ t[n] # base /\ LET d == IF t[n] > base THEN 1 ELSE -1 IN t' = [t EXCEPT ![n] = @ - d] /\ out' = out + d /\ UNCHANGED in
Next == Between \/ Top \/ Bottom
Spec == Init /\ [][Next]_vars
Sum(f) == SumSeq([k \in 1..n |-> f[k]])
Conserved == Sum(t) = Sum(t0) + in - out
Range == {t0[k] : k \in 1..n} \cup {base}
Bounded == flux = 0 => \A k \in 1..n : (\E x \in Range : x <= t[k]) /\ (\E x \in Range : x >= t[k])
\* warming from above never cools a layer below the coldest there was, and the reverse
OneSided == /\ flux = 2 => \A k \in 1..n : \E x \in Range : x <= t[k]
            /\ flux = 1 => \A k \in 1..n : \E x \in Range : x >= t[k]
Emit == moves = 0 => PrintT(<<"EMIT", ToJson([t |-> t, base |-> base, flux |-> flux])>>)
=============================================================================
