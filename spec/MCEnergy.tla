------------------------------ MODULE MCEnergy ------------------------------
(* What the energy at the surface does to the layers of a snowpack.  Amounts *)
(* are in the water equivalent that the energy melts: ice holds -1 per unit  *)
(* relative to water at the melting point, cold content another -1 per unit. *)
(* A surplus first warms, then melts, from the top down; a deficit freezes   *)
(* liquid water, then builds up cold content as far as the snow can hold it. *)
EXTENDS Energy, TLC, FiniteSets
CONSTANTS NLay, NCold, MaxE, MaxIce
VARIABLES ice, liq, cc, gained, fallen, wasted, drained
vars == <<ice, liq, cc, gained, fallen, wasted, drained>>
Lay == 1..NLay
Init == /\ ice \in [Lay -> {0, 2}] /\ liq = [k \in Lay |-> 0] /\ cc = [k \in Lay |-> 0]
        /\ fallen = SumSeq([k \in Lay |-> ice[k]]) /\ gained = 0 /\ wasted = 0 /\ drained = 0
\* spend e on layers k..NLay
RECURSIVE Warm(_, _, _, _, _)
Warm(k, e, i, q, c) ==
  IF k > NLay THEN [ice |-> i, liq |-> q, cc |-> c, left |-> e]
  ELSE LET w == MinF(e, c[k]) m == MinF(e - w, i[k])
       IN Warm(k + 1, e - w - m, [i EXCEPT ![k] = @ - m], [q EXCEPT ![k] = @ + m], [c EXCEPT ![k] = @ - w])
Cap(x) == (x + 1) \div 2
RECURSIVE Cool(_, _, _, _, _)
Cool(k, e, i, q, c) ==
  IF k > NCold THEN [ice |-> i, liq |-> q, cc |-> c, left |-> e]
  ELSE LET f == MinF(e, q[k])
           b == IF i[k] + f = 0 THEN 0 ELSE MinF(e - f, MaxF(Cap(i[k] + f) - c[k], 0))
       IN Cool(k + 1, e - f - b, [i EXCEPT ![k] = @ + f], [q EXCEPT ![k] = @ - f], [c EXCEPT ![k] = @ + b])
Take(r) == ice' = r.ice /\ liq' = r.liq /\ cc' = r.cc
Surplus == \E e \in 1..MaxE : LET r == Warm(1, e, ice, liq, cc) IN
             Take(r) /\ gained' = gained + e - r.left /\ wasted' = r.left /\ UNCHANGED <<fallen, drained>>
Deficit == \E e \in 1..MaxE : LET r == Cool(1, e, ice, liq, cc) IN
             Take(r) /\ gained' = gained - (e - r.left) /\ wasted' = -r.left /\ UNCHANGED <<fallen, drained>>
Snow == /\ SumSeq([k \in Lay |-> ice[k]]) < MaxIce /\ ice' = [ice EXCEPT ![1] = @ + 1] /\ fallen' = fallen + 1
        /\ UNCHANGED <<liq, cc, gained, wasted, drained>>
Drain == \E k \in Lay : liq[k] > 0 /\ liq' = [liq EXCEPT ![k] = 0] /\ drained' = drained + liq[k] /\ UNCHANGED <<ice, cc, gained, fallen, wasted>>
Next == Surplus \/ Deficit \/ Snow \/ Drain
Spec == Init /\ [][Next]_vars
Tot(f) == SumSeq([k \in Lay |-> f[k]])
Bound == fallen <= MaxIce + 1 /\ drained <= 3
\* energy: what was gained is what ice and cold content lack relative to what fell
Conserved == gained = fallen - Tot(ice) - Tot(cc)
Mass == Tot(ice) + Tot(liq) + drained = fallen
Sane == \A k \in Lay : ice[k] >= 0 /\ liq[k] >= 0 /\ cc[k] >= 0 /\ (k > NCold => cc[k] = 0)
\* energy is left over only where nothing is left to melt, or no cold can be held
NoWaste == /\ wasted' > 0 /\ wasted' # wasted => Tot(ice') = 0 /\ Tot(cc') = 0
           /\ wasted' < 0 /\ wasted' # wasted => \A k \in 1..NCold : liq'[k] = 0 /\ (ice'[k] = 0 \/ cc'[k] >= Cap(ice'[k]))
\* a layer melts only when those above hold no ice any more
TopDown == \A k \in Lay : (ice'[k] < ice[k] => \A j \in 1..(k - 1) : ice'[j] = 0)
\* a snowpack does not melt before its cold content is used up
ColdFirst == \A k \in Lay : ice'[k] < ice[k] => cc'[k] = 0
Props == [][NoWaste /\ TopDown /\ ColdFirst]_vars
\* ---- the laws used to judge recorded exchange ------------------------------
Grid == {223150 + (5000 * i) : i \in 0..18}
ASSUME \A t \in Grid : Black(t) < Black(t + 5000) /\ SatVap(t) < SatVap(t + 5000) /\ Black1(t) > 0
ASSUME \A t \in Grid : LET d == Black(t + 5000) - Black(t) IN          \* tangents below the chord: emission is convex
         d >= MulDiv(Black1(t), 5000, 100000) - 2 /\ d <= MulDiv(Black1(t + 5000), 5000, 100000) + 2
\* a balance that falls with the surface temperature determines it: no two temperatures close it
Bal(t, x) == 40000 - Emitted(990000, t) + Sensible(x, 268150, t) + LatentFlux(2850000, Moisture(x, 1000000, 20000 - SatHum(t, 80000)))
ASSUME \A x \in {1000000, 4000000, 30000000} : \A t \in Grid : Bal(t + 5000, x) < Bal(t, x)
\* melting and its flux are inverse; stability: less exchange in stable, more in unstable air
ASSUME \A m \in {10, 1000, 100000} : \A dt \in {1800, 3600, 86400} : AbsF(MeltMass(MeltFlux(m, dt), dt) - m) <= 1 + (dt \div 3340)
ASSUME \A r \in {10, 100, 1000, 10000} : Stable(3000000, r) < 3000000 /\ Stable(3000000, 2 * r) < Stable(3000000, r)
         /\ Unstable(3000000, r, 10000, 10000) > 3000000 /\ Unstable(3000000, 2 * r, 10000, 10000) > Unstable(3000000, r, 10000, 10000)
\* heat flows from warm to cold
ASSUME \A a \in {263150, 270150}, b \in {268150, 273150} : (Conduct(250000, 10000, a, b) < 0) = (a < b)
=============================================================================
