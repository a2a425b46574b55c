------------------------------ MODULE MCSettle ------------------------------
(* A stack of snow layers through sequences of snowfall, settling in cold and *)
(* warm air, melt and sublimation.                                            *)
EXTENDS Settle, TLC
CONSTANTS Falls, Wetbulbs, Airs, Takes, Steps, MaxMoves, MaxCold, MaxWarm, Scale
VARIABLES q, last, moves, how
vars == <<q, last, moves, how>>
Layer(i, l, th) == [ice |-> i, liq |-> l, th |-> th, wet |-> l > 0, cold |-> l = 0]
MCInit == /\ q \in {<<Layer(0, 0, 0)>>, <<Layer(300000, 0, 200000), Layer(2000000, 0, 700000)>>,
                    <<Layer(150000, 20000, 90000), Layer(900000, 90000, 300000), Layer(4000000, 0, 900000)>>}
          /\ last = q /\ moves = 0 /\ how = "start"
Fall == \E m \in Falls, t \in Wetbulbs : q' = Snowed(q, m, FreshDens(t)) /\ how' = "fall"
Settles == \E t \in Airs, s \in Steps : q' = Anderson(q, 0, t, s) /\ how' = "settle"
Compacts == \E s \in Steps : q' = Empirical(q, MaxCold, MaxWarm, s, Scale) /\ how' = "compact"
Take == \E m \in Takes : q' = Taken(q, m) /\ how' = "take"
MCNext == moves < MaxMoves /\ moves' = moves + 1 /\ last' = q /\ (Fall \/ Settles \/ Compacts \/ Take)
MCSpec == MCInit /\ [][MCNext]_vars
N == Len(q)
D(y) == Dens(y.ice + y.liq, y.th)
Mass(p) == SumSeq([k \in 1..Len(p) |-> p[k].ice + p[k].liq])
NoNegative == \A k \in 1..N : q[k].ice >= 0 /\ q[k].th >= 0 /\ (q[k].ice = 0 => q[k].th = 0)
SettlingKeepsMass == how \in {"settle", "compact"} => Mass(q) = Mass(last) /\ \A k \in 1..N : q[k].th <= last[k].th + 1
NeverUnsettles == how = "settle" => \A k \in 1..N : last[k].th > 1000 => D(q[k]) + 200 >= D(last[k])
CompactLimit == how = "compact" => \A k \in 1..N : last[k].th > 1000 => D(q[k]) <= MaxF(D(last[k]), IF q[k].cold THEN MaxCold ELSE MaxWarm) + 200
FallsOnTop == how = "fall" => q[1].th >= last[1].th /\ \A k \in 2..N : q[k] = last[k]
TakenFromTop == how = "take" => /\ \A k \in 1..N : q[k].ice > 0 /\ k < N => \A j \in (k + 1)..N : q[j] = last[j]
                                /\ \A k \in 1..N : (q[k].th > 2000 => AbsF(Dens(q[k].ice, q[k].th) - Dens(last[k].ice, last[k].th)) <= 1500)
Fresh == \A t \in Wetbulbs : FreshDens(t) >= 50000 /\ (FreshDens(t) <= FreshDens(t + 500))
Faster == \A t \in Airs : LET a == Growth(100000, 200000, t, FALSE, 60) IN
             /\ Growth(200000, 200000, t, FALSE, 60) >= a /\ Growth(100000, 200000, t + 2000, FALSE, 60) >= a
             /\ Growth(100000, 200000, t, TRUE, 60) >= a /\ Growth(100000, 300000, t, FALSE, 60) <= a
             /\ Growth(100000, 200000, t, FALSE, 180) >= 3 * a - 3
=============================================================================
