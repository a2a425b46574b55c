------------------------------ MODULE MCAlbedo ------------------------------
(* All sequences of cold / melting / snowfall steps; bounds and direction of *)
(* change, and independence of the splitting of the time axis into steps.    *)
EXTENDS Albedo, TLC
CONSTANTS Depth, Steps, Methods, Snowfalls
VARIABLES a, k, c, prev, last
MCInit == /\ k = 0 /\ prev = -1 /\ last = [m |-> FALSE, sf |-> 0]
          /\ c \in {[min |-> 550000, max |-> 850000, cold |-> t[1], melting |-> t[2], refresh |-> 5000, method |-> me, step |-> st] :
                      t \in {<<480, 200>>, <<100, 30>>}, me \in Methods, st \in Steps}
          /\ a \in {550000, 700000, 850000}
MCNext == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED c
          /\ \E m \in BOOLEAN, sf \in Snowfalls :
               a' = Next1(c, a, m, sf) /\ prev' = a /\ last' = [m |-> m, sf |-> sf]
MCSpec == MCInit /\ [][MCNext]_<<a, k, c, prev, last>>
InBounds == a >= c.min - 3 /\ a <= c.max + 3
Decays == prev >= 0 /\ last.sf = 0 => a <= prev + 3
MeltingFaster == \A x \in {600000, 850000} : Aged(c, x, TRUE) <= Aged(c, x, FALSE) + 3
\* two steps age as much as one of double length
SplitInvariant == LET c2 == [c EXCEPT !.step = 2 * c.step] IN
                  AbsF(Aged(c, Aged(c, a, FALSE), FALSE) - Aged(c2, a, FALSE)) <= 12
\* exp(-x): functional equation and known values
ExpOK == /\ AbsF(ExpNeg(One) - 367879) <= 8 /\ AbsF(ExpNeg(One \div 10) - 904837) <= 8 /\ AbsF(ExpNeg(3 * One) - 49787) <= 8
         /\ \A x \in {1000, 37000, 250000, 499999, 700000, 1500000} : AbsF(ExpNeg(2 * x) - MulDiv(ExpNeg(x), ExpNeg(x), One)) <= 12
ASSUME ExpOK
=============================================================================
