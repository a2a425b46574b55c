------------------------------ MODULE MCCanopy ------------------------------
(* One forest cell under all sequences of snowfall, sublimation and melt     *)
(* demands and leaf areas (growing or dropping leaves).                      *)
EXTENDS Canopy, TLC
CONSTANTS Depth, Snows, Temps, Lais, Sublims
VARIABLES load, k, maxcap, fallen, subl, ground
vars == <<load, k, maxcap, fallen, subl, ground>>
MCInit == load = 0 /\ k = 0 /\ maxcap = 0 /\ fallen = 0 /\ subl = 0 /\ ground = 0
MCNext == /\ k < Depth /\ k' = k + 1
          /\ \E s \in Snows, t \in Temps, lai \in Lais, d \in Sublims :
               LET cap == Capacity(44, lai)
                   i   == Intercepted(cap, load, s)
                   e   == MinF(d, load + i)
                   m   == MeltUnload(MeltPotential(50, t, 180), load + i - e)
               IN /\ load' = load + i - e - m
                  /\ maxcap' = MaxF(maxcap, cap)
                  /\ fallen' = fallen + s /\ subl' = subl + e /\ ground' = ground + s - i + m
                  /\ Assert(i >= 0 /\ i <= s, <<"intercepts more than falls", s, i>>)
MCSpec == MCInit /\ [][MCNext]_vars
Conserved == fallen = load + subl + ground
Bounded == load >= 0 /\ load <= maxcap
P1 == [min |-> 5000, max |-> 44000, add |-> 19000, plant |-> 60, cycles |-> <<<<20, 70, 120, 60>>>>]
P2 == [min |-> 0, max |-> 30000, add |-> 0, plant |-> 100, cycles |-> <<<<5, 5, 10, 7>>, <<0, 9, 0, 9>>, <<0, 0, 3, 0>>>>]
ASSUME \A p \in {P1, P2} : \A d \in 1..366 : /\ Lai(p, d) >= p.min /\ Lai(p, d) <= p.max
                                             /\ d < p.plant => Lai(p, d) = p.min
ASSUME Lai(P1, 149) = 44000 /\ Lai(P1, 269) = 44000 /\ Lai(P1, 329) = 5000 /\ Lai(P2, 128) # Lai(P2, 100)
=============================================================================
