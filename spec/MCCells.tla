------------------------------- MODULE MCCells ------------------------------
(* Self-composition: a run, the same with other values outside the region,   *)
(* with a smaller region, and with scratch state wiped before every step.    *)
EXTENDS Cells
CONSTANTS Depth
VARIABLES a, outer, sub, wiped, k
vars == <<a, outer, sub, wiped, k>>
Grids(roi) == {[roi |-> roi, keep |-> [c \in Cell |-> IF c \in roi THEN 0 ELSE x], tmp |-> [c \in Cell |-> NoData]] : x \in {NoData, 3}}
MCInit == /\ k = 0
          /\ \E R \in SUBSET Cell : \E S \in SUBSET R :
               /\ a = [roi |-> R, keep |-> [c \in Cell |-> IF c \in R THEN 0 ELSE NoData], tmp |-> [c \in Cell |-> NoData]]
               /\ outer \in Grids(R) /\ wiped = a
               /\ sub = [roi |-> S, keep |-> [c \in Cell |-> IF c \in S THEN 0 ELSE NoData], tmp |-> [c \in Cell |-> NoData]]
MCNext == /\ k < Depth /\ k' = k + 1
          /\ \E wx \in [Cell -> Weather], wo \in Weather :
               /\ a' = StepGrid(a, wx) /\ sub' = StepGrid(sub, wx) /\ wiped' = StepGrid(Wipe(wiped), wx)
               /\ outer' = StepGrid(outer, [c \in Cell |-> IF c \in a.roi THEN wx[c] ELSE wo])
MCSpec == MCInit /\ [][MCNext]_vars
OutsideNeverMatters == AgreeOn(a, outer, a.roi)
RegionNeverMatters == AgreeOn(a, sub, sub.roi)
WipingNeverMatters == AgreeOn(a, wiped, a.roi) /\ a.keep = wiped.keep
OutsideUntouched == \A c \in Cell \ a.roi : a.keep[c] = NoData /\ a.tmp[c] = NoData
=============================================================================
