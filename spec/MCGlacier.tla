----------------------------- MODULE MCGlacier ------------------------------
(* (a) all small glaciers: redistribution conserves ice and never makes it   *)
(* negative.  (b) all run periods and year starts: an update ends a complete *)
(* year and complete years are updated.                                      *)
EXTENDS Glacier, TLC
CONSTANTS Cells, Elevs, Ices, Losses, Firns, Months
VARIABLES z, ice0, loss, firn, t, armed, began, updates, sm, t0
vars == <<z, ice0, loss, firn, t, armed, began, updates, sm, t0>>
G == {i \in Cells : ice0[i] > 0}
Ice1 == [i \in Cells |-> MaxF(ice0[i] - loss[i], 0)]
Firn0 == [i \in Cells |-> 5000]
Firn1 == [i \in Cells |-> 5000 + firn[i]]
Res == NewIce(z, G, 100, ice0, Firn0, Ice1, Firn1)
MCInit == /\ \/ /\ z \in [Cells -> Elevs] /\ ice0 \in [Cells -> Ices] /\ loss \in [Cells -> Losses] /\ firn \in [Cells -> Firns]
                /\ sm = 1 /\ t = 0 /\ t0 = 0
             \/ /\ z = [i \in Cells |-> 0] /\ ice0 = z /\ loss = z /\ firn = z
                /\ sm \in 1..12 /\ t0 \in 1..24 /\ t = t0
          /\ armed = FALSE /\ began = 0 /\ updates = <<>>
\* two steps per month: odd t is the first, even t the last step of a month
MonthOf(x) == (((((x + 1) \div 2) - 1) % 12) + 1)
MCNext == /\ t > 0 /\ t < t0 + Months /\ t' = t + 1
          /\ LET m == MonthOf(t)
                 st == YearStarts(m, t % 2 = 1, sm)
                 en == YearEnds(m, t % 2 = 0, sm) /\ armed
             IN /\ armed' = (armed \/ st)
                /\ began' = IF st THEN t ELSE began
                /\ updates' = IF en THEN Append(updates, <<began, t>>) ELSE updates
          /\ UNCHANGED <<z, ice0, loss, firn, sm, t0>>
MCSpec == MCInit /\ [][MCNext]_vars
Conserves == G # {} => Near(SumOver(Res, G), SumOver(Ice1, G), 4 * Cardinality(Cells))
NonNeg == G # {} => \A i \in G : Res[i] >= 0
OnlyThick == G # {} => \A i \in G : ice0[i] < MinIce => Res[i] = Ice1[i]
CompleteYears == \A i \in DOMAIN updates : updates[i][2] - updates[i][1] = 23
NoYearMissed == t > 0 => Len(updates) = Cardinality({b \in t0..(t - 24) : YearStarts(MonthOf(b), b % 2 = 1, sm)})
=============================================================================
