---------------------------- MODULE TraceGlacier ----------------------------
(* Runs with the glacier model in lockstep with a twin without it: "b" is the*)
(* state the step would have had without redistribution, "a" the actual one. *)
EXTENDS Glacier, TraceBase
VARIABLES l, su, yr
TInit == l = 1 /\ su = [case |-> ""] /\ yr = [on |-> FALSE]
Ev == Trace[l]
Cells == 1..su.cells
Ids == {su.id[c] : c \in {d \in Cells : su.id[d] > 0}}
Ends == YearEnds(Ev.month, Ev.last, su.sm)
Due == Ends /\ yr.on
GCells(g) == {c \in Cells : su.id[c] = g /\ yr.ice[c] > 0}
Want(g) == NewIce(su.z, GCells(g), su.res, yr.ice, yr.firn, Ev.b.ice, Ev.b.firn)
SumB(g) == SumOver(Ev.b.ice, GCells(g))
Tol(c) == 6 + Ev.b.ice[c] \div 50000 + AbsF(Ev.b.ice[c] - yr.ice[c]) \div 5000
Always == [
  only_at_year_end |-> ~Due => Ev.same,
  rest_of_the_state |-> Ev.restsame,
  ice_not_negative |-> \A c \in Cells : Ev.a.ice[c] >= 0,
  consistent |-> Ev.consistent]
AtEnd == [
  distribution |-> \A g \in Ids : GCells(g) # {} => LET w == Want(g) IN \A c \in GCells(g) : Near(Ev.a.ice[c], w[c], Tol(c)),
  conserved |-> \A g \in Ids : GCells(g) # {} => Near(SumOver(Ev.a.ice, GCells(g)), SumB(g), 2 + Cardinality(GCells(g))),
  others_untouched |-> \A c \in Cells : (su.id[c] <= 0 \/ yr.ice[c] = 0) => Near(Ev.a.ice[c], Ev.b.ice[c], 0)]
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ yr' = [on |-> FALSE] /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN UNCHANGED yr /\ Report(l, Ev.case, [completed |-> FALSE])
            ELSE /\ Report(l, Ev.case, Always)
                 /\ (Due => Report(l, Ev.case, AtEnd))
                 /\ yr' = IF YearStarts(Ev.month, Ev.first, su.sm) THEN [on |-> TRUE, ice |-> Ev.a.ice, firn |-> Ev.a.firn] ELSE yr
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su, yr>>
=============================================================================
