----------------------------- MODULE TraceCells -----------------------------
(* Lockstep runs of the real code.  h: digest of the state of every cell of  *)
(* the run's region per step; outside: values of every variable outside.     *)
EXTENDS Integers, Sequences, FiniteSets, Fixed, TraceBase
VARIABLES l, su
TInit == l = 1 /\ su = [case |-> ""]
Ev == Trace[l]
SeqSet(s) == {s[i] : i \in DOMAIN s}
Roi(r) == {c \in 1..su.cells : su.roi[r][c]}
Agree(r) == \A c \in Roi(r) \cap Roi("base") : Ev.h[r][c] = Ev.h["base"][c]
Bare(v) == IF v \in DOMAIN su.bare THEN {su.bare[v]} ELSE {}
\* outside: variable -> values; an unlisted variable has no values but those it had after initialization
OutsideOK(r) == \A v \in DOMAIN Ev.outside[r] : SeqSet(Ev.outside[r][v]) \subseteq ({NaNV, 0} \cup Bare(v))
Clauses == [
  outside_untouched |-> OutsideOK("base"),
  outside_untouched_full_forcing |-> OutsideOK("outer"),
  outside_no_influence |-> Agree("outer"),
  outside_states_no_influence |-> Agree("dirty"),
  region_no_influence |-> su.subset => Agree("sub"),
  reset_same_results |-> Agree("reset"),
  reset_to_no_data |-> Ev.stale = <<>>,
  persistent_kept |-> Ev.lost = <<>>]
TSetup == Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN Report(l, Ev.case, [completed |-> FALSE]) ELSE Report(l, Ev.case, Clauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su>>
=============================================================================
