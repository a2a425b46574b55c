----------------------------- MODULE TraceConfig ----------------------------
(* Configurations given to the real parser and what came out of it.          *)
EXTENDS Integers, Sequences, Config, Fixed, TraceBase
VARIABLES l, pin
TInit == l = 1 /\ pin = [x |-> ""]
Ev == Trace[l]
Close(x, y) == x - y <= 1 /\ y - x <= 1
CfgClauses ==
  LET r == Ev.raw
      n == Norm(r)
      e == Ev.eff IN
  [accepted_iff_compatible |-> Ev.accepted = Accept(r),
   rejected_with_configuration_error |-> ~Ev.accepted => Ev.error = "ConfigurationError",
   dates |-> Ev.accepted => e.start = n.start /\ e.end = n.end /\ e.step = n.step /\ (r.wf > 0 => e.wf = n.wf),
   modules |-> Ev.accepted => e.snow = n.snow /\ e.melt = n.melt /\ e.ddf = n.ddf /\ e.af = n.af /\ e.glaciers = n.glaciers,
   old_names |-> Ev.accepted => e.method = n.method /\ e.csf_night_method = n.csf_night_method /\ e.wind = n.wind,
   old_units |-> Ev.accepted => Close(e.thresh, n.thresh),
   old_albedo |-> Ev.accepted =>
     /\ e.albedo.method = n.albedo.method /\ Close(e.albedo.cold, n.albedo.cold) /\ Close(e.albedo.melting, n.albedo.melting)
     /\ e.albedo.temp = n.albedo.temp /\ Close(e.albedo.refresh, n.albedo.refresh) /\ e.albedo.how = n.albedo.how,
   parsed_again_unchanged |-> Ev.again = "", written_and_read_unchanged |-> Ev.rewritten = "", caller_unchanged |-> Ev.kept]
Want(p) == IF p \in DOMAIN Ev.set THEN Ev.set[p] ELSE pin[p]
LeafClauses ==
  [accepted |-> Ev.accepted,
   user_settings_kept |-> Ev.accepted => \A p \in DOMAIN Ev.set : Ev.set[p] = "absent" \/ (p \in DOMAIN Ev.eff /\ Ev.eff[p] = Ev.set[p]),
   defaults_completed |-> Ev.accepted => \A p \in DOMAIN pin : p \notin DOMAIN Ev.set => p \in DOMAIN Ev.eff /\ Ev.eff[p] = pin[p],
   caller_unchanged |-> Ev.kept]
BadClauses == [invalid_rejected |-> ~Ev.accepted /\ Ev.error = "ConfigurationError", caller_unchanged |-> Ev.kept]
TPin == Ev.ev = "pin" /\ pin' = Ev.defaults
TCfg == Ev.ev = "cfg" /\ UNCHANGED pin /\ Report(l, Ev.case, CfgClauses)
TLeaf == Ev.ev = "leaf" /\ UNCHANGED pin /\ Report(l, Ev.case, LeafClauses)
TBad == Ev.ev = "bad" /\ UNCHANGED pin /\ Report(l, Ev.case, BadClauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TPin \/ TCfg \/ TLeaf \/ TBad)
TSpec == TInit /\ [][TNext]_<<l, pin>>
=============================================================================
