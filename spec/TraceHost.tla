------------------------------ MODULE TraceHost -----------------------------
(* Words of calls carried out in one process of the real code.               *)
EXTENDS Integers, Sequences, FiniteSets, Host, TraceBase
VARIABLES l, log, root, threads, conf, ms
Ev == Trace[l]
Vars == <<l, log, root, threads, conf, ms>>
TInit == l = 1 /\ log = [own |-> 0, app |-> {}, level |-> 0] /\ root = {} /\ threads = 1 /\ conf = {} /\ ms = <<>>
Seen(e) == [own |-> e.own, app |-> {e.app[i] : i \in DOMAIN e.app}, level |-> e.level]
RootSeen(e) == {e.root[i] : i \in DOMAIN e.root}
TBegin == /\ Ev.ev = "begin" /\ log' = Seen(Ev) /\ root' = RootSeen(Ev) /\ threads' = Ev.threads /\ conf' = {} /\ ms' = Ev.models
          /\ Report(l, Ev.case, [starts_clean |-> Ev.own = 0])
Calls == {"initialize", "badstart", "step", "stepfails", "run", "runfails", "over"}
ModelOps == Calls \union {"create", "badconfig"}
\* what an operation makes of the logger and the thread count
LogAfter == CASE Ev.op \in Calls /\ Ev.m \notin conf -> Configure(log, ms[Ev.m].enabled, ms[Ev.m].level)
              [] Ev.op = "addhandler" -> [log EXCEPT !.app = @ \union {Ev.m}]
              [] Ev.op = "drophandler" -> [log EXCEPT !.app = @ \ {Ev.m}]
              [] Ev.op = "setlevel" -> [log EXCEPT !.level = Ev.m]
              [] OTHER -> log
ThreadsAfter == IF Ev.op = "setthreads" THEN Ev.m ELSE threads
RootAfter == IF Ev.op = "addroot" THEN root \union {Ev.m} ELSE root
Common == [
  threads_restored |-> Ev.threads = ThreadsAfter,
  one_default_handler |-> Ev.own <= 1,
  application_handlers_kept |-> Seen(Ev).app = LogAfter.app /\ Len(Ev.app) = Cardinality(LogAfter.app),
  default_handler_as_configured |-> Ev.own = LogAfter.own,
  level_as_configured |-> Ev.level = LogAfter.level,
  root_untouched |-> RootSeen(Ev) = RootAfter /\ Ev.rootlevel = 30 /\ Ev.propagate,
  caller_objects_kept |-> Ev.kept,
  process_settings_kept |-> Ev.settings,
  outcome |-> Ev.failed = (Ev.op \in {"badconfig", "badstart", "stepfails", "runfails", "over"}),
  threads_in_step |-> \A i \in DOMAIN Ev.during : Ev.during[i] = InStep(threads, ms[Ev.m].threads, Ev.max) \/ ms[Ev.m].threads < 0]
TOp == /\ Ev.ev = "op" /\ Report(l, Ev.case, Common)
       \* carry on from what is seen, so that one deviation is reported once
       /\ log' = Seen(Ev) /\ root' = RootSeen(Ev) /\ threads' = Ev.threads /\ UNCHANGED ms
       /\ conf' = IF Ev.op \in Calls THEN conf \union {Ev.m} ELSE conf
\* a step in a forked process: logging is set up once more there, and nothing happens here
TFork == /\ Ev.ev = "fork" /\ UNCHANGED <<log, root, threads, conf, ms>>
         /\ LET after == Configure(log, ms[Ev.m].enabled, ms[Ev.m].level) IN
            Report(l, Ev.case, [child_completed |-> ~Ev.failed, child_handler |-> Ev.own = after.own, child_level |-> Ev.level = after.level,
                                child_application_handlers |-> Seen(Ev).app = after.app, child_threads |-> Ev.threads = threads])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TBegin \/ TOp \/ TFork)
TSpec == TInit /\ [][TNext]_Vars
=============================================================================
