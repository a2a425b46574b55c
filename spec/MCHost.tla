------------------------------- MODULE MCHost -------------------------------
(* Interleavings of models and an application in one process.  Levels: 0 is  *)
(* not set, 10 and 20 those of the two models, 30 the application's.         *)
EXTENDS Host, TLC, Json
CONSTANTS Depth, Models, MaxThreads
VARIABLES log, root, threads, made, conf, phase, word
Handlers == {1}
Init == /\ log = [own |-> 0, app |-> {}, level |-> 0] /\ root = {} /\ threads = MaxThreads
        /\ made \in [Models -> BOOLEAN]          \* with the default log handler or without
        /\ conf = [m \in Models |-> FALSE] /\ phase = [m \in Models |-> "new"] /\ word = <<>>
Do(op, m) == word' = Append(word, [op |-> op, m |-> m])
Level(m) == 10 * m
Setup(m) == IF conf[m] THEN log ELSE Configure(log, made[m], Level(m))
\* any call of a model: sets logging up once; threads are put back, also if it fails
Call(op, m, from, to) == /\ phase[m] \in from /\ phase' = [phase EXCEPT ![m] = to] /\ log' = Setup(m)
                         /\ conf' = [conf EXCEPT ![m] = TRUE] /\ UNCHANGED <<root, threads, made>> /\ Do(op, m)
Create(m) == /\ phase[m] = "new" /\ phase' = [phase EXCEPT ![m] = "made"] /\ UNCHANGED <<log, root, threads, made, conf>> /\ Do("create", m)
Reject == UNCHANGED <<log, root, threads, made, conf, phase>> /\ Do("badconfig", 0)
InitOK(m) == Call("initialize", m, {"made"}, "ready")
InitBad(m) == Call("badstart", m, {"made"}, "made")
Step(m) == Call("step", m, {"ready", "stepped"}, "stepped")
StepFails(m) == Call("stepfails", m, {"ready", "stepped"}, "stepped")
Run(m) == Call("run", m, {"ready"}, "done")
RunFails(m) == Call("runfails", m, {"ready"}, "broken")
Over(m) == Call("over", m, {"done"}, "done")
Fork(m) == /\ phase[m] \in {"ready", "stepped"} /\ UNCHANGED <<log, root, threads, made, conf, phase>> /\ Do("fork", m)
App == \/ \E h \in Handlers \ log.app : log' = [log EXCEPT !.app = @ \union {h}] /\ UNCHANGED <<root, threads>> /\ Do("addhandler", h)
       \/ \E h \in log.app : log' = [log EXCEPT !.app = @ \ {h}] /\ UNCHANGED <<root, threads>> /\ Do("drophandler", h)
       \/ log.level # 30 /\ log' = [log EXCEPT !.level = 30] /\ UNCHANGED <<root, threads>> /\ Do("setlevel", 30)
       \/ root = {} /\ root' = {1} /\ UNCHANGED <<log, threads>> /\ Do("addroot", 1)
       \/ \E n \in 1..MaxThreads : n # threads /\ threads' = n /\ UNCHANGED <<log, root>> /\ Do("setthreads", n)
Next == /\ Len(word) < Depth
        /\ \/ Reject \/ (App /\ UNCHANGED <<made, conf, phase>>)
           \/ \E m \in Models : Create(m) \/ InitOK(m) \/ InitBad(m) \/ Step(m) \/ StepFails(m) \/ Run(m) \/ RunFails(m) \/ Over(m) \/ Fork(m)
Spec == Init /\ [][Next]_<<log, root, threads, made, conf, phase, word>>
Last == IF word = <<>> THEN "" ELSE word[Len(word)].op
View == <<log, root, threads, made, conf, phase, Last>>
\* --- design properties
OneDefault == log.own \in {0, 1}
DefaultOnlyIfAsked == log.own = 1 => \E m \in Models : conf[m] /\ made[m]
\* a model never changes what the application has set
ModelOps == {"create", "badconfig", "initialize", "badstart", "step", "stepfails", "run", "runfails", "over", "fork"}
HandsOff == [][word' # word /\ word'[Len(word')].op \in ModelOps => log'.app = log.app /\ root' = root /\ threads' = threads
               /\ (log.app # {} => log'.level = log.level) /\ log'.own <= (IF log.app # {} THEN log.own ELSE 1)]_<<log, root, threads, word>>
SettledAfterFirst == [][\A m \in Models : word' # word /\ word'[Len(word')].op \in ModelOps /\ word'[Len(word')].m = m /\ conf[m] => log' = log]_<<log, word>>
Emit == Len(word) > 2 => PrintT(<<"EMIT", ToJson([w |-> word, d |-> [m \in Models |-> made[m]]])>>)
=============================================================================
