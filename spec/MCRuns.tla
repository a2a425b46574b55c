------------------------------- MODULE MCRuns -------------------------------
(* Schedules of instances.  Every instance owns its state; `buf` is what an  *)
(* implementation might share between instances of a process, and Leak says  *)
(* whether it would be read: the design holds only if it is not.             *)
EXTENDS Runs, TLC, Json
CONSTANTS N, Inst, Depth, Leak
SimOf(i) == IF i % 2 = 1 THEN "a" ELSE "b"
VARIABLES st, buf, obs, word
Init == st = [i \in Inst |-> [ph |-> "none", seen |-> <<>>]] /\ buf = "none" /\ obs = {} /\ word = <<>>
Do(op, i) == word' = Append(word, [op |-> op, i |-> i])
Consume(i, k) == LET S == st[i].seen IN [ph |-> "on", seen |-> S \o [n \in 1..k |-> IF Leak THEN buf ELSE SimOf(i)]]
Pos(i) == Len(st[i].seen)
Obs(i, s) == obs \union {[sim |-> SimOf(i), pos |-> Len(s.seen), state |-> s.seen]}
New(i) == st[i].ph \in {"none", "gone"} /\ st' = [st EXCEPT ![i] = [ph |-> "new", seen |-> <<>>]] /\ buf' = SimOf(i) /\ UNCHANGED obs /\ Do("new", i)
Step(i) == /\ st[i].ph \in {"new", "on"} /\ Pos(i) < N
           /\ LET s == Consume(i, 1) IN st' = [st EXCEPT ![i] = s] /\ obs' = Obs(i, s) /\ buf' = SimOf(i) /\ Do("step", i)
Run(i) == /\ st[i].ph = "new"
          /\ LET s == Consume(i, N) IN st' = [st EXCEPT ![i] = s] /\ obs' = Obs(i, s) /\ buf' = SimOf(i) /\ Do("run", i)
Copy(i) == st[i].ph \in {"new", "on"} /\ Pos(i) < N /\ (word # <<>> => word[Len(word)].op # "copy") /\ UNCHANGED <<st, buf, obs>> /\ Do("copy", i)
Drop(i) == st[i].ph = "on" /\ st' = [st EXCEPT ![i] = [ph |-> "gone", seen |-> <<>>]] /\ UNCHANGED <<buf, obs>> /\ Do("drop", i)
Next == Len(word) < Depth /\ \E i \in Inst : New(i) \/ Step(i) \/ Run(i) \/ Copy(i) \/ Drop(i)
Spec == Init /\ [][Next]_<<st, buf, obs, word>>
Last == IF word = <<>> THEN <<>> ELSE word[Len(word)]
View == <<st, buf, Last>>
ResultsAreAFunction == Functional(obs)
OwnData == \A i \in Inst : \A k \in DOMAIN st[i].seen : st[i].seen[k] = SimOf(i)
Emit == Len(word) >= 6 => PrintT(<<"EMIT", ToJson(word)>>)
=============================================================================
