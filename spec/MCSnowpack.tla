----------------------------- MODULE MCSnowpack -----------------------------
(* All weather words up to length K on a small pack; the words (with the     *)
(* model's answer) are emitted and replayed into the real code.              *)
EXTENDS Snowpack, TLC, Json
CONSTANTS K, EmitK, Alphabet
VARIABLES pack, word, inn, outt, bare
W(x) == CASE x = "cold"  -> [s |-> 0, r |-> 0, m |-> 0, v |-> 0,  f |-> 2]
          [] x = "snow"  -> [s |-> 2, r |-> 0, m |-> 0, v |-> 0,  f |-> 1]
          [] x = "heavy" -> [s |-> 9, r |-> 0, m |-> 0, v |-> 0,  f |-> 1]
          [] x = "mixed" -> [s |-> 1, r |-> 1, m |-> 1, v |-> 0,  f |-> 0]
          [] x = "rain"  -> [s |-> 0, r |-> 3, m |-> 1, v |-> 0,  f |-> 0]
          [] x = "icy"   -> [s |-> 0, r |-> 2, m |-> 0, v |-> 0,  f |-> 2]
          [] x = "warm"  -> [s |-> 0, r |-> 0, m |-> 2, v |-> 0,  f |-> 0]
          [] x = "hot"   -> [s |-> 0, r |-> 0, m |-> 8, v |-> 1,  f |-> 0]
          [] x = "windy" -> [s |-> 0, r |-> 0, m |-> 0, v |-> 2,  f |-> 0]
          [] OTHER       -> [s |-> 0, r |-> 0, m |-> 0, v |-> -1, f |-> 1]     \* "frost"
MinT == <<2, 3, 4>>
MCInit == pack = <<>> /\ word = <<>> /\ inn = 0 /\ outt = 0 /\ bare = TRUE
MCNext == /\ Len(word) < K
          /\ \E x \in Alphabet :
               LET q == StepPack(pack, W(x), MinT)
               IN /\ pack' = q.p /\ word' = Append(word, x)
                  /\ inn' = inn + W(x).s + W(x).r + (IF q.sub < 0 THEN -q.sub ELSE 0)
                  /\ outt' = outt + q.runoff + (IF q.sub > 0 THEN q.sub ELSE 0)
                  /\ bare' = (W(x).s = 0 /\ W(x).v >= 0 /\ pack = <<>> => q.runoff = W(x).r /\ q.p = <<>>)
MCSpec == MCInit /\ [][MCNext]_<<pack, word, inn, outt, bare>>
Conserved == Mass(pack) = inn - outt
NonNegative == \A i \in DOMAIN pack : pack[i].ice > 0 /\ pack[i].liq >= 0
CapacityOK == \A i \in DOMAIN pack : pack[i].liq <= Cap(pack[i])
Layered == [i \in DOMAIN pack |-> pack[i].ice] = Layering(Ice(pack), MinT) /\ Len(pack) <= 3
BarePasses == bare
Emit == Len(word) = EmitK => PrintT(<<"EMIT", ToJson([w |-> word])>>)
\* the layering itself, over all depths
LayeringOK == \A d \in 1..60 : LET th == Layering(d, MinT)
                               IN /\ SumSeq(th) = d
                                  /\ \A i \in DOMAIN th : th[i] > 0 /\ (i < Len(th) => th[i] >= MinT[i])
ASSUME LayeringOK
=============================================================================
