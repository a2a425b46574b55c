---------------------------- MODULE MCSoilWater -----------------------------
(* All weather words on one cell: both stores stay bounded, balance, and     *)
(* percolate only when full; the words are replayed into the real code.      *)
EXTENDS SoilWater, TLC, Json
CONSTANTS K, EmitK, Alphabet
VARIABLES word, de, dr, inn, outt, ok
vars == <<word, de, dr, inn, outt, ok>>
Pas == [plant |-> 60, cycles |-> <<<<10, 20, 210, 30>>>>, ini |-> 300000, mid |-> 900000, end |-> 800000,
        scale |-> TRUE, height |-> 225, sparse |-> 0]
Kmin == 175000
Tew == TotalEvaporable(1, 125)
Rew == Readily[1]
Taw == TotalAvailable(1, 100)
Raw == ReadilyAvailable(1, 100, 600)
W(x) == CASE x = "sun"  -> [rain |-> 0, et |-> 600000, snow |-> FALSE]
          [] x = "hot"  -> [rain |-> 0, et |-> 1500000, snow |-> FALSE]
          [] x = "rain" -> [rain |-> 300000, et |-> 50000, snow |-> FALSE]
          [] x = "pour" -> [rain |-> 3000000, et |-> 0, snow |-> FALSE]
          [] x = "snow" -> [rain |-> 0, et |-> 0, snow |-> TRUE]
          [] OTHER      -> [rain |-> 100000, et |-> 400000, snow |-> FALSE]     \* "shower"
MCInit == word = <<>> /\ de = 0 /\ dr = 0 /\ inn = 0 /\ outt = 0 /\ ok = TRUE
Kcb == Crop(Pas, Kmin, 0, 160).k
Few == Exposed(Pas, Kcb, 0, Kmin, Height(Pas, Kmin, 0, 160))
MCNext == /\ Len(word) < K
          /\ \E x \in Alphabet :
               LET w == W(x)
                   e == IF w.snow THEN 0 ELSE Times(w.et, Ke(Kr(de, Tew, Rew), Kcb, KcMax(Kcb, 0), Few), One)
                   t == IF w.snow THEN 0 ELSE Times(Times(w.et, Kcb, One), Ks(dr, Taw, Raw), One)
                   ef == Times(e, One, Few)
                   pe == Percolation(de, w.rain, 0)
                   pr == Percolation(dr, w.rain, e + t)
               IN /\ word' = Append(word, x)
                  /\ de' = IF w.snow THEN de ELSE Depleted(de, Tew, w.rain, ef, pe)
                  /\ dr' = Depleted(dr, Taw, w.rain, e + t, pr)
                  /\ inn' = inn + w.rain + Short(dr, Taw, w.rain, e + t, pr)
                  /\ outt' = outt + e + t + pr
                  /\ ok' = (e >= 0 /\ t >= 0 /\ (pr > 0 => dr' = 0) /\ (pe > 0 => de' <= ef)
                            /\ (dr = Taw => t = 0) /\ (de = Tew => e = 0))
MCSpec == MCInit /\ [][MCNext]_vars
Bounded == de >= 0 /\ de <= Tew /\ dr >= 0 /\ dr <= Taw
Balanced == dr = outt - inn
Rules == ok
Emit == Len(word) = EmitK => PrintT(<<"EMIT", ToJson([w |-> word])>>)
ASSUME Near(NegLn(500000), 693147, 8) /\ Near(NegLn(10000), 4605170, 12) /\ Near(NegLn(900000), 105361, 8)
ASSUME TotalEvaporable(1, 125) = 1218750 /\ TotalAvailable(1, 500) = 3750000
ASSUME \A d \in 1..366 : LET c == Crop(Pas, Kmin, 0, d).k IN c >= Kmin /\ c <= 900000
=============================================================================
