------------------------------ MODULE MCClouds ------------------------------
(* Histories of what the stations offer; cloudiness of one cell as the pair  *)
(* (origin, value), values 0..4 standing for what an origin supplies.        *)
EXTENDS Clouds, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth, Values
VARIABLES c, word, cell, last
None == 99
Configs == [method : {"prescribed", "clear_sky_fraction", "humidity"}, night : {"humidity", "constant"}, fallback : BOOLEAN]
Offers == [sun : BOOLEAN, cover : {0, 1}, rad : {0, 1}, hum : {0, 1}]
Init == c \in Configs /\ word = <<>> /\ cell = None /\ last = "none"
Step(o, v) ==
  LET s == Source(c, o.sun, o.cover, o.rad, o.hum) IN
  /\ word' = Append(word, o) /\ last' = s /\ UNCHANGED c
  /\ cell' = IF s = "constant" THEN IF cell = None THEN 4 ELSE cell
             ELSE IF Supply(s, o.cover, o.rad, o.hum) = 0 THEN None ELSE v
Next == Len(word) < Depth /\ \E o \in Offers, v \in Values : Step(o, v)
Spec == Init /\ [][Next]_<<c, word, cell, last>>
View == <<c, word, cell>>
\* --- design properties
Cur == word[Len(word)]
NeverWithout == c.fallback /\ word # <<>> => cell # None
FirstApplicable == word # <<>> =>
  /\ c.method = "prescribed" /\ Cur.cover = 1 => last = "prescribed"
  /\ c.method = "humidity" /\ Cur.hum = 1 => last = "humidity"
  /\ c.method # "humidity" /\ Cur.sun /\ Cur.rad = 1 /\ c.fallback => last \in {"prescribed", "clear_sky_fraction"}
  /\ ~Cur.sun => last # "clear_sky_fraction" \/ FALSE
  /\ last = "constant" => c.night = "constant" \/ (c.fallback /\ Cur.hum = 0)
OnlyOffered == word # <<>> /\ c.fallback => Supply(last, Cur.cover, Cur.rad, Cur.hum) > 0 \/ last = "constant"
ASSUME \A n \in 0..100 : FactorOf(n * 100) \in Overcast..10000
ASSUME \A n \in 0..99 : FactorOf((n + 1) * 100) <= FactorOf(n * 100)
ASSUME \A s \in {"winter", "equinox", "summer"}, t \in 0..1439 : ~(SurelyDay(s, t) /\ SurelyNight(s, t))
Emit == Len(word) = Depth /\ cell \in {None, 0, 4} => PrintT(<<"EMIT", ToJson([c |-> c, w |-> word])>>)
=============================================================================
