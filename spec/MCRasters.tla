----------------------------- MODULE MCRasters ------------------------------
(* All configurations and all choices of a good, absent or unsuitable file   *)
(* of each kind with at most MaxBad unsuitable or absent ones, read one      *)
(* after another.                                                            *)
EXTENDS Rasters, TLC, Json
CONSTANTS MaxBad
VARIABLES c, v, todo, outcome
G == [here |-> TRUE, rows |-> 3, cols |-> 4, x |-> 500, top |-> 3000, dx |-> 1000, dy |-> 1000]
E == [here |-> TRUE, rows |-> 6, cols |-> 6, x |-> -500, top |-> 5000, dx |-> 1000, dy |-> 1000]
None == [here |-> FALSE, rows |-> 0, cols |-> 0, x |-> 0, top |-> 0, dx |-> 0, dy |-> 0]
Vary(b, k) ==
  CASE k = "ok" -> b [] k = "absent" -> None
    [] k = "east" -> [b EXCEPT !.x = @ + b.dx] [] k = "north" -> [b EXCEPT !.top = @ + b.dy]
    [] k = "half" -> [b EXCEPT !.x = @ + (b.dx \div 2)] [] k = "halfnorth" -> [b EXCEPT !.top = @ + (b.dx \div 2)]
    [] k = "fine" -> [b EXCEPT !.dx = b.dx \div 2, !.dy = b.dy \div 2]
    [] k = "finecover" -> [b EXCEPT !.dx = b.dx \div 2, !.dy = b.dy \div 2, !.rows = 2 * @, !.cols = 2 * @]
    [] k = "rows" -> [b EXCEPT !.rows = @ + 1] [] k = "cols" -> [b EXCEPT !.cols = @ - 1]
    [] k = "swap" -> [b EXCEPT !.rows = b.cols, !.cols = b.rows]
    [] k = "rect" -> [b EXCEPT !.dy = b.dx * 2]
    [] k = "small" -> [b EXCEPT !.rows = 4, !.cols = 3]
Variants == {"ok", "absent", "east", "north", "half", "halfnorth", "fine", "finecover", "rows", "cols", "swap", "rect", "small"}
Confs == [res : {1000}, srf : BOOLEAN, lc : BOOLEAN, soil : BOOLEAN, glaciers : BOOLEAN]
Order == <<"dem", "extdem", "extsvf", "svf", "roi", "srf", "lc", "soil", "glaciers">>
Files == [k \in Kinds |-> Vary(IF k \in {"extdem", "extsvf"} THEN E ELSE G, v[k])]
\* at most MaxBad kinds are not ok; extended rasters may be left out besides
Choice == {[k \in Kinds |-> IF k \in DOMAIN b THEN b[k] ELSE IF k \in {"extdem", "extsvf"} /\ noext THEN "absent" ELSE "ok"] :
             noext \in BOOLEAN, b \in UNION {[S -> Variants \ {"ok"}] : S \in {T \in SUBSET Kinds : Cardinality(T) <= MaxBad}}}
Init == c \in Confs /\ v \in Choice /\ todo = Order /\ outcome = "reading"
Read == LET k == todo[1] IN
  /\ outcome = "reading" /\ todo # <<>> /\ todo' = Tail(todo) /\ UNCHANGED <<c, v>>
  /\ outcome' = IF k \notin Used(c, Files) THEN outcome
                ELSE IF ~Files[k].here THEN "missing" ELSE IF ~Fits(c, Files, k) THEN "raster" ELSE outcome
Start == todo = <<>> /\ outcome = "reading" /\ outcome' = "ready" /\ UNCHANGED <<c, v, todo>>
Next == Read \/ Start
Spec == Init /\ [][Next]_<<c, v, todo, outcome>>
\* --- design properties
ReadyMeansFaultless == outcome = "ready" => Faults(c, Files) = {}
FaultIsReported == outcome \in {"missing", "raster"} => outcome \in Faults(c, Files)
ReadyMeansOneGrid == outcome = "ready" => \A k \in Used(c, Files) \ {"extdem", "extsvf"} : Same4(Files[k], Files.dem)
ExtInside == outcome = "ready" /\ Files.extdem.here =>
   \A r \in 1..3, q \in 1..4 : ExtRow(Files, r) \in 1..Files.extdem.rows /\ ExtCol(Files, q) \in 1..Files.extdem.cols
Emit == todo = Order => PrintT(<<"EMIT", ToJson([c |-> c, v |-> v])>>)
=============================================================================
