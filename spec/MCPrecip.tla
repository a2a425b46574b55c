------------------------------ MODULE MCPrecip ------------------------------
(* All small fields of temperatures and elevations under all settings: the   *)
(* partition closes, snow lies above rain when enforced, corrections touch   *)
(* the snow part only.  Every setting/temperature pattern is emitted and     *)
(* replayed into the real code.                                              *)
EXTENDS Precip, TLC, Json
CONSTANTS Cells, Ranges, Offs, Amounts
VARIABLES c, ts, zs, k
Thr == 273650
Of == {-1201, -400, 0, 499, 1300}
Am == <<0, 7, 123457, 1000>>
ps == [i \in 1..Cells |-> Amounts[((i + k) % Len(Amounts)) + 1]]
srf == [i \in 1..Cells |-> <<0, 1000, 2500>>[((i + k) % 3) + 1]]
MCInit == /\ c \in {[thr |-> Thr, range |-> r, enforce |-> e] : r \in Ranges, e \in BOOLEAN}
          /\ ts \in [1..Cells -> {Thr + o : o \in Offs}]
          /\ zs \in [1..Cells -> {1000, 2000, 3000}]
          /\ k = 0
MCNext == k < 2 /\ k' = k + 1 /\ UNCHANGED <<c, ts, zs>>
MCSpec == MCInit /\ [][MCNext]_<<c, ts, zs, k>>
I == 1..Cells
Closes == \A i \in I : Snow0(c, ts, zs, ps, i) + Rain0(c, ts, zs, ps, i) = ps[i]
NonNeg == \A i \in I : Snow0(c, ts, zs, ps, i) >= 0 /\ Rain0(c, ts, zs, ps, i) >= 0
\* with the option on no snow falls at or below a cell where everything is rain
NoSnowBelowRain == c.enforce => \A i, j \in I :
   AllRain(c, ts[j]) /\ zs[i] <= zs[j] => Snow0(c, ts, zs, ps, i) = 0
\* the option never adds snow
OnlyLess == \A i \in I : Snow0(c, ts, zs, ps, i) <= Snow0([c EXCEPT !.enforce = FALSE], ts, zs, ps, i)
Monotone == \A i, j \in I : ts[i] <= ts[j] => SnowPart(c, ts[i], 1000) >= SnowPart(c, ts[j], 1000)
Half == c.range > 0 => Near(SnowPart(c, c.thr, 10000), 5000, 1)
RedistOnlySnow == \A i \in I : srf[i] = 1000 => SnowOf(c, ts, zs, ps, srf, i) = Snow0(c, ts, zs, ps, i)
ScfOnlySnow == \A i \in I : \A s \in {500, 1000, 1300} :
   LET q == Corrected(c, [m |-> "scf", scf |-> s], ps[i], ts[i], ts[i], 0, 0)
   IN /\ AllRain(c, ts[i]) => q = ps[i]
      /\ AllSnow(c, ts[i]) => q = Times(ps[i], s, 1000)
      /\ (s = 1000 => q = ps[i])
Gauges == {"nipher", "tretyakov", "us_sh", "us_unsh", "hellmann"}
WmoRainUntouched == \A i \in I : \A g \in Gauges : AllRain(c, ts[i]) =>
   Corrected(c, [m |-> "wmo", g |-> g], ps[i], ts[i], ts[i], 5000, 4000) = ps[i]
\* undercatch: stronger wind never means a smaller correction
WmoMonotone == \A g \in Gauges : \A w \in 1..6 : WmoSnow(g, 1000 * w, -5000) + 30 >= WmoSnow(g, 1000 * w + 1000, -5000)
Emit == k = 0 /\ zs = [i \in I |-> 1000 * (((i - 1) % 3) + 1)] =>
          PrintT(<<"EMIT", ToJson([range |-> c.range, enforce |-> c.enforce, off |-> [i \in I |-> ts[i] - Thr]])>>)
ASSUME WmoMonotone
ASSUME /\ Near(Ln(7000), 1945910, 60) /\ Near(Pow(5000, 175), 16719, 20) /\ Near(Atan(10000), 7854, 3) /\ Near(Atan(-55000), -13909, 4)
=============================================================================
