------------------------------- MODULE TraceSun -------------------------------
(* Sun and clear-sky radiation of real runs, cell by cell.                   *)
EXTENDS Sun, TraceBase
VARIABLES l, su
TInit == l = 1 /\ su = [case |-> ""]
Ev == Trace[l]
N == Len(su.cells)
C == 1..N
Tenth(x) == IF x < 0 THEN -((5 - x) \div 10) ELSE (x + 5) \div 10
\* ---- where the sun is --------------------------------------------------------------------
Position(lat, lon, lstm, tol) ==
  LET ha == HourAngle(Ev.doy, Ev.minute, lon, lstm)
      s == SunVec(lat, ha, Tenth(Declination(Ev.doy)))
  IN [day_angle |-> Near(Ev.da, DayAngle(Ev.doy), 2),
      equation_of_time |-> Near(Ev.eot, EqTime(Ev.doy), 6),
      declination |-> Near(Ev.dec, Declination(Ev.doy), 8),
      hour_angle |-> Near(Ev.ha, ha, 2 + tol),
      sun_vector |-> Near(Ev.sv.x, s.x, 30 + (18 * tol)) /\ Near(Ev.sv.y, s.y, 30 + (18 * tol)) /\ Near(Ev.sv.z, s.z, 30 + (18 * tol)),
      zenith |-> Ev.th >= 0 /\ Ev.th <= 180000 /\ Near(CosD(Ev.th), Ev.sv.z, 20),
      horizon |-> AbsF(Ev.sv.z) > 3 => (Ev.up <=> Ev.sv.z > 0)]
\* ---- what it sends ------------------------------------------------------------------------
Inc == [c \in C |-> Incidence(Ev.sv, su.cells[c].n)]
Lit(c) == Ev.shade[su.cells[c].i] = 1
LitOnes == {c \in C : Lit(c)}
Share == (1000000 * Cardinality(LitOnes)) \div N
Facing == LET f == Inc IN IF LitOnes = {} THEN 0 ELSE SumSeq([c \in C |-> IF Lit(c) THEN f[c] ELSE 0]) \div Cardinality(LitOnes)
Ground == IF \E c \in C : IsNaN(Ev.alb[c]) THEN su.soil ELSE SumSeq(Ev.alb) \div N
Air(p, w, z) == [p |-> p, w |-> w, z |-> z, oz |-> su.a.oz, vis |-> su.a.vis, ssa |-> su.a.ssa, csa |-> su.a.csa]
Beam(s0, c, f, sky) == IF Lit(c) THEN Direct(s0, f[c], sky) ELSE 0
Close(x, y, s0) == Near(x, y, 20 + (y \div 2000) + (s0 \div 40000))
ShortOK == LET s0 == Solar(Ev.doy) f == Inc fa == Facing sh == Share g == Ground IN
  \A c \in C : LET sky == Sky(Ev.th, Air(Ev.p[c], Ev.w[c], su.cells[c].z))
                   b == Beam(s0, c, f, sky)
                   d == Diffuse(s0, Ev.sv.z, sky, g, b)
               IN /\ Close(Ev.dir[c], b, s0)
                  /\ Close(Ev.dif[c], Terrain(d, su.cells[c].svf, g, s0, IF Lit(c) THEN f[c] ELSE 0, sky, sh, fa), s0)
\* a station outside the grid on the extended one: between no and full reflection of its surroundings
StationOK == LET s0 == Solar(Ev.doy) st == su.st g == Ground i == Incidence(Ev.sv, st.n)
                 lit == Ev.shade[st.i] = 1
                 e == MulDiv(SatVap(Ev.t1), Ev.h1, 10000)
                 sky == Sky(Ev.th, Air(Pressure(10 * st.z), PrecWater(e, Ev.t1), st.z))
                 b == IF lit THEN Direct(s0, i, sky) ELSE 0
                 d == Diffuse(s0, Ev.sv.z, sky, g, b)
                 x == IF lit THEN i ELSE 0
                 lo == b + Terrain(d, st.svf, g, s0, x, sky, 0, 0)
                 hi == b + Terrain(d, st.svf, g, s0, x, sky, 1000000, 1000000)
                 q(y) == MinF(1000000, MulDiv(MinF(Ev.sw1, 2 * y) , 500000, y \div 2))
             IN lo > 3000 => \A c \in C : Ev.cf[c] >= q(hi) - 1500 /\ Ev.cf[c] <= q(lo) + 1500
LongOK == LET rock == (1000000 * Cardinality({c \in C : Ev.bare[c]})) \div N IN
  \A c \in C : LET x == LongIn(Ev.ta[c], Ev.w[c], Ev.cl[c], su.emis, su.cells[c].svf, rock, Ev.ta[c] + MulDiv(Ev.sw[c], su.rock, 1000000), Ev.ts[c])
               IN Near(Ev.lw[c], x, 12 + (x \div 5000))
Complete == \A c \in C : \A x \in {Ev.dir[c], Ev.dif[c], Ev.tot[c], Ev.lw[c]} : IsNum(x) /\ x >= 0
Day == Ev.up /\ Ev.sv.z > 300 /\ Complete
Clauses == [
  complete |-> Complete,
  dark_at_night |-> ~Ev.up => \A c \in C : Ev.dir[c] = 0 /\ Ev.dif[c] = 0 /\ Ev.tot[c] = 0 /\ Ev.sw[c] = 0,
  clear_sky |-> Day => ShortOK,
  sum |-> Complete => \A c \in C : Near(Ev.tot[c], Ev.dir[c] + Ev.dif[c], 2),
  shadow |-> Ev.up => \A c \in C : ~Lit(c) => Ev.dir[c] = 0,
  station_outside |-> (Day /\ su.st.use) => StationOK,
  longwave |-> Complete => LongOK]
TSun == /\ Ev.ev = "sun" /\ UNCHANGED su
        /\ IF Ev.error # "" THEN Report(l, Ev.case, [completed |-> FALSE])
           ELSE Report(l, Ev.case, Position(Ev.lat, Ev.lon, Ev.lstm, 0))
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [completed |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ IF Ev.error # "" THEN Report(l, Ev.case, [completed |-> FALSE])
            ELSE Report(l, Ev.case, Position(su.lat, su.lon, su.lstm, 1)) /\ Report(l, Ev.case, Clauses)
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSun \/ TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su>>
=============================================================================
