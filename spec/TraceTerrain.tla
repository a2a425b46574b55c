----------------------------- MODULE TraceTerrain -----------------------------
(* Terrain parameters, shadows and sky view of the implementation.           *)
EXTENDS Terrain, TraceBase
VARIABLES l
TInit == l = 1
Ev == Trace[l]
G == Ev.g
I == 1..Rows(G)
J == 1..Cols(G)
Small == Rows(G) < 3 \/ Cols(G) < 3
P6(x, y) == SMulDiv(x, AbsF(y), 1000000) * (IF y < 0 THEN -1 ELSE 1)
Big(x) == AbsF(x) >= 1000000
Times(x, y) == IF Big(y) THEN P6(y, x) ELSE P6(x, y)           \* one factor is at most 1
\* slope and aspect point down the Horn gradient
Gtol(gx, gy) == 70 + ((AbsF(gx) + AbsF(gy)) \div 12000)
SlopeOK(i, j) == LET ge == Grad8(East8(G, i, j), Ev.res) gs == Grad8(South8(G, i, j), Ev.res) s == Ev.s[i][j] az == Ev.a[i][j] IN
  IF ge = 0 /\ gs = 0 THEN s = 0
  ELSE /\ s > 0 /\ s < 90000 /\ az >= 0 /\ az <= 360000
       /\ Near(P6(SinD(s), SinD(az)), -Times(CosD(s), ge), Gtol(ge, gs))
       /\ Near(P6(SinD(s), CosD(az)), Times(CosD(s), gs), Gtol(ge, gs))
NormalOK(i, j) == LET ge == GradQ(EastQ(G, i, j), Ev.res) gs == GradQ(SouthQ(G, i, j), Ev.res) x == Ev.nx[i][j] y == Ev.ny[i][j] z == Ev.nz[i][j] IN
  /\ z > 0 /\ Near(P6(x, x) + P6(y, y) + P6(z, z), 1000000, 8)
  /\ Near(x, -Times(z, ge), 8 + (AbsF(ge) \div 200000)) /\ Near(y, Times(z, gs), 8 + (AbsF(gs) \div 200000))
FieldClauses == [
  slope_aspect |-> IF Small THEN \A i \in I, j \in J : Ev.s[i][j] = 0 ELSE \A i \in I, j \in J : SlopeOK(i, j),
  normal_vector |-> IF Small THEN \A i \in I, j \in J : Ev.nx[i][j] = 0 /\ Ev.ny[i][j] = 0 /\ Ev.nz[i][j] = 1000000
                    ELSE \A i \in I, j \in J : NormalOK(i, j)]
CurvClauses == [curvature |-> \A i \in I, j \in J : Near(Ev.c[i][j], Curv(G, i, j, Ev.n, Ev.len), 4 + (AbsF(Ev.c[i][j]) \div 10000))]
\* scaled to [-0.5, 0.5] over the grid
CurvAll == {Curv(G, i, j, Ev.n, Ev.len) : i \in I, j \in J}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Scaled == LET lo == Least(CurvAll) hi == Most(CurvAll) IN
  \A i \in I, j \in J : IF hi - lo <= 4 THEN Ev.c[i][j] >= -500000 /\ Ev.c[i][j] <= 500000
     ELSE Near(Ev.c[i][j], MulDiv(1000000, Curv(G, i, j, Ev.n, Ev.len) - lo, hi - lo) - 500000, 20 + (8000000 \div (hi - lo)))
\* ---- shadows -----------------------------------------------------------------
T == TanD(Ev.el)
Rise(d, t) == IF t <= 1000000 THEN MulDiv(d, t, 1000000) ELSE MulDiv(d, t \div 100, 10000)       \* d 1e-2 m
Above(i, j, a, b, d, t) == G[a][b] - G[i][j] - Rise(d, t)
Eps(d, t) == 2 + (Rise(d, t) \div 5000)
Dist8(n, k) == MulDiv(n * Dir8(k)[3], Ev.res, 100)
MainShadow(i, j, k, t, sgn) == \E n \in Obstacles(G, i, j, k) :
   Above(i, j, i + (n * Dir8(k)[1]), j + (n * Dir8(k)[2]), Dist8(n, k), t) > sgn * Eps(Dist8(n, k), t)
MainOK == LET k == Ev.az \div 45000 IN \A i \in I, j \in J :
   IF Ev.lit[i][j] = 0 THEN MainShadow(i, j, k, T, -1) ELSE ~MainShadow(i, j, k, T, 1)
\* any azimuth: towards the sun, per step of one cell along the longer axis
SE == SinD(Ev.az)
SN == CosD(Ev.az)
RowMajor == AbsF(SN) >= AbsF(SE)
Long == IF RowMajor THEN AbsF(SN) ELSE AbsF(SE)
Slant == IF RowMajor THEN SMulDiv(SE, 1000000, Long) ELSE SMulDiv(-SN, 1000000, Long)     \* columns per row / rows per column
Ahead == IF RowMajor THEN (IF SN > 0 THEN -1 ELSE 1) ELSE (IF SE > 0 THEN 1 ELSE -1)
StepLen == MulDiv(10000, 1000000, Long)
DistA(n) == MulDiv(n * StepLen, Ev.res, 100)
NMax == MaxF(Rows(G), Cols(G))
Aside(n, w) == {x \in (-2 - NMax)..(2 + NMax) : AbsF((x * 1000000) - (n * Slant)) <= w * 1000000 + 10}
Ri(i, n, x) == IF RowMajor THEN i + (Ahead * n) ELSE i + x
Cj(j, n, x) == IF RowMajor THEN j + x ELSE j + (Ahead * n)
Cells(i, j, n, w) == {<<Ri(i, n, x), Cj(j, n, x)>> : x \in Aside(n, w)}
AnyOvertop(i, j) == \E n \in 1..NMax : \E q \in Cells(i, j, n, 1) : In(G, q[1], q[2]) /\ Above(i, j, q[1], q[2], DistA(n), T) > -Eps(DistA(n), T)
SureShadow(i, j) == \E n \in 1..NMax : (\A q \in Cells(i, j, n, 2) : In(G, q[1], q[2])) /\ \A q \in Cells(i, j, n, 1) : Above(i, j, q[1], q[2], DistA(n), T) > Eps(DistA(n), T)
GenOK == \A i \in I, j \in J : IF Ev.lit[i][j] = 0 THEN AnyOvertop(i, j) ELSE ~SureShadow(i, j)
SunClauses == [lit_is_0_or_1 |-> \A i \in I, j \in J : Ev.lit[i][j] \in {0, 1},
               shadow |-> IF Ev.main THEN MainOK ELSE GenOK]
\* ---- sky view ------------------------------------------------------------------
Tans == [e \in 1..84 |-> TanD(e * 1000)]
Cos2 == [e \in 1..84 |-> P6(CosD(e * 1000), CosD(e * 1000))]
\* lowest elevation (whole degrees, no more than the steepest slope) at which the cell sees the sun
RECURSIVE Horizon(_, _, _, _, _)
Horizon(i, j, k, e, sgn) == IF e >= Ev.steep THEN Ev.steep ELSE IF ~MainShadow(i, j, k, Tans[e], sgn) THEN e ELSE Horizon(i, j, k, e + 1, sgn)
ViewOK(i, j) == LET most == SumSeq([k \in 1..8 |-> Cos2[Horizon(i, j, k - 1, 1, 1)]]) \div 8
                    less == SumSeq([k \in 1..8 |-> Cos2[Horizon(i, j, k - 1, 1, -1)]]) \div 8
                IN Ev.svf[i][j] <= most + 10 /\ Ev.svf[i][j] >= less - 10
HighestCell(i, j) == \A a \in I, b \in J : G[a][b] <= G[i][j]
ViewClauses == [
  sky_view_bounds |-> \A i \in I, j \in J : \A v \in {Ev.svf[i][j], Ev.other[i][j]} : v >= 0 /\ v <= 1000000,
  summit_sees_all |-> \A i \in I, j \in J : HighestCell(i, j) => Ev.svf[i][j] >= 999600 /\ Ev.other[i][j] >= 999600,
  sky_view |-> Ev.steep <= 84 => \A i \in I, j \in J : ViewOK(i, j)]
BaseClauses == [
  elevation |-> Ev.dem = G,
  sky_view_of_model |-> \A i \in I, j \in J : Near(Ev.svf[i][j], Ev.want[i][j], 520) /\ Ev.svf[i][j] >= 0 /\ Ev.svf[i][j] <= 1000000,
  flat_sees_all |-> Ev.flat => \A i \in I, j \in J : Ev.svf[i][j] >= 999000]
\* ---- openness ----------------------------------------------------------------
\* steepest rise towards direction k within n cells, as sine and cosine products: the angle o (1e-3 deg from the zenith)
Within(i, j, k) == \A n \in 1..Ev.n : In(G, i + (n * Dir8(k)[1]), j + (n * Dir8(k)[2]))
Dz(i, j, k, n) == G[i + (n * Dir8(k)[1])][j + (n * Dir8(k)[2])] - G[i][j]
\* none of the cells rises above that angle, one reaches it
Fit(o, i, j, k, neg) == LET h == 90000 - o s == SinD(h) c == CosD(h) IN
   LET ex(n) == Times(c, neg * Dz(i, j, k, n)) - Times(s, Dist8(n, k)) IN
   /\ \A n \in 1..Ev.n : ex(n) <= 3 + (Dist8(n, k) \div 10000)
   /\ \E n \in 1..Ev.n : ex(n) >= -3 - (Dist8(n, k) \div 10000)
OpenOK(arrs, neg) == \A i \in I, j \in J : \A k \in 0..7 : Within(i, j, k) => \E d \in 1..8 : Fit(arrs[d][i][j], i, j, k, neg)
OpenClauses == [
  openness |-> OpenOK(Ev.o, 1), negative_openness |-> OpenOK(Ev.neg, -1),
  openness_mean |-> \A i \in I, j \in J : Near(Ev.m[i][j], SumSeq([d \in 1..8 |-> Ev.o[d][i][j]]) \div 8, 2)]
Judge == CASE Ev.ev = "field" -> Report(l, Ev.case, FieldClauses)
           [] Ev.ev = "curv" -> Report(l, Ev.case, CurvClauses)
           [] Ev.ev = "scaled" -> Report(l, Ev.case, [scaled_curvature |-> Scaled])
           [] Ev.ev = "sun" -> Report(l, Ev.case, SunClauses)
           [] Ev.ev = "view" -> Report(l, Ev.case, ViewClauses)
           [] Ev.ev = "base" -> Report(l, Ev.case, BaseClauses)
           [] Ev.ev = "open" -> Report(l, Ev.case, OpenClauses)
           [] Ev.ev = "done" -> Report(l, Ev.case, [completed |-> Ev.error = "", input_untouched |-> Ev.untouched])
TNext == l <= TraceLen /\ l' = l + 1 /\ Judge
TSpec == TInit /\ [][TNext]_<<l>>
=============================================================================
