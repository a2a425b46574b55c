------------------------------- MODULE Glacier ------------------------------
(* Yearly redistribution of glacier ice (delta-h).  Masses 1e-1 kg m-2,      *)
(* elevations 1e-1 m, fractions 1e-6; r = resolution in m.                   *)
EXTENDS Integers, Sequences, FiniteSets, Fixed, Albedo
RECURSIVE QuotG(_, _)
QuotG(a, b) == IF b > 500000 THEN QuotG(a \div 16, b \div 16) ELSE Ratio(a, b)
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
MinOver(f, S) == LET x == CHOOSE y \in S : \A w \in S : f[y] <= f[w] IN f[x]
MaxOver(f, S) == LET x == CHOOSE y \in S : \A w \in S : f[y] >= f[w] IN f[x]
\* a * num / den, num and den of the same sign, |num| <= |den|
Part(a, num, den) == SMulDiv(a, QuotG(AbsF(num), AbsF(den)), One)
SqF(x) == MulDiv(AbsF(x), AbsF(x), One)
\* surface lowering curve (negative, 1e-6) at normalised elevation h, area in m2
DeltaH(h, area) ==
  IF area >= 20000000 THEN LET x == h - 20000  IN ClipF(-(MulDiv(SqF(x), MulDiv(SqF(x), SqF(x), One), One) + SMulDiv(x, 120000, One)), -One, 0)
  ELSE IF area >= 5000000 THEN LET x == h - 50000 IN ClipF(-(MulDiv(SqF(x), SqF(x), One) + SMulDiv(x, 190000, One) + 10000), -One, 0)
  ELSE LET x == h - 300000 IN ClipF(-(SqF(x) + SMulDiv(x, 600000, One) + 90000), -One, 0)
MinIce == 91700                            \* 10 m of ice
\* highest of the k lowest elevations of S
KthLowest(z, S, k) == LET T == {i \in S : Cardinality({j \in S : z[j] < z[i]}) < k} IN MaxOver(z, T)
Terminus(z, G) ==
  LET k == (Cardinality(G) + 9) \div 10
      top == MaxF(KthLowest(z, G, k), MinOver(z, G) + 500)
  IN {i \in G : z[i] <= top}
\* distribution of the loss tot (< 0) over the cells U, limited to lim (<= 0)
LossOf(z, U, tot, area, lim) ==
  LET lo == MinOver(z, U)
      hi == MaxOver(z, U)
      n  == Cardinality(U)
  IN IF lo = hi THEN [i \in U |-> -((-tot) \div n)]
     ELSE LET dh == [i \in U |-> DeltaH(QuotG(hi - z[i], hi - lo), area)]
              sd == SumOver(dh, U)
              raw == [i \in U |-> Part(tot, dh[i], sd)]
              C == {i \in U : raw[i] < lim}
              R == U \ C
          IN IF lim >= 0 \/ C = {} \/ Cardinality(R) <= 1 THEN raw
             ELSE LET surplus == SumOver(raw, C) - lim * Cardinality(C)
                      l2 == MinOver(z, R)
                      zz == [i \in R |-> z[i] - l2]
                  IN [i \in U |-> IF i \in C THEN lim
                                  ELSE IF MaxOver(z, R) = l2 THEN raw[i] + surplus \div Cardinality(R)
                                  ELSE raw[i] + Part(surplus, zz[i], SumOver(zz, R))]
\* g: cells of the glacier with ice at the start; ice0, firn0: at the start of the year, ice1, firn1: at its end
NewIce(z, g, r, ice0, firn0, ice1, firn1) ==
  LET U == {i \in g : ice0[i] >= MinIce}
      mb == [i \in g |-> ice1[i] + firn1[i] - ice0[i] - firn0[i]]
      tot == SumOver(mb, U)
      lim == MinF(MinOver(mb, Terminus(z, g)), 0)
      area == Cardinality(g) * r * r
      ch == IF tot < 0 THEN LossOf(z, U, tot, area, lim) ELSE [i \in U |-> tot \div Cardinality(U)]
      raw == [i \in U |-> ice0[i] + ch[i] - (firn1[i] - firn0[i])]
      pos == [i \in U |-> MaxF(raw[i], 0)]
      deficit == SumOver(pos, U) - SumOver(raw, U)
  IN [i \in g |-> IF Cardinality(U) < 2 \/ i \notin U THEN ice1[i]
                  ELSE IF deficit <= 0 THEN pos[i] ELSE pos[i] - MinF(Part(deficit, pos[i], SumOver(pos, U)), pos[i])]
\* ---- the mass-balance year ----
\* first (last): first (last) step of a calendar month
YearStarts(month, first, sm) == first /\ month = sm
YearEnds(month, last, sm) == last /\ month = (IF sm = 1 THEN 12 ELSE sm - 1)
=============================================================================
