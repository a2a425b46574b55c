------------------------------ MODULE Snowpack ------------------------------
(* A snowpack cell: layers from the surface downwards, each with ice and     *)
(* liquid water.  A step is accumulation, melt, (re)sublimation, percolation *)
(* of rain and melt water, refreezing and re-layering; every process moves   *)
(* water or exchanges it with the fluxes that are booked.                    *)
EXTENDS Integers, Sequences, FiniteSets, Fixed

\* ---- layering: thickness of the layers of a pack of a given depth -----------
RECURSIVE Lay(_, _, _)
Lay(rest, k, minT) == IF rest - minT[k] <= minT[k] \/ k = Len(minT) THEN <<rest>>
                      ELSE <<minT[k]>> \o Lay(rest - minT[k], k + 1, minT)
Layering(depth, minT) == IF depth <= 0 THEN <<>> ELSE Lay(depth, 1, minT)

\* ---- processes on a pack p = sequence of [ice, liq] -------------------------
Ice(p) == SumSeq([i \in DOMAIN p |-> p[i].ice])
Liq(p) == SumSeq([i \in DOMAIN p |-> p[i].liq])
Mass(p) == Ice(p) + Liq(p)
Accumulate(p, s) == IF s = 0 THEN p
                    ELSE IF p = <<>> THEN <<[ice |-> s, liq |-> 0]>>
                    ELSE [p EXCEPT ![1].ice = @ + s]
RECURSIVE MeltFrom(_, _)
MeltFrom(p, m) == IF p = <<>> THEN <<>>
                  ELSE LET d == MinF(m, p[1].ice)
                       IN <<[ice |-> p[1].ice - d, liq |-> p[1].liq + d]>> \o MeltFrom(Tail(p), m - d)
RECURSIVE TakeIce(_, _)
TakeIce(p, v) == IF p = <<>> THEN <<>>
                 ELSE LET d == MinF(v, p[1].ice)
                      IN <<[p[1] EXCEPT !.ice = @ - d]>> \o TakeIce(Tail(p), v - d)
\* liquid water holding capacity of a layer (design model: its ice)
Cap(x) == x.ice
RECURSIVE Percolate(_, _)
Percolate(p, r) == IF p = <<>> THEN [p |-> <<>>, runoff |-> r]
                   ELSE LET w == p[1].liq + r
                            keep == MinF(w, Cap(p[1]))
                            rest == Percolate(Tail(p), w - keep)
                        IN [p |-> <<[p[1] EXCEPT !.liq = keep]>> \o rest.p, runoff |-> rest.runoff]
RECURSIVE Refreeze(_, _)
Refreeze(p, f) == IF p = <<>> THEN <<>>
                  ELSE LET d == MinF(f, p[1].liq)
                       IN <<[ice |-> p[1].ice + d, liq |-> p[1].liq - d]>> \o Refreeze(Tail(p), f - d)
\* re-layering: total ice and liquid water are distributed over the layers of the new pack
RECURSIVE FillLiq(_, _)
FillLiq(th, w) == IF th = <<>> THEN <<>>
                  ELSE LET d == MinF(w, Head(th)) IN <<[ice |-> Head(th), liq |-> d]>> \o FillLiq(Tail(th), w - d)
Relayer(p, minT) == FillLiq(Layering(Ice(p), minT), Liq(p))

\* ---- one step under a weather w = [s, r, m, v, f] ---------------------------
\* s snowfall, r rain, m melt energy, v potential sublimation (negative: frost), f refreezing energy
StepPack(p, w, minT) ==
  LET p1 == Accumulate(p, w.s)
      p2 == MeltFrom(p1, w.m)
      sub == MinF(w.v, Ice(p2))
      p3 == IF sub >= 0 THEN TakeIce(p2, sub) ELSE Accumulate(p2, -sub)
      pr == Percolate(p3, w.r)
      p4 == Refreeze(pr.p, w.f)
  IN [p |-> Relayer(p4, minT), runoff |-> pr.runoff, sub |-> sub, melt |-> Ice(p1) - Ice(p2),
      refr |-> Ice(p4) - Ice(pr.p)]

\* ---- clauses shared with the trace specifications ---------------------------
N0(x) == IF IsNaN(x) THEN 0 ELSE x
LedgerOK(m0, m1, snowfall, rain, runoff, subl, tol) ==
  Near(m1 - m0, N0(snowfall) + N0(rain) - runoff - subl, tol)
=============================================================================
