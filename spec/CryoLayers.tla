----------------------------- MODULE CryoLayers -----------------------------
(* Layer classes new snow (1), old snow (2), firn (3), ice (4) of a cell and *)
(* the transitions between them at the end of a step.  A layer is a record   *)
(* [ice, liq, dens] (dens: any measure that averages by mass).               *)
EXTENDS Integers, Sequences, Fixed, Calendar

We(x) == x.ice + x.liq
EmptyLayer == [ice |-> 0, liq |-> 0, dens |-> 0]
\* weight of a in 1/1000
Wt(a, b) == LET s == We(a) + We(b)
                k == s \div 1000000 + 1              \* scale so that the product stays in range
            IN ((We(a) \div k) * 1000) \div ((s \div k) + (IF s \div k = 0 THEN 1 ELSE 0))
DensOf(a, b) == (Wt(a, b) * a.dens + (1000 - Wt(a, b)) * b.dens) \div 1000
Merge(src, dst) == IF We(src) = 0 THEN dst
                   ELSE IF We(dst) = 0 THEN src
                   ELSE [ice |-> src.ice + dst.ice, liq |-> src.liq + dst.liq, dens |-> DensOf(src, dst)]
Shift(p, k) == [p EXCEPT ![k + 1] = Merge(p[k], p[k + 1]), ![k] = EmptyLayer]

\* is this the step of the yearly old snow -> firn transition?
FirnStep(t, step, first, month) == ~first /\ MonthOf(t) = month /\ MonthOf(t - step) # month

\* the class transitions of one step; nu, ic: has new snow / firn reached its density?
AfterNew(p, nu) == IF nu /\ We(p[1]) > 0 THEN Shift(p, 1) ELSE p
AfterFirn(p, fi) == IF fi /\ We(p[2]) > 0 THEN Shift(p, 2) ELSE p
AfterIce(p, ic) == IF ic /\ We(p[3]) > 0 THEN Shift(p, 3) ELSE p
Transitions(p, nu, fi, ic) == AfterIce(AfterFirn(AfterNew(p, nu), fi), ic)
=============================================================================
