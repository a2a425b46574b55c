-------------------------------- MODULE Cells -------------------------------
(* A model grid as independent cells: a step gives every cell of the region  *)
(* of interest a new state computed from its own state and weather; cells    *)
(* outside keep what they have.  Persistent state is carried over, scratch   *)
(* state may be wiped between steps.                                         *)
EXTENDS Integers, FiniteSets
CONSTANTS Cell, Weather, NoData
\* an arbitrary, history-dependent cell law
Law(s, w) == ((s * 3) + w + 1) % 7
Scratch(s, w) == ((s + w) % 5)
\* g: [roi, keep (persistent), tmp (scratch)], wx: weather per cell
Wipe(g) == [g EXCEPT !.tmp = [c \in Cell |-> NoData]]
StepGrid(g, wx) ==
  [g EXCEPT !.keep = [c \in Cell |-> IF c \in g.roi THEN Law(g.keep[c], wx[c]) ELSE g.keep[c]],
            !.tmp = [c \in Cell |-> IF c \in g.roi THEN Scratch(g.keep[c], wx[c]) ELSE g.tmp[c]]]
AgreeOn(g, h, S) == \A c \in S : g.keep[c] = h.keep[c] /\ g.tmp[c] = h.tmp[c]
=============================================================================
