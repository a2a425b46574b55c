------------------------------ MODULE MCTerrain -------------------------------
(* Small elevation models with every placement of a few heights: what the    *)
(* definitions of gradient, curvature and shadow imply.  Emitted as words.   *)
EXTENDS Terrain, FiniteSets, TLC, Json
CONSTANTS N, Heights, Extra
VARIABLES cells, tilt, go
\* a tilted plane with up to Extra obstacles on it
Tilts == {<<0, 0>>, <<30, 0>>, <<0, 45>>, <<20, 20>>, <<50, -25>>}
Sites == (1..N) \X (1..N) \X Heights
Placements == {f \in [1..Extra -> Sites] : f[1] = cells[1] /\ \A a \in 1..(Extra - 1) : f[a][1] * N + f[a][2] < f[a + 1][1] * N + f[a + 1][2]}
Init == go = FALSE /\ tilt \in Tilts /\ cells \in {[a \in 1..Extra |-> x] : x \in Sites}
Next == ~go /\ go' = TRUE /\ cells' \in Placements /\ UNCHANGED tilt
Spec == Init /\ [][Next]_<<cells, tilt, go>>
Bump(i, j) == LET q == {a \in 1..Extra : cells[a][1] = i /\ cells[a][2] = j} IN IF q = {} THEN 0 ELSE cells[CHOOSE a \in q : TRUE][3]
G == [i \in 1..N |-> [j \in 1..N |-> 200000 + (100 * ((tilt[1] * i) + (tilt[2] * j))) + (100 * Bump(i, j))]]
Res == 50
Flipped == [i \in 1..N |-> G[N + 1 - i]]
Turned == [i \in 1..N |-> [j \in 1..N |-> G[j][i]]]
Inner == 2..(N - 1)
\* a plane has its own gradient everywhere inside; mirroring and transposing turn the gradient with the terrain
Gradients == go =>
             /\ (\A a \in 1..Extra : cells[a][3] = 0) => \A i \in Inner, j \in Inner :
                    /\ East8(G, i, j) = 800 * tilt[2] /\ South8(G, i, j) = 800 * tilt[1]
                    /\ EastQ(G, i, j) = 200 * tilt[2] /\ SouthQ(G, i, j) = 200 * tilt[1] /\ Curv(G, i, j, 1, Res) = 0
             /\ \A i \in 1..N, j \in 1..N : South8(Flipped, N + 1 - i, j) = -South8(G, i, j) /\ East8(Turned, j, i) = South8(G, i, j)
\* a cell higher than all around it is convex
Convex == \A i \in Inner, j \in Inner : (\A a \in -1..1, b \in -1..1 : (a = 0 /\ b = 0) \/ G[i][j] > At(G, i + a, j + b)) => Curv(G, i, j, 1, Res) > 0
T10 == TanD(10000)
T20 == TanD(20000)
T40 == TanD(40000)
Highest(i, j) == \A a \in 1..N, b \in 1..N : G[a][b] <= G[i][j]
\* the highest cell is lit, a higher sun shadows less, the shadow turns with sun and terrain
Lit == go => \A k \in 0..7, i \in 1..N, j \in 1..N :
         /\ Highest(i, j) => ~InShadow(G, i, j, k, Res, T10, 0)
         /\ InShadow(G, i, j, k, Res, T40, 0) => InShadow(G, i, j, k, Res, T10, 0)
         /\ InShadow(G, i, j, k, Res, T20, 0) = InShadow(Flipped, N + 1 - i, j, (4 - k) % 8, Res, T20, 0)
Emit == go => PrintT(<<"EMIT", ToJson([tilt |-> tilt, cells |-> cells])>>)
=============================================================================
