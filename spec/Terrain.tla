------------------------------- MODULE Terrain -------------------------------
(* Terrain parameters of an elevation model.  g: rows of elevations (1e-2 m),*)
(* north first; res: cell size in m (an integer).                            *)
EXTENDS Integers, Sequences, Trig
Rows(g) == Len(g)
Cols(g) == Len(g[1])
Clamp(x, n) == IF x < 1 THEN 1 ELSE IF x > n THEN n ELSE x
\* elevation, continued beyond the edge by the edge value
At(g, i, j) == g[Clamp(i, Rows(g))][Clamp(j, Cols(g))]
In(g, i, j) == i >= 1 /\ i <= Rows(g) /\ j >= 1 /\ j <= Cols(g)
\* Horn: rise towards east and towards south, 1e-2 m per 8 cells
East8(g, i, j) == (At(g, i - 1, j + 1) + (2 * At(g, i, j + 1)) + At(g, i + 1, j + 1)) - (At(g, i - 1, j - 1) + (2 * At(g, i, j - 1)) + At(g, i + 1, j - 1))
South8(g, i, j) == (At(g, i + 1, j - 1) + (2 * At(g, i + 1, j)) + At(g, i + 1, j + 1)) - (At(g, i - 1, j - 1) + (2 * At(g, i - 1, j)) + At(g, i - 1, j + 1))
\* as a gradient, 1e-6
Grad8(x, res) == SMulDiv(x, 10000, 8 * res)
\* plane through a cell and its neighbours north, east and north-east (Corripio): the cell south-west in each quartet;
\* the first row and the last column take over the values of their neighbours
Quad(g, i, j) == <<MaxF(i, 2), MinF(j, Cols(g) - 1)>>
EastQ(g, i, j) == LET q == Quad(g, i, j) a == q[1] b == q[2] IN (g[a][b + 1] - g[a][b]) + (g[a - 1][b + 1] - g[a - 1][b])
SouthQ(g, i, j) == LET q == Quad(g, i, j) a == q[1] b == q[2] IN (g[a][b] - g[a - 1][b]) + (g[a][b + 1] - g[a - 1][b + 1])
GradQ(x, res) == SMulDiv(x, 10000, 2 * res)
\* Liston curvature at length L (n cells): mean height above four pairs of opposite neighbours, 1e-6, of lengths in m
Pair(g, i, j, di, dj) == (2 * At(g, i, j)) - At(g, i + di, j + dj) - At(g, i - di, j - dj)       \* 2e-2 m
Curv(g, i, j, n, len) ==
  LET a == Pair(g, i, j, 0, n) + Pair(g, i, j, n, 0)
      d == Pair(g, i, j, n, n) + Pair(g, i, j, n, -n)
  IN (SMulDiv(a, 10000, 16 * len) + SMulDiv(d, 7071, 16 * len))
\* ---- shadows ---------------------------------------------------------------
\* the eight main directions towards the sun: step (row, column) and length of a step (1e-4 cells)
Dir8(k) == <<<<-1, 0, 10000>>, <<-1, 1, 14142>>, <<0, 1, 10000>>, <<1, 1, 14142>>, <<1, 0, 10000>>, <<1, -1, 14142>>, <<0, -1, 10000>>, <<-1, -1, 14142>>>>[k + 1]
\* height (1e-2 m) of the ray towards a sun of tangent t (1e-6) after n steps
RayRise(n, len, res, t) == MulDiv(MulDiv(n * len, res, 100), t, 1000000)
Obstacles(g, i, j, k) == {n \in 1..MaxF(Rows(g), Cols(g)) : In(g, i + (n * Dir8(k)[1]), j + (n * Dir8(k)[2]))}
\* margin (1e-2 m) by which the terrain towards the sun overtops the ray at most
Overtop(g, i, j, k, n, res, t) == g[i + (n * Dir8(k)[1])][j + (n * Dir8(k)[2])] - g[i][j] - RayRise(n, Dir8(k)[3], res, t)
InShadow(g, i, j, k, res, t, eps) == \E n \in Obstacles(g, i, j, k) : Overtop(g, i, j, k, n, res, t) > eps
=============================================================================
