------------------------------ MODULE Rasters -------------------------------
(* Input rasters: which sets of files a model may start with, and where      *)
(* their values go.  A file: [here, rows, cols, x, top, dx, dy], lengths in  *)
(* tenths of a metre, (x, top) being the upper left corner.                  *)
EXTENDS Integers, Sequences, FiniteSets
Same4(a, b) == a.rows = b.rows /\ a.cols = b.cols /\ a.x = b.x /\ a.top = b.top /\ a.dx = b.dx /\ a.dy = b.dy
Square(a) == a.dx = a.dy
Covers(e, d) == e.x <= d.x /\ e.top >= d.top /\ e.x + (e.cols * e.dx) >= d.x + (d.cols * d.dx)
                /\ e.top - (e.rows * e.dy) <= d.top - (d.rows * d.dy)
Aligned(e, d) == (d.x - e.x) % d.dx = 0 /\ (e.top - d.top) % d.dx = 0
Kinds == {"dem", "roi", "svf", "srf", "lc", "soil", "glaciers", "extdem", "extsvf"}
\* kinds a configuration [res, srf, lc, soil, glaciers] asks for
Required(c) == {"dem"} \union (IF c.srf THEN {"srf"} ELSE {}) \union (IF c.lc \/ c.soil THEN {"lc"} ELSE {})
               \union (IF c.soil THEN {"soil"} ELSE {}) \union (IF c.glaciers THEN {"glaciers"} ELSE {})
Used(c, f) == Required(c) \union {k \in {"roi", "extdem"} : f[k].here}
              \union (IF f.extdem.here THEN (IF f.extsvf.here THEN {"extsvf"} ELSE {}) ELSE IF f.svf.here THEN {"svf"} ELSE {})
Fits(c, f, k) ==
  CASE k = "dem" -> Square(f.dem) /\ f.dem.dx = c.res
    [] k = "extdem" -> Square(f.extdem) /\ f.extdem.dx = c.res /\ Aligned(f.extdem, f.dem) /\ Covers(f.extdem, f.dem)
    [] k = "extsvf" -> Same4(f.extsvf, f.extdem)
    [] OTHER -> Same4(f[k], f.dem)
\* what may be reported; the empty set: the model starts
DemOK(c, f) == f.dem.here /\ Fits(c, f, "dem")
Faults(c, f) ==
  {"missing" : k \in {q \in Used(c, f) : ~f[q].here}}
  \union (IF f.dem.here /\ ~DemOK(c, f) THEN {"raster"} ELSE {})
  \union (IF DemOK(c, f) THEN {"raster" : k \in {q \in Used(c, f) : f[q].here /\ ~Fits(c, f, q)}} ELSE {})
\* row and column of the extended grid's cell for cell (r, q) of the grid
ExtRow(f, r) == r + ((f.extdem.top - f.dem.top) \div f.dem.dx)
ExtCol(f, q) == q + ((f.dem.x - f.extdem.x) \div f.dem.dx)
=============================================================================
