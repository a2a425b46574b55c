---------------------------- MODULE TraceInterp -----------------------------
EXTENDS Interp, TraceBase
VARIABLES l, su
TInit == l = 1 /\ su = [case |-> ""]
Ev == Trace[l]
Cells == DOMAIN su.cells
Params == DOMAIN Ev.d
Conf(p) == [param |-> p, method |-> su.conf[p].method, lapse |-> su.conf[p].lapses[Ev.month], extrapolate |-> su.conf[p].extrapolate,
            lo |-> su.conf[p].lo, hi |-> su.conf[p].hi]
St(p) == [i \in DOMAIN su.st |-> [x |-> su.st[i].x, y |-> su.st[i].y, z |-> su.st[i].z, d |-> Ev.d[p][i]]]
\* how far a rounding of the station values (half a unit of the trace) is carried by the regression
Lever(p, t) == LET s == St(p)  A == Avail(s)
                   zs == [i \in A |-> s[i].z]
                   span == High(A, zs) - Low(A, zs)
               IN IF Conf(p).method = "regression" /\ span > 0 /\ su.conf[p].inexact
                  THEN (10 * (AbsF(t.z - Low(A, zs)) + AbsF(t.z - High(A, zs)) + span)) \div span ELSE 0
Tol(p, t, v) == 8 + (IF Avail(St(p)) = {} THEN 0 ELSE Lever(p, t)) + AbsF(v) \div 20000 + su.conf[p].tol
\* piecewise regression is decided only where it has to coincide with the linear one
Decided(p) == su.conf[p].segments = 1 \/ Cardinality(Avail(St(p))) < 2 * su.conf[p].minpts
Exp(p, c) == Field(Conf(p), St(p), su.cells[c])
OK(p, c) == LET e == Exp(p, c)  g == Ev.f[p][c] IN
            IF IsNaN(e) \/ IsNaN(g) THEN e = g ELSE Near(g, e, Tol(p, su.cells[c], e))
Exact(p, c) == LET s == St(p) IN \A i \in Avail(s) :
   s[i].x = su.cells[c].x /\ s[i].y = su.cells[c].y /\ s[i].z = su.cells[c].z /\
   (\A j \in Avail(s) : j = i \/ s[j].x # s[i].x \/ s[j].y # s[i].y) /\ Conf(p).method # "adjustment_factor" =>
      Near(Ev.f[p][c], ClipF(10 * s[i].d, Conf(p).lo, Conf(p).hi), 8 + su.conf[p].tol)
\* humidity is interpolated as dew point: limits are the dew points of the limiting humidities at the cell
DewOK(c) == LET p == "dew"  s == St(p)  A == Avail(s)
                e == IF IsNaN(Ev.tair[c]) \/ A = {} THEN NaNV
                     ELSE MinF(MaxF(Plain(Conf(p), s, A, su.cells[c]), IF su.conf[p].extrapolate THEN -FixMax ELSE Ev.tdlo[c]),
                               IF su.conf[p].extrapolate THEN Ev.tair[c] ELSE Ev.tdhi[c])
                g == Ev.f[p][c]
            IN IF IsNaN(e) \/ IsNaN(g) THEN e = g ELSE Near(g, e, Tol(p, su.cells[c], e))
TSetup == /\ Ev.ev = "setup" /\ su' = Ev /\ Report(l, Ev.case, [initialized |-> Ev.error = ""])
TStep == /\ Ev.ev = "step" /\ UNCHANGED su
         /\ Report(l, Ev.case,
              [completed |-> Ev.error = "",
               humidity_range |-> \A c \in Cells : IsNaN(Ev.rh[c]) \/ (Ev.rh[c] >= 0 /\ Ev.rh[c] <= 100000)]
              @@ [k \in {"field_" \o p : p \in Params} |->
                   LET p == CHOOSE p \in Params : k = "field_" \o p
                   IN ~Decided(p) \/ \A c \in Cells : IF p = "dew" THEN DewOK(c) ELSE OK(p, c)]
              @@ [k \in {"exact_" \o p : p \in Params \ {"dew"}} |->
                   LET p == CHOOSE p \in Params : k = "exact_" \o p IN \A c \in Cells : Exact(p, c)]
              @@ [k \in {"range_" \o p : p \in Params \ {"dew"}} |->
                   LET p == CHOOSE p \in Params : k = "range_" \o p IN \A c \in Cells : IsNaN(Ev.f[p][c]) \/
                     /\ Ev.f[p][c] >= su.conf[p].lo /\ Ev.f[p][c] <= su.conf[p].hi
                     /\ (~su.conf[p].extrapolate => LET s == St(p) A == Avail(s) IN A # {} =>
                           Ev.f[p][c] <= MaxF(su.conf[p].lo, RHigh(s, A)) + 1 /\ Ev.f[p][c] >= RLow(s, A) - 1)])
TNext == l <= TraceLen /\ l' = l + 1 /\ (TSetup \/ TStep)
TSpec == TInit /\ [][TNext]_<<l, su>>
=============================================================================
