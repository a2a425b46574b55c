------------------------------ MODULE MCConfig ------------------------------
EXTENDS Config, Sequences, TLC, Json
CONSTANTS Starts, Ends, Steps, Freqs, Full, NMin
VARIABLES cfg
Plain == [start |-> 0, end |-> Day, dateonly |-> TRUE, step |-> 60, projected |-> TRUE, wf |-> 0, snow |-> "", melt |-> "", ddf |-> NotGiven,
          af |-> NotGiven, glaciers |-> FALSE, thresh |-> NotGiven, albedo |-> "", cold |-> NotGiven, melting |-> NotGiven, det |-> "", refresh |-> NotGiven,
          how |-> "", k_neg |-> NotGiven, k_pos |-> NotGiven, sig |-> NotGiven, day_method |-> "", method |-> "", night_method |-> "",
          csf_night_method |-> "", wind_speed |-> "", wind |-> ""]
Dates == {[Plain EXCEPT !.start = s, !.end = e, !.dateonly = d, !.step = p, !.wf = w, !.projected = j] :
  s \in Starts, e \in Ends, d \in BOOLEAN, p \in Steps, w \in Freqs, j \in BOOLEAN}
DateCfgs == {c \in Dates : (c.dateonly => (c.end % Day) = 0) /\ (~c.projected => c.start = 0 /\ c.wf = 0)}
Methods == {"", "energy_balance", "temperature_index", "enhanced_temperature_index"}
ModuleCfgs == {[Plain EXCEPT !.snow = s, !.melt = m, !.ddf = d, !.af = a, !.glaciers = g, !.step = p] :
  s \in {"", "layers", "multilayer", "cryolayers"}, m \in Methods, d \in {NotGiven, 5}, a \in {NotGiven, 3}, g \in BOOLEAN, p \in {60, Day}}
Clouds == {"", "clear_sky_fraction", "humidity", "prescribed"}
Nights == {"", "humidity", "constant"}
Winds == {"", "idw", "liston"}
NameCfgs == {[Plain EXCEPT !.day_method = a, !.method = b, !.night_method = c, !.csf_night_method = d, !.wind_speed = e, !.wind = f] :
  a \in Clouds, b \in Clouds, c \in Nights, d \in Nights, e \in Winds, f \in Winds}
FewNames == {c \in NameCfgs : Full \/ ((c.day_method = "" \/ c.method = "" \/ c.wind = "") /\ (c.wind_speed # "liston") /\ (c.method # "prescribed"))}
AlbedoCfgs == {[Plain EXCEPT !.albedo = m, !.cold = c, !.melting = g, !.det = t, !.refresh = r, !.how = h, !.k_neg = k, !.k_pos = q, !.sig = s, !.thresh = x] :
  m \in {"", "snow_age", "usaco", "fsm"}, c \in {NotGiven, 300000}, g \in {NotGiven, 96000}, t \in {"", "air"}, r \in {NotGiven, 120},
  h \in {"", "continuous", "binary"}, k \in {NotGiven, 80}, q \in {NotGiven, 200}, s \in {NotGiven, 90}, x \in {NotGiven, 500, 0 - 1500, 274150}}
FewAlbedo == {c \in AlbedoCfgs : Full \/ (((c.cold = NotGiven) = (c.how = "")) /\ ((c.melting = NotGiven) = (c.refresh = NotGiven)) /\ ((c.k_neg = NotGiven) = (c.thresh = NotGiven)))}
All == DateCfgs \cup ModuleCfgs \cup FewNames \cup FewAlbedo
Init == cfg \in All
Next == UNCHANGED cfg
Spec == Init /\ [][Next]_cfg
\* --- design properties
IdemW == Written(Norm(cfg), cfg)
Idempotent == Accept(cfg) => Accept(IdemW) /\ Norm(IdemW) = Norm(cfg)
NewSpelling == [cfg EXCEPT !.day_method = "", !.method = OrS(cfg.method, cfg.day_method), !.night_method = "",
                           !.csf_night_method = OrS(cfg.csf_night_method, cfg.night_method), !.wind_speed = "", !.wind = OrS(cfg.wind, cfg.wind_speed),
                           !.snow = IF cfg.snow = "layers" THEN "multilayer" ELSE cfg.snow]
OldMeansNew == Accept(cfg) => Accept(NewSpelling) /\ Norm(NewSpelling) = Norm(cfg)
UserKept == Accept(cfg) =>
  LET n == Norm(cfg) IN
  /\ (cfg.melt # "" => n.melt = cfg.melt) /\ (cfg.method # "" => n.method = cfg.method) /\ (cfg.wind # "" => n.wind = cfg.wind)
  /\ (cfg.csf_night_method # "" => n.csf_night_method = cfg.csf_night_method)
  /\ (cfg.albedo \in {"", "snow_age"} => (cfg.cold # NotGiven => n.albedo.cold = cfg.cold) /\ (cfg.how # "" => n.albedo.how = cfg.how))
LastStep == Accept(cfg) => /\ ((EndOf(cfg) - cfg.start) % cfg.step) = 0
                           /\ cfg.dateonly => (EndOf(cfg) \div Day) = (cfg.end \div Day)
                           /\ cfg.dateonly /\ cfg.step <= Day => ((EndOf(cfg) + cfg.step) \div Day) # (cfg.end \div Day)
Emit == PrintT(<<"EMIT", ToJson(cfg)>>)
=============================================================================
