-------------------------------- MODULE MCSun --------------------------------
(* Days of the sun over places on earth, and skies it shines through.        *)
EXTENDS Sun, TLC, Json, FiniteSets
CONSTANTS Doys, Lats, Step, Waters, Viss, Heights, Zeniths
VARIABLES k, doy, lat, ha, sky
vars == <<k, doy, lat, ha, sky>>
None == [th |-> 0, z |-> 0, w |-> 0, vis |-> 0]
Init == \/ k = "day" /\ doy \in Doys /\ lat \in Lats /\ ha = -180000 /\ sky = None
        \/ k = "air" /\ doy = 1 /\ lat \in Heights /\ ha = 0 /\ sky = None
Tick == k = "day" /\ ha < 180000 /\ ha' = ha + Step /\ UNCHANGED <<k, doy, lat, sky>>
Choose == k = "air" /\ ha = 0 /\ ha' = 1 /\ sky' \in [th : Zeniths, z : {lat}, w : Waters, vis : Viss] /\ UNCHANGED <<k, doy, lat>>
Next == Tick \/ Choose
Spec == Init /\ [][Next]_vars
\* ---- the day --------------------------------------------------------------------------
Lat == 1000 * (lat - 90)          \* -90 .. 90 degrees
Dec == Declination(doy)
D3 == IF Dec < 0 THEN -((-Dec) \div 10) ELSE Dec \div 10
S == SunVec(Lat, ha, D3)
Sq6(x) == Mul6(AbsF(x), AbsF(x))
Day == k = "day"
Unit == Day => Near(Sq6(S.x) + Sq6(S.y) + Sq6(S.z), 1000000, 12)
Tropics == Day => Dec >= -234600 /\ Dec <= 234600
Seasons == Day => (doy >= 95 /\ doy <= 250 => Dec > 0) /\ ((doy <= 70 \/ doy >= 280) => Dec < 0)
ClockBounds == Day => AbsF(EqTime(doy)) <= 170000
EastThenWest == Day => (ha > -180000 /\ ha < 0 => S.x >= 0) /\ (ha > 0 /\ ha < 180000 => S.x <= 0)
Mirror == Day => LET T == SunVec(Lat, -ha, D3) IN Near(T.x, -S.x, 3) /\ Near(T.y, S.y, 3) /\ Near(T.z, S.z, 3)
\* the same day on the other hemisphere in the other season
Antipode == Day => LET T == SunVec(-Lat, ha, -D3) IN Near(T.z, S.z, 4) /\ Near(T.y, -S.y, 4)
PolarDay == Day => (Lat >= 67000 /\ Dec > 230000 => S.z > -3) /\ (Lat >= 67500 /\ Dec < -230000 => S.z < 3)
\* the sun rises until it culminates and then sinks
RiseAndSet == (Day /\ ha < 180000) => LET n == SunVec(Lat, ha + Step, D3) IN (ha < 0 => n.z >= S.z - 4) /\ (ha >= 0 => n.z <= S.z + 4)
Nearest == Day => Distance(doy) >= 960000 /\ Distance(doy) <= 1036000 /\ (doy < 40 => Distance(doy) > 1020000) /\ (doy > 150 /\ doy < 220 => Distance(doy) < 975000)
\* ---- the air ----------------------------------------------------------------------------
Air == k = "air" /\ ha = 1
P == Pressure(100 * lat)
A == [p |-> P, w |-> sky.w, z |-> 10 * sky.z, oz |-> 3500, vis |-> sky.vis, ssa |-> 9000, csa |-> 685]
Y == Sky(sky.th, A)
Cz == CosD(sky.th)
S0 == Solar(1)
Dir == Direct(S0, Cz, Y)
Dif == Diffuse(S0, Cz, Y, 500000, Dir)
Shares == Air => /\ \A x \in {Y.trans, Y.rayleigh, Y.aerosol, Y.glow} : x >= 0 /\ x <= 1000000
                 /\ \A t \in {TRayleigh(AtPressure(AirMass(sky.th), P)), TOzone(AirMass(sky.th), 3500), TGases(AtPressure(AirMass(sky.th), P)),
                              TVapour(AirMass(sky.th), sky.w), TAerosol(AtPressure(AirMass(sky.th), P), sky.vis)} : t >= 0 /\ t <= 1000000
\* never more than arrives at the top of the atmosphere
NotMore == Air => Dir >= 0 /\ Dif >= 0 /\ Dir <= Mul6(S0, Cz) /\ (lat <= 2000 /\ sky.th <= 80000 => Dir + Dif <= Mul6(S0, Cz) + 2000)
LowerSunLess == Air => \A t \in Zeniths : t >= sky.th =>
     LET T == Sky(t, A) IN T.trans <= Y.trans + 200 /\ Direct(S0, CosD(t), T) <= Dir + 300
HazeDims == Air => \A v \in Viss : v <= sky.vis => Sky(sky.th, [A EXCEPT !.vis = v]).trans <= Y.trans + 60
VapourDims == Air => \A v \in Waters : v >= sky.w => Sky(sky.th, [A EXCEPT !.w = v]).trans <= Y.trans + 60
OzoneDims == Air => Sky(sky.th, [A EXCEPT !.oz = 5000]).trans <= Y.trans + 60
HigherClearer == Air => \A h \in Heights : h >= lat => Sky(sky.th, [A EXCEPT !.p = Pressure(100 * h), !.z = 10 * h]).trans >= Y.trans - 60
\* a black ground sends nothing back, a bright one more
BrightGround == Air => Diffuse(S0, Cz, Y, 0, Dir) <= Dif + 5 /\ Diffuse(S0, Cz, Y, 900000, Dir) >= Dif - 5
\* without sky only slopes are seen, without slopes only sky
SkyView == Air => /\ Near(Terrain(Dif, 1000000, 300000, S0, Cz, Y, 1000000, Cz), Dif, 3)
                  /\ Terrain(Dif, 0, 300000, S0, Cz, Y, 0, 0) <= Dif /\ Terrain(Dif, 500000, 0, S0, Cz, Y, 1000000, Cz) <= (Dif \div 2) + 3
MassOfAir == Air => LET m == AirMass(sky.th) IN m >= 995000 /\ m <= AirMassMax /\ (sky.th <= 60000 => Near(m, Frac(1000000, Cz), 8000))
LongWave == Air => LET ta == 280000 l == LongIn(ta, sky.w, 0, 976000, 1000000, 0, ta, ta) h == LongIn(ta, sky.w, 1000000, 976000, 1000000, 0, ta, ta) IN
   /\ l > 0 /\ l < h /\ h <= Black(ta) /\ Near(LongIn(ta, sky.w, 500000, 976000, 0, 500000, ta, ta), Black(ta), 4)
Emit == (Air => PrintT(<<"EMIT", ToJson([k |-> "air", th |-> sky.th, z |-> sky.z, w |-> sky.w, vis |-> sky.vis])>>))
        /\ ((Day /\ ha % 45000 = 0) => PrintT(<<"EMIT", ToJson([k |-> "day", doy |-> doy, lat |-> lat - 90, ha |-> ha])>>))
=============================================================================
