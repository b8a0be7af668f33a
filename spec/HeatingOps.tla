------------------------------ MODULE HeatingOps -----------------------------
(* Stagnation-point heating correlations of the planets, in decimal logarithms *)
(* (unit 1/10000) of SI density, speed and nose radius; heat rates in W/cm2.   *)
EXTENDS Integers
Planets == {"VENUS", "EARTH", "MARS", "JUPITER", "SATURN", "TITAN", "URANUS", "NEPTUNE"}
\* product of a logarithm and an exponent, both in 1/10000, without leaving 32 bits
Times(x, b) == ((x * (b \div 100)) + ((x * (b % 100)) \div 100)) \div 100
Law(c, rho, v, rn) == c.k + Times(c.rho, rho) + Times(c.v, v) + Times(c.rn, rn)

\* convective: Sutton-Graves; Uranus and Neptune: Neptune Orbiter with Probes study
SG(k) == [k |-> k, rho |-> 5000, v |-> 30000, rn |-> -5000]
Ice == [k |-> -69178, rho |-> 4521, v |-> 26918, rn |-> -5000]
Convective == [VENUS |-> SG(-77222), EARTH |-> SG(-77539), MARS |-> SG(-77217), JUPITER |-> SG(-81834), SATURN |-> SG(-81968), TITAN |-> SG(-77593),
               URANUS |-> Ice, NEPTUNE |-> Ice]
\* radiative: none for Mars and Titan; Venus in three ranges of speed, Earth by a table of speed
Venus(v) == IF v < 39031 THEN [k |-> -334776, rho |-> 12000, v |-> 100000, rn |-> 4900]
            ELSE IF v < 40000 THEN [k |-> -159136, rho |-> 12000, v |-> 55000, rn |-> 4900]
            ELSE [k |-> -475129, rho |-> 12000, v |-> 134000, rn |-> 4900]
Giant == [k |-> -400643, rho |-> 17638, v |-> 109939, rn |-> -1791]
IceRad == [k |-> -620060, rho |-> 4981, v |-> 151130, rn |-> 10000]
RadLaw(p, v) == CASE p = "VENUS" -> Venus(v) [] p \in {"JUPITER", "SATURN"} -> Giant [] p \in {"URANUS", "NEPTUNE"} -> IceRad
NoRadiation == {"MARS", "TITAN"}
\* Tauber-Sutton velocity function, 1/1000, of the speed in m/s
Tab == << 1500, 35000, 151000, 359000, 660000, 1065000, 1550000, 2040000 >>
TauberSutton(v) == IF v < 9000 THEN 0 ELSE IF v >= 16000 THEN 2040000
                   ELSE LET i == (v \div 1000) - 8 IN Tab[i] + (((Tab[i + 1] - Tab[i]) \div 1000) * (v % 1000)) + (((((Tab[i + 1] - Tab[i]) % 1000) * (v % 1000))) \div 1000)
=============================================================================
