------------------------------- MODULE RollGen -------------------------------
(* the roll controller on a grid of angles, rates (deg/s) and half-second steps *)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
VARIABLES phase, cyc, bank, skirt, facts, log, start, end
G == INSTANCE Guidance WITH MaxCycles <- 0, Commands <- {0}, MaxRoll <- 1, Banks <- {0}
CONSTANT Step
Angles == { a * Step : a \in (-(180 \div Step))..(180 \div Step) }
Rates == {1, 2, 5, 30, 90, 400}
Halves == {1, 2, 3, 10}
Cases == { [prev |-> p, cmd |-> c, rate |-> r, halves |-> s, next2 |-> G!Roll(2 * p, 2 * c, r * s)] : p \in Angles, c \in Angles, r \in Rates, s \in Halves }
GInit == phase = "gen" /\ cyc = 0 /\ bank = 0 /\ skirt = TRUE /\ facts = 0 /\ log = <<>> /\ start = 0 /\ end = 0
         /\ JsonSerialize(IOEnv.OUT_FILE, SetToSeq(Cases))
GSpec == GInit /\ [][UNCHANGED <<phase, cyc, bank, skirt, facts, log, start, end>>]_<<phase, cyc, bank, skirt, facts, log, start, end>>
=============================================================================
