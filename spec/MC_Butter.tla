---------------------------- MODULE MC_Butter ----------------------------
(***************************************************************************)
(* The gain the specification gives the order-64 Butterworth band-pass,     *)
(* at every bin of every period in Ps for every band between two of the     *)
(* Div-ths of the sample rate: it says 1 only inside the band, 0 only       *)
(* outside, is undecided only near the edges, and rises and falls once.     *)
(***************************************************************************)
EXTENDS Blocks
CONSTANTS Ps, Div
VARIABLES g, b
vars == <<g, b>>
Init == /\ g \in {[P |-> P, fs |-> Div, lon |-> l, lod |-> 1, hin |-> h, hid |-> 1] : P \in Ps, l \in 1..Div, h \in 1..Div}
        /\ g.lon < g.hin /\ 2 * g.hin < g.fs /\ 50 * (g.hin - g.lon) >= g.fs /\ b = 0
Next == 2 * (b + 1) <= g.P /\ b' = b + 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
\* bin b is the frequency b / P of the sample rate
Inside == b * Div >= g.lon * g.P /\ b * Div <= g.hin * g.P
Sides == (BuGain(g, b) = 1 => Inside) /\ (BuGain(g, b) = 0 => ~Inside)
\* undecided: within a sixth of the band's width or height of an edge
Edge(e) == 6 * Abs(b * Div - e * g.P) <= g.P * (g.hin - g.lon) + g.P * g.lon
Undecided == BuGain(g, b) = -1 => Edge(g.lon) \/ Edge(g.hin)
Once == \A c \in 0..b : \A d \in c..b : BuGain(g, c) = 1 /\ BuGain(g, b) = 1 => BuGain(g, d) = 1
Middle == LET m == ((g.lon + g.hin) * g.P) \div (2 * Div) IN
          (b = m /\ 3 * (b * Div - g.lon * g.P) >= (g.hin - g.lon) * g.P) => BuGain(g, b) = 1
=============================================================================
