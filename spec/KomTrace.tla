------------------------------ MODULE KomTrace ------------------------------
(***************************************************************************)
(* Trace validation of stream processing.  A run is the log of one chain   *)
(* of the real library driven by a consumer.  The endpoint is a machine    *)
(* with an output position and a consumption counter; each log event must  *)
(* be explained by one of its actions:                                     *)
(*   new   the chain was constructed                                       *)
(*   p k   k outputs were pulled one by one (fewer, and end, if it ended)  *)
(*   n k   k outputs were skipped through nth() and one was returned       *)
(*   s k   k outputs were pulled and only counted                          *)
(*   a, b  everything was collected (b: bits, 24 to a word)                *)
(*   z     everything was pulled and counted                               *)
(*   x k   k more pulls after the end                                      *)
(*   f, v  everything through fold, collect of the chain's own type        *)
(*   c, l  the same through count, last                                    *)
(*   h     size_hint: least and most outputs left (-1: no bound), capped   *)
(*   panic the library panicked                                            *)
(***************************************************************************)
EXTENDS Blocks, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, e, pos, cons, ended, aux, verdict
vars == <<r, e, pos, cons, ended, aux, verdict>>

R == Runs[r]
Ev == R.ev[e]
Event(t) == verdict = "run" /\ e <= Len(R.ev) /\ Ev.t = t

Init ==
  /\ r \in 1..Len(Runs)
  /\ e = 1 /\ pos = 0 /\ cons = 0 /\ ended = FALSE
  /\ verdict = "new" /\ aux = <<>>
Start == /\ verdict = "new"
         /\ verdict' = IF Guard(R) THEN "run" ELSE "vacuous"
         /\ aux' = IF verdict' = "run" THEN Prep(R) ELSE <<>>
         /\ UNCHANGED <<r, e, pos, cons, ended>>

\* number of outputs an event reports, and its values
OutOf(j) == IF Ev.t = "b" THEN BitOf(Ev.o[j \div 24 + 1], j % 24) ELSE Ev.o[j + 1]
\* why the event is impossible, "" if it is possible
Why(logged, first) ==
  \* logged: number of values logged, the first of which is output number `first`
  LET L == Lens(R, aux)
      p2 == pos + Ev.n IN
  IF p2 > L[2] THEN "too many outputs"
  ELSE IF Ev.end /\ ~ended /\ p2 < L[1] THEN "ended too early"
  ELSE IF ended /\ Ev.n > 0 THEN "output after the end"
  ELSE IF Ev.c < cons THEN "consumption went backwards"
  ELSE IF Ev.c > (IF p2 = 0 THEN 0 ELSE Need(R, p2)) + Ahead(R) /\ ~Ev.end THEN "consumed too far ahead"
  ELSE IF logged = 0 THEN ""
  ELSE LET b == FirstBad(R, aux, first, logged, OutOf) IN
       IF b = -1 THEN "" ELSE "wrong output " \o ToString(first + b)

Step(logged, first, wellformed) ==
  LET w == IF wellformed THEN Why(logged, first) ELSE "malformed event" IN
  IF w = ""
  THEN /\ e' = e + 1 /\ pos' = pos + Ev.n /\ cons' = Ev.c /\ ended' = (ended \/ Ev.end)
       /\ UNCHANGED <<r, aux, verdict>>
  ELSE /\ PrintT(<<"REJECT", R.id, e, w>>)
       /\ verdict' = "rejected"
       /\ UNCHANGED <<r, e, pos, cons, ended, aux>>

New    == Event("new") /\ Step(0, 0, e = 1)
Pull   == Event("p") /\ Step(Ev.n, pos, (Ev.n = Ev.k) = ~Ev.end)
Nth    == Event("n") /\ IF Ev.end THEN \* skipped over the end: at most k outputs were left
                          IF ~ended /\ Lens(R, aux)[1] - pos > Ev.k
                          THEN PrintT(<<"REJECT", R.id, e, "ended too early">>)
                               /\ verdict' = "rejected" /\ UNCHANGED <<r, e, pos, cons, ended, aux>>
                          ELSE e' = e + 1 /\ ended' = TRUE /\ cons' = Ev.c
                               /\ UNCHANGED <<r, pos, aux, verdict>>
                        ELSE Step(1, pos + Ev.k, Ev.n = Ev.k + 1)
Skip   == Event("s") /\ Step(0, 0, (Ev.n = Ev.k) = ~Ev.end)
Drain  == (Event("a") \/ Event("b") \/ Event("f") \/ Event("v")) /\ Step(Ev.n, pos, Ev.end)
Count  == (Event("z") \/ Event("c")) /\ Step(0, 0, Ev.end)
\* a hint is true of every number of outputs that may be left
Hint   == Event("h") /\ LET L == Lens(R, aux) IN
                        Step(0, 0, /\ ~Ev.end
                                   /\ \/ Ev.o[1] = 0
                                      \/ ~ended /\ (L[2] >= INF \/ Ev.o[1] <= L[2] - pos)
                                   /\ \/ Ev.o[2] = -1 \/ ended
                                      \/ Ev.o[2] >= (IF L[1] >= INF THEN INF ELSE L[1] - pos))
\* the last output of all: some admissible length ends in it
Last   == Event("l") /\ LET L == Lens(R, aux)
                            good == IF Ev.o = <<>> THEN ended \/ L[1] <= pos
                                    ELSE ~ended /\ \E p \in Max2(pos + 1, L[1])..L[2] : FirstBad(R, aux, p - 1, 1, OutOf) = -1
                        IN IF good THEN /\ e' = e + 1 /\ ended' = TRUE /\ cons' = Ev.c /\ pos' = L[1]
                                        /\ UNCHANGED <<r, aux, verdict>>
                           ELSE /\ PrintT(<<"REJECT", R.id, e, "wrong last output">>) /\ verdict' = "rejected"
                                /\ UNCHANGED <<r, e, pos, cons, ended, aux>>
Poll   == Event("x") /\ Step(0, 0, ended)
Panic  == Event("panic") /\ PrintT(<<"REJECT", R.id, e, "panic">>)
          /\ verdict' = "rejected" /\ UNCHANGED <<r, e, pos, cons, ended, aux>>
Accept == /\ verdict = "run" /\ e > Len(R.ev)
          /\ PrintT(<<"ACCEPT", R.id, pos>>)
          /\ verdict' = "accepted" /\ UNCHANGED <<r, e, pos, cons, ended, aux>>
Vacuous == /\ verdict = "vacuous" /\ PrintT(<<"VACUOUS", R.id>>)
           /\ verdict' = "skipped" /\ UNCHANGED <<r, e, pos, cons, ended, aux>>

Next == Start \/ New \/ Pull \/ Nth \/ Skip \/ Drain \/ Count \/ Hint \/ Last \/ Poll \/ Panic \/ Accept \/ Vacuous
Spec == Init /\ [][Next]_vars

TypeOK == /\ pos >= 0 /\ cons >= 0 /\ ended \in BOOLEAN
          /\ verdict \in {"new", "run", "accepted", "rejected", "vacuous", "skipped"}
\* an accepted run never produced more than its denotation
Bounded == verdict = "run" => pos <= Lens(R, aux)[2]
=============================================================================
