----------------------------- MODULE EnvTrace -----------------------------
(* Traces recorded from the real code, checked against EnvSpec event by    *)
(* event. Broken guards are collected with the scenario they occurred in.   *)
EXTENDS EnvSpec, Json, IOUtils, SequencesExt

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, sc, log

TInit == l = 1 /\ sc = 0 /\ log = {} /\ s = S0 /\ bad = {}
Step == /\ l <= Len(Trace)
        /\ LET ev == Trace[l]
               now == IF ev.e \in {"crash", "hang"} THEN {"ANY:" \o ev.e} ELSE Fails(ev)
           IN  /\ s' = Next1(ev)
               /\ sc' = IF ev.e = "begin" THEN ev.sc ELSE sc
               /\ log' = log \cup {<<x, sc, l>> : x \in {x \in now : Cardinality({y \in log : y[1] = x}) < 4 /\ ~ \E y \in log : y[1] = x /\ y[2] = sc}}
        /\ l' = l + 1 /\ bad' = {}
Done == /\ l = Len(Trace) + 1 /\ PrintT("@@RESULT " \o ToJson([lines |-> Len(Trace), log |-> SetToSeq(log)]))
        /\ l' = l + 1 /\ UNCHANGED <<s, bad, sc, log>>
TSpec == TInit /\ [][Step \/ Done]_<<s, bad, l, sc, log>>
=============================================================================
