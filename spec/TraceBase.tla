----------------------------- MODULE TraceBase ------------------------------
(* Validation of recorded executions: every trace is one initial state, every *)
(* event one transition whose verdict JStep(tr, st, ev) is total and names    *)
(* the clauses of the specification the event breaks; when the observation is  *)
(* complete enough (go) judging continues from the observed state.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS JInit(_), JStep(_, _, _)
VARIABLES tbI, tbL, tbS

Traces == JsonDeserialize(IOEnv.TRACES)

TInit == /\ tbI \in 1..Len(Traces)
         /\ tbL = 1
         /\ tbS = [v |-> JInit(Traces[tbI]), stop |-> FALSE]

TNext == /\ ~tbS.stop
         /\ tbL <= Len(Traces[tbI].ev)
         /\ \E r \in {JStep(Traces[tbI], tbS.v, Traces[tbI].ev[tbL])} :
               /\ IF r.bad = {} THEN TRUE ELSE PrintT("FAIL|" \o ToString(tbI) \o "|" \o ToString(tbL)
                                       \o "|" \o ToString(r.bad))
               /\ tbS' = [v |-> r.st, stop |-> ~r.go]
         /\ tbL' = tbL + 1
         /\ tbI' = tbI

TSpec == TInit /\ [][TNext]_<<tbI, tbL, tbS>>
TView == <<tbI, tbL>>
=============================================================================
