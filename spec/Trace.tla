------------------------------- MODULE Trace -------------------------------
(* Validates a file of recorded events: one step per event, each of which has  *)
(* to be explainable by the specification. Discrepancies are printed.          *)
EXTENDS Judge, Json, IOUtils
Events == ndJsonDeserialize(IOEnv.EVENTS)
VARIABLE l
Init == l = 0
Next == /\ l < Len(Events)
        /\ LET ev == Events[l + 1]
               js == Judge(ev)
           IN \/ js = {}
              \/ js # {} /\ PrintT("@@" \o ToJson([l |-> l + 1, r |-> SetToSeq(js)]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
AllSeen == TLCGet("stats").diameter - 1 = Len(Events) /\ PrintT("@@DONE " \o ToString(Len(Events)))
=============================================================================
