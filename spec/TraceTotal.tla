----------------------------- MODULE TraceTotal -----------------------------
(* Life of one call of the library: it is entered and answers with a value  *)
(* or an error.  A session lists the calls made on one input with their     *)
(* observed ends; the end of input of a tokeniser is final.                 *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, vPos, vPhase
vars == <<sid, vPos, vPhase>>
Calls == Trace[sid].calls          \* [op, end] in the order made
Ends == {"value", "error"}

Say(v, w) == IF v = "" THEN TRUE ELSE PrintT(<<"@@", v, sid, vPos, w>>)

Init == sid \in 1..Len(Trace) /\ vPos = 0 /\ vPhase = "idle"
Enter == vPhase = "idle" /\ vPos < Len(Calls) /\ vPhase' = "running" /\ UNCHANGED <<sid, vPos>>
Answer == /\ vPhase = "running"
          /\ Calls[vPos + 1].end \in Ends
          /\ vPhase' = "idle" /\ vPos' = vPos + 1 /\ UNCHANGED sid
(* Any other end is no step of the specification.                           *)
Stuck == /\ vPhase = "running" /\ Calls[vPos + 1].end \notin Ends
         /\ Say("MISMATCH", Calls[vPos + 1])
         /\ vPhase' = "idle" /\ vPos' = vPos + 1 /\ UNCHANGED sid
Next == Enter \/ Answer \/ Stuck
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EverAnswered == <>(vPos = Len(Calls) /\ vPhase = "idle")
TypeOK == vPhase \in {"idle", "running"} /\ vPos \in 0..Len(Calls)
=============================================================================
