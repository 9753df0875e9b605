------------------------------- MODULE History -------------------------------
(* Independence of history. The library, seen from outside, is a memoryless object: the
   first result of a call fixes the result of every later or concurrent one with the same
   arguments. Memo holds, per call, the result a new instance gave that had made no call
   before; an event (of any run, thread or instance) may only repeat it.               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Memo == ndJsonDeserialize(IOEnv.VP_MEMO)      \* in the order of id
Events == ndJsonDeserialize(IOEnv.VP_EVENTS)
NEv == Len(Events)
Chunks == IF NEv < 64 THEN 1 ELSE 64

VARIABLES chunk, pos

SameOutcome(a, b) == IF a.k = "panic" /\ b.k = "panic" THEN TRUE ELSE a = b
Repeats(e) == e.out.k \notin {"hang", "abort"} /\ SameOutcome(e.out, Memo[e.id].out)

(* the memo was recorded in the order of the ids *)
ASSUME \A i \in 1..Len(Memo) : Memo[i].id = i

Init == chunk \in 1..Chunks /\ pos = chunk
Next == /\ pos <= NEv
        /\ (IF Repeats(Events[pos]) THEN TRUE
            ELSE PrintT("REJECT " \o ToString(Events[pos].ix) \o " " \o Events[pos].op \o " want " \o ToString(Memo[Events[pos].id].out)))
        /\ pos' = pos + Chunks
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_<<chunk, pos>>
=============================================================================
