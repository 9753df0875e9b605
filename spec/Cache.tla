-------------------------------- MODULE Cache --------------------------------
(* The cache of compiled patterns shared by all threads of an instance: a table divided
   into shards with a lock each. A call looks the pattern up; when it is absent the shard
   is locked, the pattern looked for once more, compiled and entered. Other calls may run
   between any two of these steps.

   To its users the cache must be invisible: every call gives what compiling the pattern
   anew would give (Right), and every call returns (Returns). Further a pattern is
   compiled at most once (Once) and what is entered stays (Stays).

   `sched` is the schedule as a controller of the code can impose it: the thread that is
   let go, at the beginning of a call, after a lookup that found nothing, and before a
   compilation (see harness, mode "sched").                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads, Good, Bad, Calls, TwoShards, Schedules

Patterns == Good \cup Bad
Absent == "absent"
Failure == "failure"
Answer(p) == IF p \in Bad THEN Failure ELSE p       \* compiling p anew
Shard(p) == IF TwoShards THEN p ELSE 0
Shards == {Shard(p) : p \in Patterns}
Free == 0

VARIABLES table, owner, pc, todo, result, compiled, sched
vars == <<table, owner, pc, todo, result, compiled, sched>>

Programs == [1..Calls -> Patterns]
Init == /\ table = [p \in Patterns |-> Absent]
        /\ owner = [s \in Shards |-> Free]
        /\ pc = [t \in Threads |-> "idle"]
        /\ todo \in [Threads -> Programs]
        /\ result = [t \in Threads |-> << >>]
        /\ compiled = [p \in Patterns |-> 0]
        /\ sched = << >>

Pattern(t) == todo[t][Len(result[t]) + 1]
Lock(t) == owner[Shard(Pattern(t))]
At(t, l) == pc[t] = l
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Return(t, r) == /\ result' = [result EXCEPT ![t] = Append(@, r)]
                /\ Go(t, "idle")
Unlock(t) == owner' = [owner EXCEPT ![Shard(Pattern(t))] = Free]
Let(t) == sched' = IF Schedules THEN Append(sched, t) ELSE sched

Begin(t) == /\ At(t, "idle") /\ Len(result[t]) < Calls
            /\ Go(t, "lookup") /\ Let(t)
            /\ UNCHANGED <<table, owner, todo, result, compiled>>
Hit(t) ==   /\ At(t, "lookup") /\ Lock(t) = Free /\ table[Pattern(t)] # Absent
            /\ Return(t, table[Pattern(t)])
            /\ UNCHANGED <<table, owner, todo, compiled, sched>>
Miss(t) ==  /\ At(t, "lookup") /\ Lock(t) = Free /\ table[Pattern(t)] = Absent
            /\ Go(t, "missed")
            /\ UNCHANGED <<table, owner, todo, result, compiled, sched>>
Enter(t) == /\ At(t, "missed") /\ Lock(t) = Free
            /\ owner' = [owner EXCEPT ![Shard(Pattern(t))] = t]
            /\ Go(t, "again") /\ Let(t)
            /\ UNCHANGED <<table, todo, result, compiled>>
Found(t) == /\ At(t, "again") /\ table[Pattern(t)] # Absent
            /\ Return(t, table[Pattern(t)]) /\ Unlock(t)
            /\ UNCHANGED <<table, todo, compiled, sched>>
Lost(t) ==  /\ At(t, "again") /\ table[Pattern(t)] = Absent
            /\ Go(t, "compile")
            /\ UNCHANGED <<table, owner, todo, result, compiled, sched>>
Compile(t) == LET p == Pattern(t)
              IN /\ At(t, "compile")
                 /\ compiled' = [compiled EXCEPT ![p] = @ + 1]
                 /\ table' = IF p \in Bad THEN table ELSE [table EXCEPT ![p] = Answer(p)]
                 /\ Return(t, Answer(p)) /\ Unlock(t) /\ Let(t)
                 /\ UNCHANGED todo

Done == \A t \in Threads : Len(result[t]) = Calls
Finished == /\ Done
            /\ (~Schedules \/ PrintT("SCHED " \o ToString(todo) \o " " \o ToString(sched) \o " " \o ToString(result)))
            /\ UNCHANGED vars

Step(t) == Begin(t) \/ Hit(t) \/ Miss(t) \/ Enter(t) \/ Found(t) \/ Lost(t) \/ Compile(t)
Next == (\E t \in Threads : Step(t)) \/ Finished
Spec == Init /\ [][Next]_vars /\ (\A t \in Threads : SF_vars(Step(t)))

-----------------------------------------------------------------------------
Right == \A t \in Threads : \A i \in 1..Len(result[t]) : result[t][i] = Answer(todo[t][i])
Once == \A p \in Good : compiled[p] <= 1
Entered == \A p \in Patterns : table[p] \in {Absent, p} /\ (p \in Bad => table[p] = Absent)
(* a lock is held by a thread that is about to look again or to compile, and by no other *)
Owned == \A s \in Shards : \A t \in Threads :
           (owner[s] = t) <=> (pc[t] \in {"again", "compile"} /\ Shard(Pattern(t)) = s)
Stays == [][\A p \in Patterns : table[p] # Absent => table'[p] = table[p]]_vars
Returns == <>Done
=============================================================================
