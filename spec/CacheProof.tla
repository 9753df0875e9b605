------------------------------ MODULE CacheProof ------------------------------
(* What Cache.cfg lets TLC check for three threads, proved for any number of threads,
   calls, patterns and either division into shards: Inv is inductive, so the answers are
   right, a pattern is compiled at most once, locks have one owner, what is entered stays. *)
EXTENDS Cache, TLAPS

ASSUME Given == /\ Threads \subseteq Nat \ {0}
                /\ Calls \in Nat
                /\ Good \cap Bad = {}
                /\ Absent \notin Patterns /\ Failure \notin Patterns /\ Absent # Failure
                /\ TwoShards \in BOOLEAN

Labels == {"idle", "lookup", "missed", "again", "compile"}
Types == /\ table \in [Patterns -> Patterns \cup {Absent}]
         /\ owner \in [Shards -> Threads \cup {Free}]
         /\ pc \in [Threads -> Labels]
         /\ todo \in [Threads -> Programs]
         /\ result \in [Threads -> Seq(Patterns \cup {Failure})]
         /\ compiled \in [Patterns -> Nat]
Running == \A t \in Threads : /\ Len(result[t]) <= Calls
                              /\ pc[t] # "idle" => Len(result[t]) < Calls
Holds(t) == pc[t] \in {"again", "compile"}
Owners == \A t \in Threads : \A s \in Shards : (owner[s] = t) <=> (Holds(t) /\ Shard(Pattern(t)) = s)
Compiling == \A t \in Threads : pc[t] = "compile" => table[Pattern(t)] = Absent
Counted == \A p \in Good : compiled[p] = IF table[p] = Absent THEN 0 ELSE 1
Inv == Types /\ Running /\ Owners /\ Compiling /\ Counted /\ Entered /\ Right

LEMMA Its == ASSUME Types, Running, NEW t \in Threads, pc[t] # "idle"
             PROVE Pattern(t) \in Patterns /\ Shard(Pattern(t)) \in Shards /\ Len(result[t]) + 1 \in 1..Calls
  BY Given DEF Types, Running, Pattern, Programs, Shards, Labels

THEOREM First == Init => Inv
  <1> SUFFICES ASSUME Init PROVE Inv OBVIOUS
  <1>1. Types BY Given DEF Init, Types, Labels, Programs, Free
  <1>2. Running BY Given DEF Init, Running
  <1>3. Owners BY Given DEF Init, Owners, Holds, Free
  <1>4. Compiling BY DEF Init, Compiling
  <1>5. Counted BY DEF Init, Counted, Patterns
  <1>6. Entered BY DEF Init, Entered
  <1>7. Right BY DEF Init, Right
  <1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Inv

LEMMA Skips == ASSUME Inv, UNCHANGED vars PROVE Inv'
  BY DEF Inv, vars, Types, Running, Owners, Holds, Compiling, Counted, Entered, Right, Pattern

(* a step of one thread that only moves its label, between labels that hold no lock, or
   from "again" to "compile" *)
LEMMA Moves ==
  ASSUME Inv, NEW t \in Threads, NEW l \in Labels, Go(t, l),
         pc[t] = "idle" => Len(result[t]) < Calls,
         l # "idle",
         (l \in {"again", "compile"}) <=> Holds(t),
         l = "compile" => table[Pattern(t)] = Absent,
         UNCHANGED <<table, owner, todo, result, compiled>>
  PROVE  Inv'
  <1> USE DEF Inv
  <1>0. pc' = [pc EXCEPT ![t] = l] BY DEF Go
  <1>1. Types' BY <1>0 DEF Types
  <1>2. Running' BY <1>0 DEF Types, Running
  <1>3. \A u \in Threads : Pattern(u)' = Pattern(u) BY DEF Pattern
  <1>4. \A u \in Threads : Holds(u)' = Holds(u) BY <1>0 DEF Types, Holds
  <1>5. Owners' BY <1>3, <1>4 DEF Owners, Shard
  <1>6. Compiling' BY <1>0, <1>3 DEF Types, Compiling
  <1>7. Counted' /\ Entered' /\ Right' BY DEF Counted, Entered, Right
  <1> QED BY <1>1, <1>2, <1>5, <1>6, <1>7

(* a step that ends the call of t with the answer r *)
LEMMA Ends ==
  ASSUME Inv, NEW t \in Threads, NEW r, Return(t, r), pc[t] # "idle",
         r = Answer(Pattern(t)),
         UNCHANGED todo
  PROVE  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pc' \in [Threads -> Labels]
         /\ result' \in [Threads -> Seq(Patterns \cup {Failure})]
         /\ Running' /\ Right'
         /\ \A u \in Threads : u # t => Pattern(u)' = Pattern(u) /\ pc'[u] = pc[u]
  <1> USE DEF Inv
  <1>0. pc' = [pc EXCEPT ![t] = "idle"] /\ result' = [result EXCEPT ![t] = Append(@, r)] BY DEF Return, Go
  <1>1. Pattern(t) \in Patterns /\ Len(result[t]) < Calls BY Its DEF Running
  <1>2. r \in Patterns \cup {Failure} BY <1>1 DEF Answer
  <1>3. pc' \in [Threads -> Labels] BY <1>0 DEF Types, Labels
  <1>4. result' \in [Threads -> Seq(Patterns \cup {Failure})] BY <1>0, <1>2 DEF Types
  <1>5. \A u \in Threads : u # t => result'[u] = result[u] /\ pc'[u] = pc[u] BY <1>0 DEF Types
  <1>6. Len(result'[t]) = Len(result[t]) + 1 /\ pc'[t] = "idle" BY <1>0 DEF Types
  <1>7. Running' BY <1>1, <1>3, <1>4, <1>5, <1>6, Given DEF Running, Types
  <1>8. \A i \in 1..Len(result'[t]) : result'[t][i] = Answer(todo[t][i])
    <2> TAKE i \in 1..Len(result'[t])
    <2>1. CASE i = Len(result[t]) + 1 BY <2>1, <1>0 DEF Types, Pattern
    <2>2. CASE i # Len(result[t]) + 1 BY <2>2, <1>0, <1>6 DEF Types, Right
    <2> QED BY <2>1, <2>2
  <1>9. Right' BY <1>5, <1>8 DEF Right, Answer
  <1> QED BY <1>0, <1>3, <1>4, <1>5, <1>7, <1>9 DEF Pattern

THEOREM Stepping == Inv /\ [Next]_vars => Inv'
  <1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv' OBVIOUS
  <1>1. CASE UNCHANGED vars BY <1>1, Skips
  <1>2. CASE Finished BY <1>2, Skips DEF Finished
  <1>3. ASSUME NEW t \in Threads, Step(t) PROVE Inv'
    <2> USE DEF Inv
    <2>1. CASE Begin(t) BY <2>1, Moves DEF Begin, At, Holds, Labels
    <2>2. CASE Miss(t) BY <2>2, Moves DEF Miss, At, Holds, Labels
    <2>3. CASE Lost(t) BY <2>3, Moves DEF Lost, At, Holds, Labels
    <2>4. CASE Enter(t)
      <3>0. /\ pc[t] = "missed" /\ owner[Shard(Pattern(t))] = Free
            /\ owner' = [owner EXCEPT ![Shard(Pattern(t))] = t]
            /\ pc' = [pc EXCEPT ![t] = "again"]
            /\ UNCHANGED <<table, todo, result, compiled>>
        BY <2>4 DEF Enter, At, Lock, Go
      <3>1. Shard(Pattern(t)) \in Shards BY <3>0, Its
      <3>2. Types' /\ Running' BY <3>0, <3>1 DEF Types, Running, Labels
      <3>3. \A u \in Threads : Pattern(u)' = Pattern(u) BY <3>0 DEF Pattern
      <3>4. Owners'
        <4> SUFFICES ASSUME NEW u \in Threads, NEW s \in Shards
                     PROVE (owner'[s] = u) <=> (Holds(u)' /\ Shard(Pattern(u)) = s)
          BY <3>3 DEF Owners, Shard
        <4>1. (owner[s] = u) <=> (Holds(u) /\ Shard(Pattern(u)) = s) BY DEF Owners
        <4>2. u # t => (Holds(u)' <=> Holds(u)) BY <3>0 DEF Holds, Types
        <4>3. Holds(t)' /\ ~Holds(t) BY <3>0 DEF Holds, Types
        <4>4. owner'[s] = IF s = Shard(Pattern(t)) THEN t ELSE owner[s] BY <3>0, <3>1 DEF Types
        <4>5. u # Free BY Given DEF Free
        <4> QED BY <4>1, <4>2, <4>3, <4>4, <4>5, <3>0
      <3>5. Compiling' BY <3>0, <3>3 DEF Compiling, Types
      <3>6. Counted' /\ Entered' /\ Right' BY <3>0 DEF Counted, Entered, Right
      <3> QED BY <3>2, <3>4, <3>5, <3>6
    <2>5. CASE Hit(t)
      <3>0. /\ pc[t] = "lookup" /\ table[Pattern(t)] # Absent /\ Return(t, table[Pattern(t)])
            /\ UNCHANGED <<table, owner, todo, compiled>>
        BY <2>5 DEF Hit, At
      <3>1. Pattern(t) \in Patterns BY <3>0, Its
      <3>2. table[Pattern(t)] = Answer(Pattern(t)) BY <3>0, <3>1 DEF Entered, Answer
      <3>3. /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pc' \in [Threads -> Labels]
            /\ result' \in [Threads -> Seq(Patterns \cup {Failure})]
            /\ Running' /\ Right'
            /\ \A u \in Threads : u # t => Pattern(u)' = Pattern(u) /\ pc'[u] = pc[u]
        BY <3>0, <3>2, Ends
      <3>4. Types' BY <3>0, <3>3 DEF Types
      <3>5. ~Holds(t) /\ ~Holds(t)' BY <3>0, <3>3 DEF Holds, Types
      <3>6. Owners' BY <3>0, <3>3, <3>5 DEF Owners, Holds, Shard
      <3>7. Compiling' BY <3>0, <3>3, <3>5 DEF Compiling, Holds
      <3>8. Counted' /\ Entered' BY <3>0 DEF Counted, Entered
      <3> QED BY <3>3, <3>4, <3>6, <3>7, <3>8
    <2>6. ASSUME NEW r, Holds(t), Return(t, r), Unlock(t), UNCHANGED todo,
                 r = Answer(Pattern(t)),
                 \/ UNCHANGED <<table, compiled>>
                 \/ /\ table[Pattern(t)] = Absent
                    /\ compiled' = [compiled EXCEPT ![Pattern(t)] = @ + 1]
                    /\ table' = IF Pattern(t) \in Bad THEN table ELSE [table EXCEPT ![Pattern(t)] = Answer(Pattern(t))]
          PROVE Inv'
      <3>0. pc[t] # "idle" BY <2>6 DEF Holds
      <3>1. Pattern(t) \in Patterns /\ Shard(Pattern(t)) \in Shards BY <3>0, Its
      <3>3. /\ pc' = [pc EXCEPT ![t] = "idle"] /\ pc' \in [Threads -> Labels]
            /\ result' \in [Threads -> Seq(Patterns \cup {Failure})]
            /\ Running' /\ Right'
            /\ \A u \in Threads : u # t => Pattern(u)' = Pattern(u) /\ pc'[u] = pc[u]
        BY <2>6, <3>0, Ends
      <3>4. owner' = [owner EXCEPT ![Shard(Pattern(t))] = Free] BY <2>6 DEF Unlock
      <3>5. table' \in [Patterns -> Patterns \cup {Absent}] /\ compiled' \in [Patterns -> Nat]
        BY <2>6, <3>1 DEF Types, Answer
      <3>6. Types' BY <2>6, <3>1, <3>3, <3>4, <3>5 DEF Types
      <3>7. Holds(t) /\ ~Holds(t)' /\ pc'[t] = "idle" BY <2>6, <3>3 DEF Holds, Types
      <3>8. Owners'
        <4> SUFFICES ASSUME NEW u \in Threads, NEW s \in Shards
                     PROVE (owner'[s] = u) <=> (Holds(u)' /\ Shard(Pattern(u)') = s)
          BY DEF Owners, Shard
        <4>1. (owner[s] = u) <=> (Holds(u) /\ Shard(Pattern(u)) = s) BY DEF Owners
        <4>2. owner[Shard(Pattern(t))] = t BY <3>1, <3>7 DEF Owners
        <4>3. owner'[s] = IF s = Shard(Pattern(t)) THEN Free ELSE owner[s] BY <3>1, <3>4 DEF Types
        <4>4. u # Free BY Given DEF Free
        <4>5. CASE u = t BY <4>1, <4>2, <4>3, <4>4, <4>5, <3>7
        <4>6. CASE u # t
          <5>1. (Holds(u)' <=> Holds(u)) /\ Pattern(u)' = Pattern(u) BY <4>6, <3>3 DEF Holds
          <5> QED BY <5>1, <4>1, <4>2, <4>3, <4>4, <4>6
        <4> QED BY <4>5, <4>6
      <3>9. Compiling'
        <4> SUFFICES ASSUME NEW u \in Threads, pc'[u] = "compile" PROVE table'[Pattern(u)'] = Absent
          BY DEF Compiling
        <4>1. u # t BY <3>7
        <4>2. Pattern(u)' = Pattern(u) /\ pc[u] = "compile" BY <4>1, <3>3
        <4>3. Pattern(u) \in Patterns /\ Shard(Pattern(u)) \in Shards BY <4>2, Its
        <4>4. table[Pattern(u)] = Absent BY <4>2 DEF Compiling
        <4>5. owner[Shard(Pattern(u))] = u /\ owner[Shard(Pattern(t))] = t BY <3>1, <3>7, <4>2, <4>3 DEF Owners, Holds
        <4>6. Pattern(u) # Pattern(t) BY <4>1, <4>5
        <4> QED BY <2>6, <4>2, <4>3, <4>4, <4>6, <3>1 DEF Types
      <3>10. Counted' /\ Entered' BY <2>6, <3>1, Given DEF Counted, Entered, Answer, Types, Patterns
      <3> QED BY <3>3, <3>6, <3>8, <3>9, <3>10
    <2>7. CASE Found(t)
      <3>0. /\ pc[t] = "again" /\ table[Pattern(t)] # Absent /\ Return(t, table[Pattern(t)]) /\ Unlock(t)
            /\ UNCHANGED <<table, todo, compiled>>
        BY <2>7 DEF Found, At
      <3>1. Pattern(t) \in Patterns BY <3>0, Its
      <3>2. table[Pattern(t)] = Answer(Pattern(t)) BY <3>0, <3>1 DEF Entered, Answer
      <3>3. Holds(t) BY <3>0 DEF Holds
      <3> QED BY <3>0, <3>2, <3>3, <2>6
    <2>8. CASE Compile(t)
      <3>0. /\ pc[t] = "compile" /\ Return(t, Answer(Pattern(t))) /\ Unlock(t) /\ UNCHANGED todo
            /\ compiled' = [compiled EXCEPT ![Pattern(t)] = @ + 1]
            /\ table' = IF Pattern(t) \in Bad THEN table ELSE [table EXCEPT ![Pattern(t)] = Answer(Pattern(t))]
        BY <2>8 DEF Compile, At
      <3>1. Holds(t) /\ table[Pattern(t)] = Absent BY <3>0 DEF Holds, Compiling
      <3> QED BY <3>0, <3>1, <2>6
    <2> QED BY <1>3, <2>1, <2>2, <2>3, <2>4, <2>5, <2>7, <2>8 DEF Step
  <1> QED BY <1>1, <1>2, <1>3 DEF Next

THEOREM Safety == Init /\ [][Next]_vars => [](Right /\ Once /\ Entered /\ Owned)
  <1>1. Inv => Right /\ Once /\ Entered /\ Owned
    BY Given DEF Inv, Once, Counted, Owned, Owners, Holds, Types
  <1> QED BY <1>1, First, Stepping, PTL

THEOREM Staying == Init /\ [][Next]_vars => Stays
  <1>1. Inv /\ [Next]_vars => [\A p \in Patterns : table[p] # Absent => table'[p] = table[p]]_vars
    <2> SUFFICES ASSUME Inv, Next, NEW p \in Patterns, table[p] # Absent PROVE table'[p] = table[p]
      BY DEF vars
    <2>1. CASE Finished BY <2>1 DEF Finished, vars
    <2>2. ASSUME NEW t \in Threads, Step(t) PROVE table'[p] = table[p]
      <3>1. CASE Compile(t)
        <4>1. pc[t] = "compile" BY <3>1 DEF Compile, At
        <4>2. Pattern(t) # p BY <4>1 DEF Inv, Compiling
        <4> QED BY <3>1, <4>2 DEF Compile, Inv, Types
      <3>2. CASE ~Compile(t) BY <2>2, <3>2 DEF Step, Begin, Hit, Miss, Enter, Found, Lost
      <3> QED BY <3>1, <3>2
    <2> QED BY <2>1, <2>2 DEF Next
  <1> QED BY <1>1, First, Stepping, PTL DEF Stays
===============================================================================
