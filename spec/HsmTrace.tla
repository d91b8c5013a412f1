------------------------------ MODULE HsmTrace ------------------------------
(***************************************************************************)
(* Trace validation: every recorded run of the real engine must be a       *)
(* behaviour of Hsm.  A run is [id, m, env, ops] (with cmds: the machine is  *)
(* what results from these registration calls); each operation carries      *)
(* what was observed while it was executed (obs: callbacks with arguments  *)
(* and the active states seen by them, results, timer requests).           *)
(*                                                                          *)
(* The specification may allow several states after an operation (how many *)
(* queued events one dispatcher turn processes is left open), so the       *)
(* checker tracks the set `cands` of all states compatible with what was   *)
(* observed so far; a run is a violation when the set becomes empty.       *)
(***************************************************************************)
EXTENDS HsmReg, Scxml, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
(* What of the observations is compared is chosen per property (COMPARE): the kinds of observations, and  *)
(* whether arguments and the active states seen by callbacks count.  "all" compares everything.            *)
Base == {"init", "en", "ex", "st", "tr", "hd"}
Timers == {"ts", "tp", "trs", "ts!", "tr!"}
All == Base \cup Timers \cup {"fl", "poss", "irq", "isup"}
(* records of the debug log; Lbad: something which isn't a proper record *)
LogKinds == {"Li", "Lt", "Le", "Ln", "Lx", "Ls", "Len", "Lex", "Lbad"}
What == CASE IOEnv.COMPARE = "C01" -> [k |-> Base, args |-> FALSE, act |-> TRUE]
          [] IOEnv.COMPARE = "C02" -> [k |-> Base, args |-> TRUE, act |-> FALSE]
          [] IOEnv.COMPARE = "C03" -> [k |-> Base, args |-> FALSE, act |-> TRUE]
          [] IOEnv.COMPARE = "C04" -> [k |-> Base \cup Timers \cup {"fl"}, args |-> TRUE, act |-> FALSE]
          [] IOEnv.COMPARE = "C05" -> [k |-> Base, args |-> FALSE, act |-> TRUE]
          [] IOEnv.COMPARE = "C06" -> [k |-> Base \cup {"fl"}, args |-> FALSE, act |-> TRUE]
          [] IOEnv.COMPARE = "C07" -> [k |-> Base, args |-> FALSE, act |-> TRUE]
          [] IOEnv.COMPARE = "C08" -> [k |-> Base, args |-> TRUE, act |-> TRUE]
          [] IOEnv.COMPARE = "C09" -> [k |-> Base \cup Timers, args |-> TRUE, act |-> FALSE]
          [] IOEnv.COMPARE = "C10" -> [k |-> Base \cup {"fl"}, args |-> TRUE, act |-> TRUE]
          [] IOEnv.COMPARE = "C14" -> [k |-> Base \cup {"fl"}, args |-> TRUE, act |-> FALSE]
          [] IOEnv.COMPARE = "C26" -> [k |-> Base \cup Timers \cup {"fl"}, args |-> TRUE, act |-> TRUE]
          [] IOEnv.COMPARE = "C22" -> [k |-> Base \cup LogKinds \cup {"fl", "lon"}, args |-> TRUE, act |-> TRUE]
          [] IOEnv.COMPARE = "C20" -> [k |-> {"init", "f", "fl", "poss", "bad"} \cup Timers, args |-> TRUE, act |-> TRUE]
          [] OTHER -> [k |-> All, args |-> TRUE, act |-> TRUE]

VARIABLES i, j, cands, mach

(* op: the operation in progress; nolog: the log wasn't enabled *)
Project(os0, op) ==
    LET os == IF "fns" \in DOMAIN mach THEN [n \in 1..Len(os0) |-> AsFunction(mach, os0[n])] ELSE os0
        kept == SelectSeq(os, LAMBDA o : o.k \in What.k /\ ~(o.k \in LogKinds \ {"Lbad"} /\ op.nolog))
        one(o) == [k |-> o.k, s |-> o.s,
                   args |-> IF What.args \/ o.k \in {"init", "isup", "poss", "irq", "lon"} THEN o.args ELSE <<>>,
                   act |-> IF What.act THEN o.act ELSE <<>>]
    IN  [n \in 1..Len(kept) |-> one(kept[n])]

Seen(S, op) == Project(S.out, op)
Reset(S) == [S EXCEPT !.out = <<>>]

(* all states reachable by processing one or more queued events of which the observations match *)
RECURSIVE Turns(_, _, _, _, _)
Turns(m, S, op, obs, n) ==
    LET T == Step(m, S)
        ok == IsPrefix(Seen(T, op), obs)
    IN  IF ~ok THEN {}
        ELSE (IF Seen(T, op) = obs THEN {T} ELSE {})
             \cup (IF T.q # <<>> /\ T.st = "up" /\ n > 1 THEN Turns(m, T, op, obs, n - 1) ELSE {})

After(m, S, o) ==
    CASE o.op = "d" ->
            IF S.st # "up" THEN {S}
            ELSE IF o.had = 0 THEN (IF S.q = <<>> /\ S.irq = <<>> THEN {S} ELSE {})
            ELSE LET T == TakeIrq(S)
                 IN  IF T.q = <<>> THEN {T} ELSE Turns(m, T, o, Project(o.obs, o), 60)
      [] o.op = "init" ->
            {IF S.st = "new" THEN Ob(Initialize(m, S), "init", 0, <<1>>) ELSE Ob(S, "init", 0, <<0>>)}
      [] o.op = "lon" -> {Ob(S, "lon", 0, o.args)}
      [] o.op = "loff" -> {S}
      [] o.op = "rel" -> {Release(S)}
      [] o.op = "isup" -> {Ob(S, "isup", 0, <<IF S.st = "up" THEN 1 ELSE 0>>)}
      [] OTHER -> {ClientOp(m, S, o)}

(* what one step would have produced, for the report *)
ExpectedAfter(m, S, o) ==
    IF o.op = "d" /\ S.st = "up" /\ TakeIrq(S).q # <<>> THEN {Step(m, TakeIrq(S))} ELSE After(m, S, o)

Init == /\ i \in 1..Len(Runs)
        /\ j = 0
        /\ IF "doc" \in DOMAIN Runs[i]
           THEN mach = MachineOf(Runs[i].doc) /\ cands = {Fresh(MachineOf(Runs[i].doc), Runs[i].env)}
           ELSE IF "cmds" \in DOMAIN Runs[i]
           THEN LET b == Built(Runs[i].m, Runs[i].cmds)
                IN  mach = b.m /\ cands = IF b.ok THEN {Fresh(b.m, Runs[i].env)} ELSE {}
           ELSE mach = Runs[i].m /\ cands = {Fresh(Runs[i].m, Runs[i].env)}

Next == /\ j < Len(Runs[i].ops)
        /\ j' = j + 1
        /\ i' = i /\ mach' = mach
        /\ LET o == Runs[i].ops[j + 1]
           IN  cands' = {Reset(T) : T \in {T \in UNION {After(mach, S, o) : S \in cands} : Seen(T, o) = Project(o.obs, o)}}

Spec == Init /\ [][Next]_<<i, j, cands, mach>>

Conform == cands # {}

(* facts about the specification itself, checked on every state the recorded runs reach *)
Sane == \A S \in cands :
           /\ \A a, b \in 1..Len(S.act) : a # b => S.act[a] # S.act[b]
           /\ S.st = "up" => S.act # <<>>
           /\ S.out = <<>>

(* with -deadlock off the search ends when all runs are consumed; on a violation TLC prints i and j;
   Expected shows what the specification would have allowed *)
Alias == [ run |-> Runs[i].id, op |-> j, cands |-> cands,
           next |-> IF j < Len(Runs[i].ops) THEN Runs[i].ops[j + 1] ELSE <<>>,
           expected |-> IF j < Len(Runs[i].ops) /\ TLCGet("level") > 0
                        THEN {Seen(T, Runs[i].ops[j + 1]) : T \in UNION {ExpectedAfter(mach, S, Runs[i].ops[j + 1]) : S \in cands}}
                        ELSE {} ]
=============================================================================
