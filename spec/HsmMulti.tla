------------------------------ MODULE HsmMulti ------------------------------
(***************************************************************************)
(* Several machines on one dispatcher.  The system is a product of          *)
(* independent machines (Hsm) which share only what the dispatcher owns:    *)
(* the bounded queue of interrupt-safe events and the timers.  Recorded     *)
(* runs of real machines on the repository's dispatcher are validated       *)
(* against it.  A run is [id, ms, envs, cap, ops]; operations carry the     *)
(* machine (o.m), what was observed by whom (o.obs) and the timers running  *)
(* afterwards (o.tms).                                                      *)
(***************************************************************************)
EXTENDS Hsm, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Base == {"init", "en", "ex", "st", "tr", "hd"}
What == CASE IOEnv.COMPARE = "C15" -> [k |-> Base \cup {"fl", "isup", "irq"}, args |-> FALSE, act |-> TRUE, tms |-> TRUE]
          [] IOEnv.COMPARE = "C16" -> [k |-> Base \cup {"irq"}, args |-> FALSE, act |-> FALSE, tms |-> FALSE]
          [] IOEnv.COMPARE = "C18" -> [k |-> Base, args |-> FALSE, act |-> FALSE, tms |-> TRUE]
          [] OTHER -> [k |-> Base \cup {"fl", "isup", "irq", "poss"}, args |-> TRUE, act |-> TRUE, tms |-> TRUE]

Norm(o) == [m |-> o.m, k |-> o.k, s |-> o.s,
            args |-> IF What.args \/ o.k \in {"init", "isup", "poss", "irq"} THEN o.args ELSE <<>>,
            act |-> IF What.act THEN o.act ELSE <<>>]
Project(os) == LET kept == SelectSeq(os, LAMBDA o : o.k \in What.k) IN [n \in 1..Len(kept) |-> Norm(kept[n])]

---------------------------------------------------------------------------
(* System state: [M machines, tm running timers, stale places of the        *)
(* interrupt queue held by released machines, out]                          *)

Boot(r) == [M |-> [k \in 1..Len(r.ms) |-> Fresh(r.ms[k], r.envs[k])], tm |-> {}, stale |-> 0, out |-> <<>>]

Sum(f, ks) == LET RECURSIVE Go(_) Go(n) == IF n = 0 THEN 0 ELSE Go(n - 1) + (IF n \in ks THEN f[n] ELSE 0)
              IN  Go(Len(f))
Waiting(C, k) == C.stale + Sum([n \in 1..Len(C.M) |-> Len(C.M[n].irq)], (1..Len(C.M)) \ {k})

(* timer requests and releases done by machine k, in order; then its observations become the system's *)
TimerRequest(C, k, o) ==
    CASE o.k = "ts"  -> IF o.args[2] > 0
                        THEN [C EXCEPT !.tm = {t \in @ : t.id # o.args[1]}
                                              \cup {[id |-> o.args[1], m |-> k, iv |-> o.args[2], ss |-> o.args[3]]}]
                        ELSE C
      [] o.k = "tp"  -> [C EXCEPT !.tm = {t \in @ : t.id # o.args[1]}]
      [] o.k = "rel" -> [C EXCEPT !.tm = {t \in @ : t.m # k}, !.stale = @ + o.args[1]]
      [] OTHER -> C

Settle(C, k) ==
    LET S == C.M[k]
        D == FoldLeft(LAMBDA B, o : TimerRequest(B, k, o), C, S.out)
        mine == [n \in 1..Len(S.out) |-> [m |-> k, k |-> S.out[n].k, s |-> S.out[n].s, args |-> S.out[n].args, act |-> S.out[n].act]]
    IN  [D EXCEPT !.out = @ \o Project(mine), !.M[k].out = <<>>]

(* f: what machine k does *)
With(C, k, f(_)) == Settle([C EXCEPT !.M[k] = f([@ EXCEPT !.oth = Waiting(C, k)])], k)

Rel(S) == IF S.st = "up" THEN Release(Ob(S, "rel", 0, <<Len(S.irq)>>)) ELSE S

Own(ms, C, k, o) ==
    CASE C.M[k].st = "gone" -> C
      [] o.op = "init" -> With(C, k, LAMBDA S : IF S.st = "new" THEN Ob(Initialize(ms[k], S), "init", 0, <<1>>)
                                                              ELSE Ob(S, "init", 0, <<0>>))
      [] o.op = "rel"  -> With(C, k, Rel)
      [] o.op = "del"  -> With(C, k, LAMBDA S : [Rel(S) EXCEPT !.st = "gone"])
      [] o.op = "isup" -> With(C, k, LAMBDA S : Ob(S, "isup", 0, <<IF S.st = "up" THEN 1 ELSE 0>>))
      [] OTHER -> With(C, k, LAMBDA S : ClientOp(ms[k], S, o))

(* requests made to other machines by callbacks of k *)
Deliver(ms, C, k) ==
    FoldLeft(LAMBDA B, o : Own(ms, B, o.m, o), [C EXCEPT !.M[k].xp = <<>>], C.M[k].xp)

Do(ms, C, k, o) == Deliver(ms, Own(ms, C, k, o), k)
StepOf(ms, C, k) == Deliver(ms, With(C, k, LAMBDA S : Step(ms[k], S)), k)

(* an expired timer of machine k posts its event; single-shot ones are over *)
Fire(ms, C, id) ==
    LET ts == {t \in C.tm : t.id = id}
    IN  IF ts = {} THEN C
        ELSE LET t == CHOOSE x \in ts : TRUE
                 D == IF t.ss = 1 THEN [C EXCEPT !.tm = @ \ ts] ELSE C
             IN  With(D, t.m, LAMBDA S : ClientOp(ms[t.m], S, [op |-> "fire", e |-> id]))

Drain(C) == [C EXCEPT !.M = [k \in 1..Len(@) |-> TakeIrq(@[k])], !.stale = 0]

Busy(C) == {k \in 1..Len(C.M) : C.M[k].st = "up" /\ C.M[k].q # <<>>}
Idle(C) == Busy(C) = {} /\ \A k \in 1..Len(C.M) : C.M[k].irq = <<>>

(* everything one turn of the dispatcher may do: any number of events of any machines *)
RECURSIVE Reach(_, _, _, _)
Reach(ms, front, obs, n) ==
    LET next == {T \in UNION {{StepOf(ms, C, k) : k \in Busy(C)} : C \in front} : IsPrefix(T.out, obs)}
    IN  front \cup (IF next = {} \/ n = 0 THEN {} ELSE Reach(ms, next, obs, n - 1))

Turn(ms, C, obs) == {T \in Reach(ms, {Drain(C)}, obs, 60) : T.out = obs}

VARIABLES i, j, cands

After(r, C, o) ==
    CASE o.op = "d" -> IF o.had = 0 THEN (IF Idle(C) THEN {C} ELSE {}) ELSE Turn(r.ms, C, Project(o.obs))
      [] o.op = "fire" -> {Fire(r.ms, C, o.e)}
      [] OTHER -> {Do(r.ms, C, o.m, o)}

SameTimers(C, o) == What.tms => o.tms = {[id |-> t.id, iv |-> t.iv, ss |-> t.ss] : t \in C.tm}
Tms(o) == {o.tms[n] : n \in 1..Len(o.tms)}

Init == /\ i \in 1..Len(Runs)
        /\ j = 0
        /\ cands = {Boot(Runs[i])}

Next == /\ j < Len(Runs[i].ops)
        /\ j' = j + 1
        /\ i' = i
        /\ LET o == Runs[i].ops[j + 1]
           IN  cands' = {[T EXCEPT !.out = <<>>] :
                           T \in {T \in UNION {After(Runs[i], C, o) : C \in cands} :
                                     T.out = Project(o.obs) /\ SameTimers(T, [tms |-> Tms(o)])}}

Spec == Init /\ [][Next]_<<i, j, cands>>

Conform == cands # {}
Sane == \A C \in cands : \A k \in 1..Len(C.M) :
           /\ \A a, b \in 1..Len(C.M[k].act) : a # b => C.M[k].act[a] # C.M[k].act[b]
           /\ C.M[k].st = "up" => C.M[k].act # <<>>
           /\ \A t \in C.tm : C.M[t.m].st = "up"

Alias == [ run |-> Runs[i].id, op |-> j, cands |-> cands,
           next |-> IF j < Len(Runs[i].ops) THEN Runs[i].ops[j + 1] ELSE <<>>,
           expected |-> IF j < Len(Runs[i].ops)
                        THEN UNION {LET o == Runs[i].ops[j + 1]
                                    IN  IF o.op = "d" THEN {[o |-> T.out, t |-> T.tm] : T \in Reach(Runs[i].ms, {Drain(C)}, Project(o.obs), 3)}
                                        ELSE {[o |-> T.out, t |-> T.tm] : T \in After(Runs[i], C, o)} : C \in cands}
                        ELSE {} ]
=============================================================================
