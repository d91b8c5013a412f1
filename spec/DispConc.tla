------------------------------- MODULE DispConc ------------------------------
(***************************************************************************)
(* Contract of an event dispatcher used from several threads: handlers for *)
(* emitted events (ev), for interrupt-safe events (enq) and for timers      *)
(* (tm), actions (act), and stopping.  It is stated for the recorded order  *)
(* of calls (call/ret) and of handler executions (run/end) of an execution; *)
(* idle: all threads were blocked at virtual time now; time: it moved.      *)
(*                                                                          *)
(* loop: 0 for the std dispatcher, which has a thread for timers of its own; *)
(* 1 (GLib), 2 (GLibmm), 3 (Qt): one thread runs the loop of a framework.    *)
(* Handlers are identified by slots s; every registration uses a new one.   *)
(* cands: all explanations of what was read so far, see HsmConc.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Slack == 5              \* ms a timer may be late although nothing else happens
IrqPoll == 1000         \* ms an accepted interrupt-safe event may wait although nothing else happens
Never == 1000000
Limit == 2500

(* bag: what was handed over and isn't taken yet; order known as in HsmConc (a, b).  skip: may be dropped.               *)
(* curD/curT: taken, but its handler wasn't entered yet; busyD/busyT: being handled                                      *)
(* ex: executions <<begin, end>> of handlers on the dispatcher                                                          *)
Boot(r) == [ H |-> [s \in 1..r.slots |-> "new"], ids |-> {}, st |-> "new", bag |-> {}, pend |-> {}, occ |-> {}, full |-> 0, cb0 |-> 0,
             tm |-> {}, curD |-> <<>>, curT |-> <<>>, busyD |-> <<>>, busyT |-> <<>>, dt |-> -1, tt |-> -1, late |-> {}, ex |-> <<>>, now |-> 0 ]

Poppable(C) == {e \in C.bag : \A f \in C.bag : f.k = e.k /\ ~f.skip => f.b >= e.a}
Take(C, e) ==
    [C EXCEPT !.bag = @ \ {e},
              !.pend = IF e.k = "enq" THEN {IF p.n = e.n THEN [p EXCEPT !.v = 1] ELSE p : p \in @} ELSE @,
              !.occ = IF e.k = "enq" THEN @ \ {e.n} ELSE @]
(* the dispatcher may already have taken something of which the handler is entered later *)
Ahead(r, C, cond(_)) ==
    {C} \cup (IF C.curD = <<>> /\ C.busyD = <<>> /\ (r.loop = 0 \/ (C.curT = <<>> /\ C.busyT = <<>>))
              THEN {[Take(C, e) EXCEPT !.curD = <<e>>] : e \in {x \in Poppable(C) : cond(x)}} ELSE {})

---------------------------------------------------------------------------
(* timers *)
Expired(C, t) ==
    LET next == IF t.grid THEN t.dl + t.iv ELSE t.dnow + t.iv
    IN  (C.tm \ {t}) \cup (IF t.ss = 1 THEN {}
                          ELSE {[t EXCEPT !.dl = next, !.lat = C.now + t.iv, !.due = IF next <= C.now THEN @ ELSE 0, !.dnow = next]})
(* a timer among ids may have expired, its handler not being entered yet *)
AheadT(r, C, ids) ==
    {C} \cup (IF C.curT = <<>> /\ C.busyT = <<>> /\ C.st = "up" /\ (r.loop = 0 \/ (C.curD = <<>> /\ C.busyD = <<>>))
              THEN {[C EXCEPT !.tm = Expired(C, t), !.curT = <<[id |-> t.id, s |-> t.s]>>] : t \in {x \in C.tm : x.due # 0 /\ x.id \in ids}}
              ELSE {})
NewTimer(r, C, id, s, iv, ss) == [id |-> id, s |-> s, iv |-> iv, ss |-> ss, grid |-> r.loop = 3, dl |-> C.now + iv, lat |-> C.now + iv, due |-> 0, dnow |-> 0]

---------------------------------------------------------------------------
(* Operations which take effect at a moment of their own.  An unregistration drops what is pending for the handler and     *)
(* then forgets the handler: until it returned events for the handler may be lost one by one.                            *)
Lazy(op) == op \in {"reg", "em", "enq", "act", "join"}
KindOf(op) == IF op = "em" THEN "ev" ELSE op

Unregister(r, C, p) ==
    LET s == p.s
        gone(D) == [D EXCEPT !.H[s] = "off", !.bag = {e \in @ : e.s # s}, !.tm = {t \in @ : t.s # s}]
    IN  IF r.kinds[s] = "tm" THEN {gone(D) : D \in AheadT(r, C, {t.id : t \in {x \in C.tm : x.s = s}})}
        ELSE {gone(D) : D \in Ahead(r, C, LAMBDA e : e.s = s)}

Stop(r, C) ==
    IF C.st # "up" THEN {C}
    ELSE {[D EXCEPT !.st = "stopped", !.bag = {[e EXCEPT !.skip = TRUE, !.old = TRUE] : e \in {x \in @ : x.k # "ev"}},
                    !.H = [s \in DOMAIN @ |-> IF r.kinds[s] # "ev" /\ @[s] \in {"on", "stale"} THEN "stale" ELSE "off"],
                    !.pend = {IF q.op = "reg" THEN [q EXCEPT !.v = 0] ELSE q : q \in @},
                    !.tm = IF r.loop > 0 THEN {} ELSE @] :
            D \in UNION {AheadT(r, E, {t.id : t \in E.tm}) : E \in Ahead(r, C, LAMBDA e : TRUE)}}

Effects(r, C, p) ==
    LET Done(D, v) == [D EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.lin = TRUE, !.v = v]}]
        old(D) == {t \in D.tm : t.id = p.a[1]}
    IN  CASE p.op = "unreg" -> {Done(D, 1) : D \in Unregister(r, C, p)}
          [] p.op = "ts" -> IF p.a[2] = 0 \/ C.H[p.s] # "on" THEN {Done([C EXCEPT !.late = IF C.H[p.s] = "stale" THEN @ \cup {p.a[1]} ELSE @], 1)}
                            ELSE {Done([D EXCEPT !.tm = (@ \ old(D)) \cup {NewTimer(r, D, p.a[1], p.s, p.a[2], p.a[3])}], 1) : D \in AheadT(r, C, {p.a[1]})}
          [] p.op = "tp" -> {Done([D EXCEPT !.tm = @ \ old(D)], 1) : D \in AheadT(r, C, {p.a[1]})}
          [] p.op = "tr" -> {Done([D EXCEPT !.late = IF C.st = "up" THEN @ ELSE @ \cup {p.a[1]}, !.tm = (@ \ old(D)) \cup {NewTimer(r, D, t.id, t.s, t.iv, t.ss) : t \in old(D)}], 1) : D \in AheadT(r, C, {p.a[1]})}
          [] p.op = "tq" -> {Done(D, IF old(D) # {} THEN 1 ELSE 0) : D \in AheadT(r, C, {p.a[1]})}
          [] p.op = "stop" -> {Done(D, 1) : D \in Stop(r, C)}
          [] p.op = "start" -> {Done([C EXCEPT !.st = IF @ \in {"new", "dead"} \/ r.loop > 0 THEN "up" ELSE @], 1)}

Silent(r, C) == UNION {Effects(r, C, p) : p \in {x \in C.pend : ~x.lin}}

RECURSIVE Close(_, _, _)
Close(r, all, front) ==
    LET new == UNION {Silent(r, C) : C \in front} \ all
    IN  IF new = {} \/ Cardinality(all) > Limit THEN all ELSE Close(r, all \cup new, new)

---------------------------------------------------------------------------
(* stopping takes its time: what is handed over and which timers are started meanwhile may get lost, or not *)
Stopping(C) == \E q \in C.pend : q.op = "stop"

Call(r, C, l, n) ==
    LET enq == l.op = "enq"
        occ == IF enq THEN C.occ \cup {n} ELSE C.occ
        p == [t |-> l.t, n |-> n, op |-> l.op, s |-> l.s, a |-> l.a, lin |-> Lazy(l.op), v |-> -1, t0 |-> C.now, no |-> FALSE,
              yes |-> ~(C.cb0 # 0 /\ C.full >= r.cap)]
        entry == [k |-> KindOf(l.op), s |-> l.s, x |-> IF l.op = "em" THEN 0 ELSE l.a[1], n |-> n, a |-> 2 * n, b |-> Never, at |-> C.now,
                  old |-> C.st # "up" \/ Stopping(C), skip |-> C.st # "up" \/ Stopping(C) \/ (l.op # "act" /\ (C.H[l.s] = "stale" \/ \E q \in C.pend : q.op = "unreg" /\ q.s = l.s))]
        alive == l.op = "act" \/ (C.H[l.s] = "on" /\ C.st \in {"new", "up"}) \/ (l.op \in {"em", "enq"} /\ C.H[l.s] = "stale")
    IN  [C EXCEPT !.pend = {IF q.op = "enq" /\ Cardinality(occ \ {q.n}) >= r.cap THEN [q EXCEPT !.no = TRUE] ELSE q : q \in @ \cup {p}},
                  !.bag = IF l.op \in {"em", "enq", "act"} /\ alive THEN @ \cup {entry}
                          ELSE IF l.op = "unreg" THEN {IF e.s = l.s THEN [e EXCEPT !.skip = TRUE] ELSE e : e \in @} ELSE @,
                  !.late = @ \cup IF l.op = "stop" THEN {q.a[1] : q \in {x \in C.pend : x.op \in {"ts", "tr"}}}
                                  ELSE IF l.op \in {"ts", "tr"} /\ Stopping(C) THEN {l.a[1]} ELSE {},
                  !.occ = occ]

Begin(r, C, l, n) ==
    IF l.k = "tm"
    THEN IF C.busyT # <<>> \/ C.tt \notin {-1, l.t} \/ C.st = "dead"
            \/ (IF r.loop > 0 THEN C.dt \notin {-1, l.t} \/ C.busyD # <<>> \/ C.curD # <<>> ELSE C.dt = l.t) THEN {}
         ELSE IF C.curT # <<>> THEN IF C.curT[1] = [id |-> l.x, s |-> l.s] THEN {[C EXCEPT !.curT = <<>>, !.busyT = <<l.s>>, !.tt = l.t]} ELSE {}
         ELSE {[C EXCEPT !.tm = Expired(C, t), !.busyT = <<l.s>>, !.tt = l.t] :
                 t \in {x \in C.tm : x.due # 0 /\ x.id = l.x /\ x.s = l.s /\ C.st = "up"}}
              \cup (IF l.x \in C.late THEN {[C EXCEPT !.busyT = <<l.s>>, !.tt = l.t]} ELSE {})
    ELSE IF C.busyD # <<>> \/ C.dt \notin {-1, l.t} \/ C.st \in {"new", "dead"}
            \/ (IF r.loop > 0 THEN C.tt \notin {-1, l.t} \/ C.busyT # <<>> \/ C.curT # <<>> ELSE C.tt = l.t) THEN {}
         ELSE LET enter(D, e) == [D EXCEPT !.curD = <<>>, !.busyD = <<e>>, !.dt = l.t, !.cb0 = n]
                  same(e) == e.k = l.k /\ e.s = l.s /\ e.x = l.x
              IN  IF C.curD # <<>> THEN IF same(C.curD[1]) THEN {enter(C, C.curD[1])} ELSE {}
                  ELSE {enter(Take(C, e), e) : e \in {x \in Poppable(C) : same(x)}}

(* a handler which reports itself invalid isn't called for the rest of the batch: what was handed over before the batch was  *)
(* surely is part of it, what was handed over since may be *)
LastEnd(C, e) == LET xs == {x \in {C.ex[n] : n \in 1..Len(C.ex)} : x[1] < e.a} IN IF xs = {} THEN 0 ELSE CHOOSE m \in {x[2] : x \in xs} : \A x \in xs : x[2] <= m
Invalid(C, e) ==
    LET mine == {f \in C.bag : f.k = e.k /\ f.s = e.s}
        sure == {f \in mine : f.b < LastEnd(C, e)}
    IN  [C EXCEPT !.bag = (@ \ mine) \cup {[f EXCEPT !.skip = TRUE] : f \in mine \ sure}]

End(C, l, n) ==
    IF l.k = "tm" THEN IF C.busyT = <<>> \/ C.tt # l.t THEN {} ELSE {[C EXCEPT !.busyT = <<>>]}
    ELSE IF C.busyD = <<>> \/ C.dt # l.t THEN {}
    ELSE LET e == C.busyD[1]
             D == [C EXCEPT !.busyD = <<>>, !.cb0 = 0, !.full = 0, !.pend = {[q EXCEPT !.yes = TRUE] : q \in @},
                            !.ex = Append(IF Len(@) > 5 THEN Tail(@) ELSE @, <<2 * C.cb0, 2 * n>>)]
         IN  {IF l.v = 0 /\ e.k \in {"ev", "enq"} THEN Invalid(D, e) ELSE D}

Return(r, C, l, n) ==
    LET ps == {p \in C.pend : p.t = l.t /\ \A q \in C.pend : q.t = l.t => q.n <= p.n}
        p == CHOOSE x \in ps : TRUE
        D == [C EXCEPT !.pend = @ \ {p}, !.bag = {IF f.n = p.n THEN [f EXCEPT !.b = 2 * n] ELSE f : f \in @}]
        mine == {f \in C.bag : f.n = p.n}
    IN  IF ps = {} \/ ~p.lin THEN {}
        ELSE CASE p.op = "reg" -> IF l.v # 0 /\ l.v \notin C.ids THEN {[D EXCEPT !.ids = @ \cup {l.v}, !.H[p.s] = IF p.v = 0 \/ C.st \in {"stopped", "dead"} THEN "stale" ELSE "on"]} ELSE {}
               [] p.op = "enq" -> IF l.v = 1
                                  THEN IF p.yes THEN {[D EXCEPT !.full = IF C.cb0 # 0 /\ p.n > C.cb0 THEN @ + 1 ELSE @]} ELSE {}
                                  ELSE IF p.no /\ p.v # 1 THEN {[D EXCEPT !.bag = {f \in @ : f.n # p.n}, !.occ = @ \ {p.n}]} ELSE {}
               [] p.op = "tq" -> IF l.v = p.v \/ C.st \in {"stopped", "dead"} THEN {D} ELSE {}
               [] p.op = "join" -> IF C.busyD = <<>> /\ C.busyT = <<>> THEN {[D EXCEPT !.st = "dead", !.bag = {[f EXCEPT !.skip = TRUE] : f \in {g \in @ : g.k # "ev"}}, !.curD = <<>>, !.curT = <<>>, !.dt = -1, !.tt = -1]} ELSE {}
               [] OTHER -> {D}

(* all threads are blocked: nothing may be left to do *)
Quiet(r, C) ==
    /\ \A p \in C.pend : p.op = "join" /\ (C.busyD # <<>> \/ C.busyT # <<>>)
    /\ \/ C.busyD # <<>> \/ (r.loop > 0 /\ C.busyT # <<>>)
       \/ C.curD = <<>> /\ \A f \in C.bag : f.skip \/ (f.k = "enq" /\ C.now - f.at <= IrqPoll)
    /\ \/ C.busyT # <<>> \/ C.st # "up" \/ (r.loop > 0 /\ C.busyD # <<>>)
       \/ C.curT = <<>> /\ \A t \in C.tm : t.lat + Slack > C.now

(* interrupt-safe events which nobody handles leave the queue at the latest now; what was handed over while a dispatcher with *)
(* a loop was stopped may come out much later *)
Settle(r, C) == IF C.busyD = <<>> /\ C.st = "up" THEN [C EXCEPT !.bag = {f \in @ : ~f.skip \/ (r.loop > 0 /\ f.old)}] ELSE C

VARIABLES i, j, cands

After(r, C, l, n) ==
    CASE l.l = "call" -> {Call(r, C, l, n)}
      [] l.l = "ret"  -> Return(r, C, l, n)
      [] l.l = "run"  -> Begin(r, C, l, n)
      [] l.l = "end"  -> End(C, l, n)
      [] l.l = "idle" -> IF Quiet(r, C) THEN {Settle(r, C)} ELSE {}
      [] l.l = "time" -> {[C EXCEPT !.now = l.now,
                                    !.tm = {LET u == IF r.tr[n - 1].l = "idle" /\ ~(r.loop = 3 /\ (C.busyD # <<>> \/ C.busyT # <<>>)) THEN t ELSE [t EXCEPT !.lat = @ + l.now - C.now]
                                            IN  IF u.due = 0 /\ u.dl <= l.now THEN [u EXCEPT !.due = 2 * n, !.dnow = l.now] ELSE u : t \in @}]}

Init == /\ i \in 1..Len(Runs)
        /\ j = 0
        /\ cands = {Boot(Runs[i])}

Next == /\ j < Len(Runs[i].tr)
        /\ i' = i
        /\ LET r == Runs[i]
               l == r.tr[j + 1]
               all == IF l.l \in {"call", "end"} THEN cands ELSE Close(r, cands, cands)
           IN  IF Cardinality(all) > Limit
               THEN j' = Len(r.tr) /\ cands' = cands /\ PrintT(<<"gave up", r.id, j>>)
               ELSE j' = j + 1 /\ cands' = UNION {After(r, C, l, j + 1) : C \in all}

Spec == Init /\ [][Next]_<<i, j, cands>>

Conform == cands # {}

Alias == [ run |-> Runs[i].id, line |-> j, cands |-> cands,
           next |-> IF j < Len(Runs[i].tr) THEN Runs[i].tr[j + 1] ELSE <<>> ]
=============================================================================
