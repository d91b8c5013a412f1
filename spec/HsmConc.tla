------------------------------- MODULE HsmConc ------------------------------
(***************************************************************************)
(* Concurrency contract: client threads, the timers and interrupts, and the *)
(* dispatcher's thread working on machines (Hsm) at the same time.          *)
(*                                                                          *)
(* A recorded execution is the sequence of its events in the order in which *)
(* they happened (one thread ran at a time):                                *)
(*   call/ret  a thread enters/leaves an API operation                      *)
(*   cb/ce     a callback of a machine begins/ends                          *)
(*   idle      all threads were blocked at virtual time now                 *)
(*   time      virtual time moved                                           *)
(* loop: the dispatcher (0 std, 1 GLib, 2 GLibmm, 3 Qt); timers of the last   *)
(* three expire in the dispatcher's own thread, those of Qt keep a grid.     *)
(* It is accepted if there is an assignment of a moment between call and    *)
(* ret to each operation at which it took effect, and of moments at which   *)
(* timers expired and interrupts were taken, which explains all callbacks   *)
(* and results.  cands holds all such explanations for the events read.     *)
(***************************************************************************)
EXTENDS Hsm, TLC, TLCExt, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
Slack == 5              \* ms a timer may be late although nothing else happens
IrqPoll == 1000         \* ms an accepted interrupt may wait although nothing else happens
Visible == {"en", "ex", "st", "tr", "hd", "fl"}
TimerObs == {"ts", "tp", "trs"}

(* Positions in the recorded execution: line n happens at 2n, silent moves between lines n and n+1 at 2n+1. *)
Never == 1000000
Limit == 2500           \* explanations considered at the same time; executions which need more are not judged any further

MState(m, env) == [S |-> [Fresh(m, env) EXCEPT !.rc = <<>>], exp |-> <<>>, hold |-> <<>>, busy |-> -1, dead |-> FALSE, start |-> -1]

(* bag   requests accepted (or being made) and not yet taken into processing.  The order of two of them is known only if   *)
(*       one was made (b) before the other was begun (a); ic, ir: the same for interrupts among themselves.               *)
(* occ   interrupts which may still occupy a place in the dispatcher's queue; full: how many certainly do                 *)
Boot(r) == [ M |-> [k \in 1..Len(r.ms) |-> MState(r.ms[k], r.envs[k])],
             pend |-> {}, bag |-> {}, occ |-> {}, full |-> 0, cb0 |-> 0, tm |-> {}, dt |-> -1, now |-> 0, grid |-> r.loop = 3 ]

(* what a computation of Hsm produced becomes the expected callbacks of machine k *)
Expect(C, k, T, old) ==
    LET seen == SelectSeq(T.out, LAMBDA o : o.k \in Visible \cup TimerObs)
    IN  [C EXCEPT !.M[k].S = [T EXCEPT !.out = <<>>, !.done = old],
                  !.M[k].exp = seen,
                  !.M[k].hold = SubSeq(T.done, Len(old) + 1, Len(T.done))]
(* a step (or the start-up, which runs on the thread `start`) is over *)
Merge(C, k) ==
    IF C.M[k].exp = <<>> /\ C.M[k].busy = -1
    THEN [C EXCEPT !.M[k].S.done = @ \o C.M[k].hold, !.M[k].hold = <<>>, !.M[k].start = -1] ELSE C

Up(C, k) == C.M[k].S.st = "up"
Idle(C, k) == C.M[k].exp = <<>> /\ C.M[k].busy = -1
Stepped(ms, C, k) == Expect(C, k, Step(ms[k], C.M[k].S), C.M[k].S.done)

(* Timers. A running timer is due from the moment (line due, time dnow) its time dl has come; its thread may be late.        *)
(* Its event is taken straight into processing, unless the order of the expiration and something else matters.          *)
TimerEvent(m, id) == LET te == TimerEvents(m, id) IN IF te = <<>> THEN 0 ELSE te[Len(te)].e
Expired(C, t) ==
    LET next == IF t.grid THEN t.dl + t.iv ELSE t.dnow + t.iv
    IN  (C.tm \ {t}) \cup (IF t.ss = 1 THEN {}
                          ELSE {[t EXCEPT !.dl = next, !.lat = C.now + t.iv, !.cnt = @ + 1,
                                          !.due = IF next <= C.now THEN @ ELSE 0, !.dnow = next]})
Expire(ms, C, t) ==
    LET e == TimerEvent(ms[t.m], t.id)
    IN  [C EXCEPT !.tm = Expired(C, t),
                  !.bag = @ \cup (IF e = 0 THEN {} ELSE {[m |-> t.m, n |-> -(t.id + 1000 * t.cnt), e |-> e, args |-> <<>>, tag |-> 0, a |-> t.due, b |-> Never,
                                                            irq |-> FALSE, ic |-> 0, ir |-> 0, at |-> C.now]})]
(* what may have happened to the timers id which are due *)
RECURSIVE Maybe(_, _, _)
Maybe(ms, C, ids) ==
    LET ts == {t \in C.tm : t.due # 0 /\ t.id \in ids}
    IN  {C} \cup UNION {Maybe(ms, Expire(ms, C, t), ids) : t \in ts}
PopTimer(ms, C, t) ==
    [C EXCEPT !.tm = Expired(C, t), !.M[t.m].S = Post(@, RegularEvent(TimerEvent(ms[t.m], t.id), <<>>, 0))]

(* which requests may be the next one of machine k *)
Poppable(C, k) ==
    {e \in C.bag : e.m = k /\ \A f \in C.bag : f.m = k => f.b >= e.a /\ (f.irq /\ e.irq => f.ir >= e.ic)}
Pop(C, k, e) ==
    [C EXCEPT !.bag = @ \ {e},
              !.M[k].S = Post(@, RegularEvent(e.e, e.args, e.tag)),
              !.pend = IF e.irq THEN {IF p.n = e.n THEN [p EXCEPT !.v = 1] ELSE p : p \in @} ELSE @,
              !.occ = IF e.irq THEN @ \ {e.n} ELSE @]
(* the beginnings of the next step of machine k *)
Steps(ms, C, k) ==
    IF ~Up(C, k) \/ (\E x \in 1..Len(C.M) : ~Idle(C, x) /\ (C.M[x].start = -1 \/ x = k)) THEN {}
    ELSE IF C.M[k].S.q # <<>> THEN {Stepped(ms, C, k)}
    ELSE {Stepped(ms, Pop(C, k, e), k) : e \in Poppable(C, k)}
         \cup {Stepped(ms, PopTimer(ms, C, t), k) : t \in {x \in C.tm : x.m = k /\ x.due # 0 /\ TimerEvent(ms[k], x.id) # 0
                                                                     /\ \A f \in C.bag : f.m = k => f.b >= x.due}}

InBag(p) == [m |-> p.m, n |-> p.n, e |-> p.e, args |-> IF p.op \in {"s", "sc"} THEN Tail(p.args) ELSE p.args, tag |-> p.tag,
             a |-> 2 * p.n, b |-> Never, irq |-> p.op = "irq", ic |-> 2 * p.n, ir |-> Never, at |-> p.t0]

(* operations take effect *)
TimerOp(C, k, kind, args) ==
    LET old == {t \in C.tm : t.id = args[1]}
        new(iv, ss) == [id |-> args[1], m |-> k, grid |-> C.grid, iv |-> iv, ss |-> ss, dl |-> C.now + iv, lat |-> C.now + iv, due |-> 0, dnow |-> 0, cnt |-> 0]
    IN  CASE kind = "ts" -> IF args[2] > 0 THEN [C EXCEPT !.tm = (@ \ old) \cup {new(args[2], args[3])}] ELSE C
          [] kind = "tp" -> [C EXCEPT !.tm = @ \ old]
          [] kind = "trs" -> [C EXCEPT !.tm = (@ \ old) \cup {[new(t.iv, t.ss) EXCEPT !.m = t.m, !.cnt = t.cnt] : t \in old}]
TimerOps(ms, C, k, kind, args) == {TimerOp(D, k, kind, args) : D \in Maybe(ms, C, {args[1]})}

(* while a release is in progress interrupts may still be accepted, and are dropped later *)
Releasing(C, k) == \E q \in C.pend : q.op = "rel" /\ q.m = k

Lazy(op) == op \in {"t", "s", "irq"}

(* requests which were dropped: nobody may wait for them *)
Failed(C, k, dropped) ==
    [C EXCEPT !.bag = @ \ dropped,
              !.M[k].S.done = @ \o SetToSeq({[tag |-> f.tag, ok |-> FALSE] : f \in {x \in dropped : x.tag # 0}})]

(* requests not ordered against the moment `at` happen after it *)
AfterAt(bag, k, at) == {IF f.m = k /\ f.b = Never /\ f.a <= at THEN [f EXCEPT !.a = at + 1] ELSE f : f \in bag}

(* events of final states: one which the step in progress queues may be queued only after the request was made *)
Cleared(C, k) ==
    LET q == C.M[k].S.q
        own == IF Idle(C, k) THEN {} ELSE {n \in 1..Len(q) : q[n].ty = "R"}
    IN  {[Clear(C.M[k].S) EXCEPT !.q = [x \in 1..Cardinality(keep) |-> q[SetToSortSeq(keep, <)[x]]]] :
            keep \in {{n \in 1..Len(q) : q[n].ty # "R"} \cup sub : sub \in SUBSET own}}

CancelIn(ms, C, p, at) ==
    LET k == p.m
        open == {f \in C.bag : f.m = k /\ f.b = Never}
        old  == {f \in C.bag : f.m = k /\ f.b # Never}
    IN  IF ~Up(C, k) THEN {[C EXCEPT !.pend = {IF q = p THEN [q EXCEPT !.lin = TRUE, !.out = TRUE] ELSE q : q \in @}]}
        ELSE {LET D == Failed([C EXCEPT !.M[k].S = S0], k, old \cup more)
              IN  [D EXCEPT !.bag = AfterAt(@, k, at) \cup {[InBag(p) EXCEPT !.a = at, !.b = at]},
                            !.pend = {IF q = p THEN [q EXCEPT !.lin = TRUE] ELSE q : q \in @}] : more \in SUBSET open, S0 \in Cleared(C, k)}

(* the step in progress isn't cancelled, even if none of its callbacks was called yet *)
Cancel(ms, C, p, at) ==
    UNION {CancelIn(ms, D, p, at) : D \in UNION {{E} \cup Steps(ms, E, p.m) : E \in Maybe(ms, C, {t.id : t \in {x \in C.tm : x.m = p.m}})}}

(* initialisation: requests made at the same time come before it (and are ignored) or after it *)
Start(ms, C, p) ==
    LET k == p.m
        D == [C EXCEPT !.pend = {IF q = p THEN [q EXCEPT !.lin = TRUE, !.v = 1] ELSE q : q \in @}]
        E == Merge([Expect(D, k, Initialize(ms[k], D.M[k].S), D.M[k].S.done) EXCEPT !.M[k].start = p.t], k)
        others == {q \in C.pend : q.m = k /\ Lazy(q.op) /\ q.out}
    IN  {[E EXCEPT !.pend = (@ \ inn) \cup {[q EXCEPT !.out = FALSE] : q \in inn}, !.bag = @ \cup {InBag(q) : q \in inn}] : inn \in SUBSET others}

Finish(C, p) ==
    LET k == p.m
    IN  IF Up(C, k)
        THEN [C EXCEPT !.M[k].S = Release(@), !.tm = {t \in @ : t.m # k}, !.bag = {f \in @ : f.m # k},
                       !.pend = {IF q.m = k THEN [q EXCEPT !.out = TRUE, !.free = TRUE] ELSE q : q \in @ \ {p}} \cup {[p EXCEPT !.lin = TRUE, !.v = 1]}]
        ELSE [C EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.lin = TRUE, !.v = 1]}]

Effects(ms, C, p, at) ==
    LET k == p.m
        Done(D, v) == [D EXCEPT !.pend = (@ \ {p}) \cup {[p EXCEPT !.lin = TRUE, !.v = v]}]
    IN  CASE p.op \in {"tc", "sc"} -> Cancel(ms, C, p, at)
          [] p.op = "ts" -> {Done(D, 1) : D \in IF Up(C, k) THEN TimerOps(ms, C, k, "ts", p.args) ELSE {C}}
          [] p.op = "tp" -> {Done(D, 1) : D \in IF Up(C, k) THEN TimerOps(ms, C, k, "tp", p.args) ELSE {C}}
          [] p.op = "tr" -> {Done(D, 1) : D \in IF Up(C, k) THEN TimerOps(ms, C, k, "trs", p.args) ELSE {C}}
          [] p.op = "tq" -> {Done(D, IF Up(C, k) /\ \E t \in D.tm : t.id = p.args[1] THEN 1 ELSE 0) :
                                D \in IF \E t \in C.tm : t.id = p.args[1] /\ t.ss = 1 THEN Maybe(ms, C, {p.args[1]}) ELSE {C}}
          [] p.op = "init" -> IF C.M[k].S.st = "new" THEN Start(ms, C, p) ELSE {Done(C, 0)}
          \* a step which has begun is finished (release waits for it)
          [] p.op = "rel" -> {Finish(D, p) : D \in {C} \cup Steps(ms, C, k)}

(* everything that can happen without being seen *)
Silent(ms, C, at) ==
    UNION {Effects(ms, C, p, at) : p \in {x \in C.pend : ~x.lin}}
    \cup UNION {{Merge(D, k) : D \in {x \in Steps(ms, C, k) : x.M[k].exp = <<>>}} : k \in 1..Len(C.M)}
    \cup UNION {{Merge(D, k) : D \in TimerOps(ms, [C EXCEPT !.M[k].exp = Tail(@)], k, C.M[k].exp[1].k, C.M[k].exp[1].args)} :
            k \in {x \in 1..Len(C.M) : C.M[x].busy = -1 /\ C.M[x].exp # <<>> /\ C.M[x].exp[1].k \in TimerObs}}

RECURSIVE Close(_, _, _, _)
Close(ms, all, front, at) ==
    LET new == UNION {Silent(ms, C, at) : C \in front} \ all
    IN  IF new = {} \/ Cardinality(all) > Limit THEN all ELSE Close(ms, all \cup new, new, at)

(* an operation begins *)
Call(ms, C, l, n) ==
    LET up == Up(C, l.m)
        irq == l.op = "irq"
        occ == IF irq THEN C.occ \cup {n} ELSE C.occ
        p == [t |-> l.t, n |-> n, m |-> l.m, op |-> l.op, e |-> l.e, tag |-> l.tag, args |-> l.args, lin |-> Lazy(l.op), v |-> -1, t0 |-> C.now,
              out |-> ~up, free |-> Releasing(C, l.m), no |-> FALSE, yes |-> ~(C.cb0 # 0 /\ C.full >= ms[1].cap)]
    IN  [C EXCEPT !.pend = {IF q.op = "irq" /\ Cardinality(occ \ {q.n}) >= ms[1].cap THEN [q EXCEPT !.no = TRUE] ELSE q : q \in @ \cup {p}},
                  !.bag = IF Lazy(l.op) /\ up THEN @ \cup {InBag(p)} ELSE @,
                  !.occ = occ]

(* a callback begins *)
SameCb(o, l) == o.k = l.k /\ o.s = l.s /\ o.args = l.args /\ o.act = l.act
Begin(ms, C, l, n) ==
    LET k == l.m
        ok(D) == /\ D.M[k].exp # <<>> /\ SameCb(D.M[k].exp[1], l)
                 /\ D.M[k].start \in {-1, l.t}
                 /\ D.M[k].start = -1 => C.dt \in {-1, l.t}
    IN  IF C.M[k].busy # -1 \/ C.M[k].dead THEN {}
        ELSE {[D EXCEPT !.M[k].exp = Tail(@), !.M[k].busy = l.t, !.dt = IF D.M[k].start = -1 THEN l.t ELSE @,
                        !.cb0 = IF D.M[k].start = -1 THEN n ELSE @] : D \in {x \in (IF C.M[k].exp = <<>> THEN Steps(ms, C, k) ELSE {C}) : ok(x)}}

End(C, l) ==
    IF C.M[l.m].busy # l.t THEN {}
    ELSE LET D == Merge([C EXCEPT !.M[l.m].busy = -1], l.m)
         IN  {IF C.M[l.m].start # -1 THEN D ELSE [D EXCEPT !.cb0 = 0, !.full = 0, !.pend = {[q EXCEPT !.yes = TRUE] : q \in @}]}

(* an operation returns *)
DoneWith(C, k, tag, ok) == \E n \in 1..Len(C.M[k].S.done) : C.M[k].S.done[n] = [tag |-> tag, ok |-> ok]
HeldFor(C, k, tag) == \E n \in 1..Len(C.M[k].hold) : C.M[k].hold[n].tag = tag
SyncRet(C, p, v) ==
    \/ DoneWith(C, p.m, p.tag, v = 1)
    \/ v = 0 /\ p.args[1] > 0 /\ C.now >= p.t0 + p.args[1]
    \/ v = 0 /\ p.out
    \/ v = 0 /\ ~Up(C, p.m) /\ HeldFor(C, p.m, p.tag)

IrqRet(C, D, p, l, n) ==
    LET mine == {f \in C.bag : f.n = p.n}
    IN  IF l.v = 1
        THEN IF p.out THEN IF p.free THEN {D} ELSE {}
             ELSE IF ~p.yes THEN {}
             ELSE {[D EXCEPT !.bag = (@ \ mine) \cup {[f EXCEPT !.ir = 2 * n] : f \in mine},
                             !.full = IF C.cb0 # 0 /\ p.n > C.cb0 THEN @ + 1 ELSE @]}
        ELSE IF p.out THEN {[D EXCEPT !.occ = @ \ {p.n}]}
             ELSE IF mine # {} /\ p.no THEN {[D EXCEPT !.bag = @ \ mine, !.occ = @ \ {p.n}]}
             ELSE {}

Return(C, l, n) ==
    LET ps == {p \in C.pend : p.t = l.t /\ \A q \in C.pend : q.t = l.t => q.n <= p.n}
        p == CHOOSE x \in ps : TRUE
        k == p.m
        D == [C EXCEPT !.pend = @ \ {p}]
        E == [D EXCEPT !.bag = {IF f.n = p.n /\ f.b = Never THEN [f EXCEPT !.b = 2 * n] ELSE f : f \in @}]
    IN  IF ps = {} \/ ~p.lin THEN {}
        ELSE CASE p.op = "t" -> {E}
               [] p.op \in {"s", "sc"} -> IF SyncRet(C, p, l.v)
                                          THEN {[E EXCEPT !.M[k].S.done = SelectSeq(@, LAMBDA d : d.tag # p.tag)]} ELSE {}
               [] p.op = "irq" -> IrqRet(C, D, p, l, n)
               [] p.op = "tq" -> IF l.v = p.v THEN {D} ELSE {}
               [] p.op = "init" -> IF l.v = p.v /\ C.M[k].start # l.t
                                   THEN {D} ELSE {}
               [] p.op = "rel" -> IF C.M[k].busy = l.t THEN {D}
                                  ELSE IF C.M[k].busy # -1 THEN {}
                                  ELSE IF C.M[k].S.st # "released" THEN {D}
                                  ELSE {[D EXCEPT !.M[k].dead = TRUE, !.M[k].exp = <<>>]}
               [] OTHER -> {D}

(* all threads are blocked: nothing may be left to do *)
Quiet(ms, C) ==
    \/ \E k \in 1..Len(C.M) : C.M[k].busy # -1       \* a callback takes its time
    \/ /\ C.pend = {}
       /\ \A k \in 1..Len(C.M) : ~Up(C, k) \/ (C.M[k].exp = <<>> /\ C.M[k].S.q = <<>>)
       /\ \A f \in C.bag : f.irq /\ C.now - f.at <= IrqPoll
       /\ \A t \in C.tm : TimerEvent(ms[t.m], t.id) = 0 \/ t.lat + Slack > C.now

VARIABLES i, j, cands

After(ms, C, l, n) ==
    CASE l.l = "call" -> {Call(ms, C, l, n)}
      [] l.l = "ret"  -> Return(C, l, n)
      [] l.l = "cb"   -> Begin(ms, C, l, n)
      [] l.l = "ce"   -> End(C, l)
      [] l.l = "idle" -> IF Quiet(ms, C)
                          THEN {[C EXCEPT !.tm = {t \in @ : ~(TimerEvent(ms[t.m], t.id) = 0 /\ t.ss = 1 /\ t.lat + Slack <= C.now)}]} ELSE {}
      [] l.l = "time" -> {[C EXCEPT !.now = l.now,   \* being late counts only while there was nothing else to do
                                    !.tm = {LET u == IF Runs[i].tr[n - 1].l = "idle" /\ ~(Runs[i].loop > 0 /\ \E k \in 1..Len(C.M) : C.M[k].busy # -1) THEN t ELSE [t EXCEPT !.lat = @ + l.now - C.now]
                                            IN  IF u.due = 0 /\ u.dl <= l.now THEN [u EXCEPT !.due = 2 * n, !.dnow = l.now] ELSE u : t \in @}]}

Init == /\ i \in 1..Len(Runs)
        /\ j = 0
        /\ cands = {Boot(Runs[i])}

Next == /\ j < Len(Runs[i].tr)
        /\ i' = i
        /\ LET ms == Runs[i].ms
               l == Runs[i].tr[j + 1]
               all == IF l.l \in {"call", "ce"} THEN cands ELSE Close(ms, cands, cands, 2 * j + 1)
           IN  IF Cardinality(all) > Limit
               THEN j' = Len(Runs[i].tr) /\ cands' = cands /\ PrintT(<<"gave up", Runs[i].id, j>>)
               ELSE j' = j + 1 /\ cands' = UNION {After(ms, C, l, j + 1) : C \in all}

Spec == Init /\ [][Next]_<<i, j, cands>>

Conform == cands # {}

Alias == [ run |-> Runs[i].id, line |-> j, cands |-> cands,
           next |-> IF j < Len(Runs[i].tr) THEN Runs[i].tr[j + 1] ELSE <<>> ]
=============================================================================
