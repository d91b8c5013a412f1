-------------------------------- MODULE Hsm --------------------------------
(***************************************************************************)
(* Reference semantics of the hsmcpp state machine engine.                  *)
(*                                                                          *)
(* Everything is an operator over a machine description m (a record, data)  *)
(* and an engine state S (a record).  API calls, dispatcher turns and       *)
(* callbacks are functions S -> S; the observable effects of a step are     *)
(* appended to S.out.  The modules HsmMC (exhaustive exploration of small   *)
(* machines) and HsmTrace (validation of runs recorded from the real code)  *)
(* use these operators; nothing here is specific to either.                 *)
(*                                                                          *)
(* States and events are numbers from 1; 0 means "none".                    *)
(*   m.n        number of states          m.init     initial state          *)
(*   m.parent   <<parent or 0>>           m.entries  <<<<[to,ev,c,x]>>>>    *)
(*   m.trans    <<[f,e,t,int,c,x,cb]>>    in order of registration          *)
(*   m.fin      <<-1 | 0 | event>>        -1: not a final state             *)
(*   m.ht       <<0 none|1 shallow|2 deep>>  m.hdef, m.hpar, m.hcb          *)
(*   m.acts     <<[s,tr,a,args]>>         tr "en"/"ex"                      *)
(*   m.cb       <<[en,ex,st]>>            which callbacks exist             *)
(*   m.tm       <<[id,e]>>                timers                            *)
(*   m.ca       <<BOOLEAN>>               condition depends on arguments?   *)
(*   m.react    <<[k,s,n,ops]>>           what callbacks do                 *)
(*   m.fcb      BOOLEAN                   failed-transition callback set?   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

---------------------------------------------------------------------------
(* Structure *)

RECURSIVE IsSub(_, _, _)
IsSub(m, p, c) ==       \* c is a proper descendant of p
    LET q == m.parent[c] IN q # 0 /\ (q = p \/ IsSub(m, p, q))

HasSubstates(m, s) == \E c \in 1..m.n : m.parent[c] = s

RECURSIVE Ancestors(_, _)
Ancestors(m, s) ==      \* proper ancestors, innermost first
    IF m.parent[s] = 0 THEN <<>> ELSE <<m.parent[s]>> \o Ancestors(m, m.parent[s])

Has(seq, x) == \E i \in 1..Len(seq) : seq[i] = x
Without(seq, x) == SelectSeq(seq, LAMBDA y : y # x)
Rev(seq) == [i \in 1..Len(seq) |-> seq[Len(seq) + 1 - i]]

---------------------------------------------------------------------------
(* Conditions, entry points, enabled transitions *)

CondValue(m, S, c, args) ==
    IF m.ca[c] THEN Len(args) > 0 /\ args[1] % 2 = 1 ELSE S.env.cond[c]

CondOk(m, S, c, x, args) == c = 0 \/ CondValue(m, S, c, args) = x

EntryPoints(m, S, s, e, args) ==
    LET es == SelectSeq(m.entries[s],
                        LAMBDA en : (en.ev = 0 \/ en.ev = e) /\ CondOk(m, S, en.c, en.x, args))
    IN  [i \in 1..Len(es) |-> es[i].to]

(* Can the substate chain below the states in lst be entered? *)
RECURSIVE Enterable(_, _, _, _, _)
Enterable(m, S, e, args, lst) ==
    IF lst = <<>> THEN FALSE
    ELSE IF ~HasSubstates(m, Head(lst)) THEN TRUE
    ELSE LET ep == EntryPoints(m, S, Head(lst), e, args)
         IN  ep # <<>> /\ Enterable(m, S, e, args, Tail(lst) \o ep)

Registered(m, s, e) == SelectSeq(m.trans, LAMBDA t : t.f = s /\ t.e = e)

Enabled(m, S, s, e, args) ==
    SelectSeq(m.trans, LAMBDA t : /\ t.f = s /\ t.e = e
                                  /\ CondOk(m, S, t.c, t.x, args)
                                  /\ Enterable(m, S, e, args, <<t.t>>))

(* nearest level, from s upwards, which has any transition for e *)
RECURSIVE EnabledUp(_, _, _, _, _)
EnabledUp(m, S, s, e, args) ==
    IF Registered(m, s, e) # <<>> THEN Enabled(m, S, s, e, args)
    ELSE IF m.parent[s] = 0 THEN <<>>
    ELSE EnabledUp(m, S, m.parent[s], e, args)

RECURSIVE PossibleFrom(_, _, _, _, _, _)
PossibleFrom(m, S, s, queued, e, args) ==
    IF queued = <<>> THEN EnabledUp(m, S, s, e, args) # <<>>
    ELSE LET en == EnabledUp(m, S, s, Head(queued).id, args)
         IN  en # <<>> /\ PossibleFrom(m, S, en[1].t, Tail(queued), e, args)

Possible(m, S, e, args) == \E i \in 1..Len(S.act) : PossibleFrom(m, S, S.act[i], S.q, e, args)

---------------------------------------------------------------------------
(* Engine state *)

NoEvent == [ty |-> "R", id |-> 0, args |-> <<>>, tag |-> 0, forced |-> <<>>, ign |-> FALSE]
RegularEvent(e, args, tag) == [NoEvent EXCEPT !.id = e, !.args = args, !.tag = tag]

Fresh(m, env) ==
    [ act  |-> <<>>,                             \* active states, in order of activation
      q    |-> <<>>,                             \* pending events
      h    |-> [s \in 1..m.n |-> <<>>],          \* states stored per history state
      em   |-> FALSE,                            \* a dispatcher turn is due
      st   |-> "new",                            \* "new", "up", "released"
      irq  |-> <<>>,                             \* accepted interrupt-safe events
      oth  |-> 0,                                \* places in the dispatcher's queue taken by others
      xp   |-> <<>>,                             \* requests made to other machines by callbacks
      env  |-> env,                              \* [cond, bx, be]: condition values, refusing states
      rc   |-> [i \in 1..Len(m.react) |-> m.react[i].n],
      done |-> <<>>,                             \* outcome of tagged (synchronous) requests
      out  |-> <<>> ]

Ob(S, k, s, args) == [S EXCEPT !.out = Append(@, [k |-> k, s |-> s, args |-> args, act |-> S.act])]

Post(S, ev) == [S EXCEPT !.q = Append(@, ev), !.em = TRUE]
PostFront(S, ev) == [S EXCEPT !.q = <<ev>> \o @]
(* final-state events wait for the steps of the transition in progress, but for nothing else *)
PostFinal(S, ev) ==
    LET n == CHOOSE k \in 0..Len(S.q) : /\ \A i \in 1..k : S.q[i].ty # "R"
                                        /\ k < Len(S.q) => S.q[k + 1].ty = "R"
    IN  [S EXCEPT !.q = SubSeq(@, 1, n) \o <<ev>> \o SubSeq(@, n + 1, Len(@))]

Outcome(S, tag, ok) ==
    IF tag = 0 THEN S ELSE [S EXCEPT !.done = Append(@, [tag |-> tag, ok |-> ok])]

(* dropping the pending events: only events posted from outside and final-state events; the
   entry-point and history steps of the transition in progress stay *)
Clear(S) ==
    LET dropped == SelectSeq(S.q, LAMBDA ev : ev.ty = "R" /\ ev.tag # 0)
    IN  [S EXCEPT !.q = SelectSeq(@, LAMBDA ev : ev.ty # "R"),
                  !.done = @ \o [i \in 1..Len(dropped) |-> [tag |-> dropped[i].tag, ok |-> FALSE]]]

(* waiters get a negative answer, nothing is processed any more *)
Release(S) ==
    LET w == SelectSeq(S.q, LAMBDA ev : ev.tag # 0)
    IN  [S EXCEPT !.st = "released", !.em = FALSE, !.irq = <<>>,
                  !.q = <<>>,
                  !.done = @ \o [i \in 1..Len(w) |-> [tag |-> w[i].tag, ok |-> FALSE]]]

---------------------------------------------------------------------------
(* Operations a client may perform, also from inside callbacks.  o.op:       *)
(* "t" post, "tc" clear and post, "p" query, "irq" interrupt-safe post,      *)
(* "ts"/"tp"/"tr" timer start/stop/restart (recorded, forwarded to the      *)
(* dispatcher), "env" change of condition values / refusing handlers,       *)
(* "fire" a timer expires, "rel" release, "act" activity queries            *)

TimerEvents(m, id) == SelectSeq(m.tm, LAMBDA t : t.id = id)

ClientOp(m, S, o) ==
    CASE o.op = "t"  -> IF S.st = "up" THEN Post(S, RegularEvent(o.e, o.args, o.tag))
                                       ELSE Outcome(S, o.tag, FALSE)
      [] o.op = "tc" -> IF S.st = "up" THEN Post(Clear(S), RegularEvent(o.e, o.args, o.tag))
                                       ELSE Outcome(S, o.tag, FALSE)
      [] o.op = "p"  -> Ob(S, "poss", o.e, <<IF Possible(m, S, o.e, o.args) THEN 1 ELSE 0>>)
      [] o.op = "irq" -> IF S.st = "up" /\ Len(S.irq) + S.oth < m.cap
                         THEN Ob([S EXCEPT !.irq = Append(@, o.e), !.em = TRUE], "irq", o.e, <<1>>)
                         ELSE Ob(S, "irq", o.e, <<0>>)
      [] o.op = "ts" -> IF S.st = "up" THEN Ob(S, "ts", 0, o.args) ELSE S
      [] o.op = "tp" -> IF S.st = "up" THEN Ob(S, "tp", 0, o.args) ELSE S
      [] o.op = "tr" -> IF S.st = "up" THEN Ob(S, "trs", 0, o.args) ELSE S
      [] o.op = "env" -> [S EXCEPT !.env = o.env]
      [] o.op = "fire" -> IF S.st # "up" THEN S
                          ELSE LET te == TimerEvents(m, o.e)
                               IN  IF te = <<>> THEN S ELSE Post(S, RegularEvent(te[Len(te)].e, <<>>, 0))
      [] OTHER -> S

(* requests to another machine (o.m) are left to the system specification, HsmMulti *)
Request(m, S, o) ==
    IF "m" \in DOMAIN o /\ o.m # 0 THEN [S EXCEPT !.xp = Append(@, o)]
    ELSE IF o.op = "rel" THEN IF S.st = "up" THEN Release(Ob(S, "rel", 0, <<Len(S.irq)>>)) ELSE S
    ELSE ClientOp(m, S, o)

(* A callback of kind k for state/transition s runs: it is observed, then    *)
(* does what the machine description makes it do.                           *)
React(m, S, k, s) ==
    LET RECURSIVE Go(_, _)
        Go(T, i) ==
            IF i > Len(m.react) THEN T
            ELSE LET r == m.react[i]
                 IN  IF r.k = k /\ r.s = s /\ T.rc[i] > 0
                     THEN Go(FoldLeft(LAMBDA U, o : Request(m, U, o),
                                      [T EXCEPT !.rc[i] = @ - 1], r.ops), i + 1)
                     ELSE Go(T, i + 1)
    IN  IF m.react = <<>> THEN S ELSE Go(S, 1)

Callback(m, S, k, s, args) == React(m, Ob(S, k, s, args), k, s)

---------------------------------------------------------------------------
(* Entering and exiting one state *)

DoAction(m, S, a) ==
    CASE a.a = "start"   -> Ob(S, "ts", 0, a.args)
      [] a.a = "stop"    -> Ob(S, "tp", 0, a.args)
      [] a.a = "restart" -> Ob(S, "trs", 0, a.args)
      [] a.a = "post"    -> Post(S, RegularEvent(a.args[1], Tail(a.args), 0))

RunActions(m, S, s, tr) ==
    IF S.st # "up" THEN S
    ELSE LET as == SelectSeq(m.acts, LAMBDA a : a.s = s /\ a.tr = tr)
             L == IF as = <<>> THEN S ELSE Ob(S, IF tr = "en" THEN "Len" ELSE "Lex", s, <<>>)
         IN  FoldLeft(LAMBDA T, a : DoAction(m, T, a), L, as)

(* result: [S, ok] *)
Exiting(m, S, s) ==
    LET T  == IF m.cb[s].ex THEN Callback(m, S, "ex", s, <<>>) ELSE S
        ok == ~m.cb[s].ex \/ ~T.env.bx[s]
        L  == IF m.cb[s].ex THEN Ob(T, "Lx", s, <<IF ok THEN 1 ELSE 0>>) ELSE T
    IN  [S |-> IF ok THEN RunActions(m, L, s, "ex") ELSE L, ok |-> ok]

Entering(m, S, s, args) ==
    IF Has(S.act, s) THEN [S |-> S, ok |-> TRUE]
    ELSE LET T  == IF m.cb[s].en THEN Callback(m, S, "en", s, args) ELSE S
             ok == ~m.cb[s].en \/ ~T.env.be[s]
             L  == IF m.cb[s].en THEN Ob(T, "Ln", s, <<IF ok THEN 1 ELSE 0>> \o args) ELSE T
         IN  [S |-> IF ok THEN RunActions(m, L, s, "en") ELSE L, ok |-> ok]

Changed(m, S, s, args) ==
    IF m.cb[s].st THEN Ob(Callback(m, S, "st", s, args), "Ls", s, args) ELSE S

AddActive(S, s) == IF Has(S.act, s) THEN S ELSE [S EXCEPT !.act = Append(@, s)]

---------------------------------------------------------------------------
(* History *)

(* states (s, its ancestors) whose parent's histories are updated by exiting s below top *)
RECURSIVE HistorySteps(_, _, _)
HistorySteps(m, top, c) ==
    LET p == m.parent[c]
    IN  IF p = 0 THEN <<>>
        ELSE <<[cur |-> c, par |-> p]>> \o (IF p = top THEN <<>> ELSE HistorySteps(m, top, p))

StoreHistory(m, S, top, exited) ==
    LET RECURSIVE All(_, _)     \* all updates [h, s] in order
        All(i, acc) ==
            IF i > Len(exited) THEN acc
            ELSE LET steps == HistorySteps(m, top, exited[i])
                     one(st) == LET hs == SelectSeq([k \in 1..m.n |-> k],
                                                    LAMBDA h : m.ht[h] # 0 /\ m.hpar[h] = st.par)
                                IN  [k \in 1..Len(hs) |->
                                        [h |-> hs[k], s |-> IF m.ht[hs[k]] = 1 THEN st.cur ELSE exited[i]]]
                 IN  All(i + 1, acc \o FlattenSeq([k \in 1..Len(steps) |-> one(steps[k])]))
        ups  == All(1, <<>>)
        new(h) == FoldLeft(LAMBDA l, u : IF u.h = h /\ ~Has(l, u.s) THEN Append(l, u.s) ELSE l, <<>>, ups)
    IN  IF \A h \in 1..m.n : m.ht[h] = 0 THEN S
        ELSE [S EXCEPT !.h = [h \in 1..m.n |-> IF \E i \in 1..Len(ups) : ups[i].h = h THEN new(h) ELSE @[h]]]

Forced(ev, h, s, cb, ign) ==
    [ev EXCEPT !.ty = "F", !.forced = <<[f |-> h, t |-> s, cb |-> cb]>>, !.ign = ign]

(* entering history state h: queue the steps which activate its parent and the stored states *)
HistoryStep(m, S, ev, h) ==
    LET stored == S.h[h]
        p == m.hpar[h]
        T == FoldLeft(LAMBDA U, s : PostFront(U, Forced(ev, h, s, 0, \E i \in 1..Len(stored) : IsSub(m, s, stored[i]))),
                      S, stored)
    IN  IF stored # <<>>
        THEN PostFront([T EXCEPT !.h[h] = <<>>], Forced(ev, h, p, 0, TRUE))
        ELSE IF m.hdef[h] = 0
        THEN PostFront(S, Forced(ev, h, p, IF m.hcb[h] THEN h ELSE 0, ev.ign))
        ELSE PostFront(PostFront(S, Forced(ev, h, m.hdef[h], IF m.hcb[h] THEN h ELSE 0, ev.ign)),
                       Forced(ev, h, p, 0, TRUE))

---------------------------------------------------------------------------
(* One step of one event for one active state.  Result [S, res],            *)
(* res in "pending" (follow-up queued), "ok", "failed", "canceled"          *)

HasActiveChildren(m, S, p) ==       \* non-final ones
    \E i \in 1..Len(S.act) : m.fin[S.act[i]] = -1 /\ IsSub(m, p, S.act[i])

FinalStep(m, S, ev, s) ==
    LET p == m.parent[s]
    IN  IF p = 0 \/ HasActiveChildren(m, S, p) THEN S
        ELSE PostFinal(S, RegularEvent(IF m.fin[s] # 0 THEN m.fin[s] ELSE ev.id, ev.args, 0))

TransObs(k) == IF k = "E" THEN "Le" ELSE "Lt"

(* tr: [f, t, cbk (kind of its callback, "" none), cbi (its number)] *)
External(m, S0, ev, from, tr, exited) ==
    LET S1 == Ob(S0, TransObs(ev.ty), tr.f, <<tr.t, ev.id>> \o ev.args)
        S2 == IF tr.cbk # "" THEN Callback(m, S1, tr.cbk, tr.cbi, ev.args) ELSE S1
        en == Entering(m, S2, tr.t, ev.args)
        S3 == en.S
        isNew == ~Has(S3.act, tr.t)
        \* a history state is replaced by its target (the source of other transitions was exited before)
        act1 == IF ev.ty = "F" /\ ~IsSub(m, from, tr.t) THEN Without(S3.act, from) ELSE S3.act
        S4 == AddActive([S3 EXCEPT !.act = act1], tr.t)
        S5 == IF Has(act1, tr.t) THEN S4 ELSE Changed(m, S4, tr.t, ev.args)
        ep == EntryPoints(m, S5, tr.t, ev.id, ev.args)
        \* refused: parents first, refusals ignored
        back == FoldLeft(LAMBDA T, s : Changed(m, AddActive(Entering(m, T, s, <<>>).S, s), s, <<>>),
                         S3, Rev(exited))
    IN  IF ~en.ok THEN [S |-> back, res |-> "canceled"]
        ELSE IF m.fin[tr.t] # -1 THEN [S |-> FinalStep(m, S5, ev, tr.t), res |-> "ok"]
        ELSE IF m.ht[tr.t] # 0 THEN [S |-> HistoryStep(m, S5, ev, tr.t), res |-> "pending"]
        ELSE IF ev.ign THEN [S |-> S5, res |-> "pending"]
        ELSE IF ep = <<>> \/ (\E i \in 1..Len(S5.act) : IsSub(m, tr.t, S5.act[i])) THEN [S |-> S5, res |-> "ok"]
        ELSE [S |-> IF S5.q # <<>> /\ Head(S5.q).ty = "E" THEN S5
                    ELSE PostFront(S5, [ev EXCEPT !.ty = "E", !.forced = <<>>]),
              res |-> "pending"]

RunExternals(m, S, ev, from, trs, exited, res) ==
    FoldLeft(LAMBDA acc, tr : External(m, acc.S, ev, from, tr, exited), [S |-> S, res |-> res], trs)

(* exit `from` and its active descendants, most recently activated first *)
RECURSIVE ExitList(_, _, _, _)
ExitList(m, S, todo, done) ==
    IF todo = <<>> THEN [S |-> S, ok |-> TRUE, exited |-> done]
    ELSE LET r == Exiting(m, S, Head(todo))
         IN  IF r.ok THEN ExitList(m, r.S, Tail(todo), Append(done, Head(todo)))
             ELSE [S |-> r.S, ok |-> FALSE, exited |-> done]

ExitPhase(m, S, from) ==
    LET todo == SelectSeq(Rev(S.act), LAMBDA s : s = from \/ IsSub(m, from, s))
        r == ExitList(m, S, todo, <<>>)
        T == StoreHistory(m, r.S, from, r.exited)
        back == FoldLeft(LAMBDA U, s :
                            LET V == [U EXCEPT !.act = Without(@, s)]
                            IN  Changed(m, AddActive(Entering(m, V, s, <<>>).S, s), s, <<>>),
                         r.S, Rev(r.exited))
    IN  IF r.ok
        THEN [S |-> [T EXCEPT !.act = SelectSeq(@, LAMBDA s : ~Has(r.exited, s))], ok |-> TRUE, exited |-> r.exited]
        ELSE [S |-> back, ok |-> FALSE, exited |-> <<>>]

AsTr(t, i) == [f |-> t.f, t |-> t.t, cbk |-> IF t.cb THEN "tr" ELSE "", cbi |-> i]

RegularStep(m, S, from, ev) ==
    LET idx == SelectSeq([i \in 1..Len(m.trans) |-> i],
                         LAMBDA i : /\ m.trans[i].f = from /\ m.trans[i].e = ev.id
                                    /\ CondOk(m, S, m.trans[i].c, m.trans[i].x, ev.args)
                                    /\ Enterable(m, S, ev.id, ev.args, <<m.trans[i].t>>))
        selfs == SelectSeq(idx, LAMBDA i : m.trans[i].f = m.trans[i].t /\ m.trans[i].int)
        exts  == SelectSeq(idx, LAMBDA i : ~(m.trans[i].f = m.trans[i].t /\ m.trans[i].int))
        S1 == FoldLeft(LAMBDA T, i :
                          LET L == Ob(T, "Lt", from, <<from, ev.id>> \o ev.args)
                          IN  IF m.trans[i].cb THEN Callback(m, L, "tr", i, ev.args) ELSE L,
                       S, selfs)
        res1 == IF selfs # <<>> THEN "ok" ELSE "failed"
        x == ExitPhase(m, S1, from)
    IN  IF idx = <<>> THEN [S |-> S, res |-> "failed"]
        ELSE IF exts = <<>> THEN [S |-> S1, res |-> res1]
        ELSE IF ~x.ok THEN [S |-> x.S, res |-> "canceled"]
        ELSE RunExternals(m, x.S, ev, from,
                          [k \in 1..Len(exts) |-> AsTr(m.trans[exts[k]], exts[k])], x.exited, res1)

EntryStep(m, S, from, ev) ==
    LET ep == EntryPoints(m, S, from, ev.id, ev.args)
    IN  IF \E i \in 1..Len(S.act) : m.parent[S.act[i]] = from \/ ep = <<>>
        THEN [S |-> S, res |-> "failed"]
        ELSE RunExternals(m, S, ev, from,
                          [k \in 1..Len(ep) |-> [f |-> from, t |-> ep[k], cbk |-> "", cbi |-> 0]], <<>>, "failed")

ForcedStep(m, S, from, ev) ==
    RunExternals(m, S, ev, from,
                 [k \in 1..Len(ev.forced) |->
                    [f |-> ev.forced[k].f, t |-> ev.forced[k].t,
                     cbk |-> IF ev.forced[k].cb # 0 THEN "hd" ELSE "", cbi |-> ev.forced[k].cb]], <<>>, "failed")

Combine(old, new) ==
    IF new = "pending" THEN "pending"
    ELSE IF new = "ok" THEN (IF old = "pending" THEN old ELSE "ok")
    ELSE old

(* the whole processing of one event *)
ProcessEvent(m, S, ev) ==
    LET snap == S.act
        one(acc, s) ==
            IF ~Has(acc.S.act, s) \/ (\E i \in 1..Len(acc.taken) : IsSub(m, s, acc.taken[i])) \/ acc.stop THEN acc
            ELSE LET r == IF ev.ty = "R" THEN RegularStep(m, acc.S, s, ev) ELSE EntryStep(m, acc.S, s, ev)
                     T == IF r.res = "ok" THEN Ob(r.S, "Li", 0, <<>>) ELSE r.S
                 IN  [S |-> T,
                      res |-> IF T.st # "up" THEN "failed" ELSE Combine(acc.res, r.res),
                      taken |-> IF r.res \in {"ok", "pending"} THEN Append(acc.taken, s) ELSE acc.taken,
                      blocked |-> acc.blocked \/ r.res = "canceled",
                      stop |-> T.st # "up"]
        forced == LET r == ForcedStep(m, S, ev.forced[1].f, ev)
                  IN  [S |-> IF r.res = "ok" THEN Ob(r.S, "Li", 0, <<>>) ELSE r.S,
                       res |-> IF r.S.st # "up" THEN "failed" ELSE Combine("failed", r.res)]
        fin == IF ev.ty = "F" THEN forced
               ELSE FoldLeft(one, [S |-> S, res |-> "failed", taken |-> <<>>, blocked |-> FALSE, stop |-> FALSE], Rev(snap))
        \* an entry-point step which finds nothing to enter (anymore) is not a failure
        res == IF ev.ty = "E" /\ fin.res = "failed" /\ ~fin.blocked /\ fin.S.st = "up" THEN "ok" ELSE fin.res
        T == IF res = "failed" /\ m.fcb /\ fin.S.st = "up"
             THEN React(m, [fin.S EXCEPT !.out = Append(@, [k |-> "fl", s |-> ev.id, args |-> ev.args, act |-> snap])],
                        "fl", ev.id)
             ELSE fin.S
    IN  [S |-> T, res |-> res]

(* processing of the front event within a dispatcher turn *)
Step(m, S) ==
    LET ev == Head(S.q)
        r == ProcessEvent(m, [S EXCEPT !.q = Tail(@)], ev)
        more == \E i \in 1..Len(r.S.q) : r.S.q[i].tag = ev.tag
    IN  IF ev.tag # 0 /\ ~more
        THEN Outcome(r.S, ev.tag, r.res \in {"ok", "pending"})
        ELSE r.S

(* interrupt-safe events become ordinary ones at the start of a turn *)
TakeIrq(S) ==
    [FoldLeft(LAMBDA T, e : Post(T, RegularEvent(e, <<>>, 0)), S, S.irq) EXCEPT !.irq = <<>>]

---------------------------------------------------------------------------
(* Start-up *)

Initialize(m, S) ==
    LET S0 == [S EXCEPT !.st = "up"]
        L  == Ob(S0, "Li", 0, <<>>)
        S1 == Entering(m, L, m.init, <<>>).S
        S2 == Changed(m, [S1 EXCEPT !.act = Append(@, m.init)], m.init, <<>>)
        ep == EntryPoints(m, S2, m.init, 0, <<>>)
        S3 == IF ep = <<>> THEN S2 ELSE PostFront(S2, [NoEvent EXCEPT !.ty = "E"])
    IN  [S3 EXCEPT !.em = @ \/ S3.q # <<>>]
=============================================================================
