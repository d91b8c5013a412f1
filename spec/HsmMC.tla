------------------------------- MODULE HsmMC -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Hsm for small machines: every order of events, *)
(* clear requests, condition values and refusing handlers is tried, and the *)
(* properties, stated declaratively (independently of the operational       *)
(* definitions in Hsm), are checked on every step.                          *)
(*                                                                          *)
(* One action Turn processes one event completely: the event itself and     *)
(* the entry-point and history steps it causes (S.out has what happened).   *)
(***************************************************************************)
EXTENDS Hsm, TLC, Json, IOUtils

Machines == ndJsonDeserialize(IOEnv.MACHINES)      \* [m, envs, wf, plainreact, maxq]

VARIABLES mi, S, act

vars == <<mi, S, act>>
M == Machines[mi].m
WF == Machines[mi].wf               \* transitions only between siblings (and histories of siblings)
Quiet == M.react = <<>>             \* callbacks do nothing
Arguments == {<<>>, <<1>>}

Clean(T) == [T EXCEPT !.out = <<>>, !.done = <<>>]

Internal(ev) == ev.ty # "R"

RECURSIVE RunSteps(_, _, _)
RunSteps(m, T, n) ==
    IF T.q = <<>> \/ ~Internal(Head(T.q)) \/ n = 0 THEN T ELSE RunSteps(m, Step(m, T), n - 1)

Init == /\ mi \in 1..Len(Machines)
        /\ S = Fresh(Machines[mi].m, Machines[mi].envs[1])
        /\ act = [k |-> "none"]

Start == /\ S.st = "new"
         /\ S' = RunSteps(M, Initialize(M, Clean(S)), 30)
         /\ act' = [k |-> "start"]
PostA == \E e \in 1..Machines[mi].ne, a \in Arguments :
         /\ S.st = "up" /\ Len(S.q) < Machines[mi].maxq
         /\ S' = ClientOp(M, Clean(S), [op |-> "t", e |-> e, args |-> a, tag |-> 0])
         /\ act' = [k |-> "post", e |-> e, args |-> a]
ClearA == \E e \in 1..Machines[mi].ne :
         /\ S.st = "up" /\ S.q # <<>>
         /\ S' = ClientOp(M, Clean(S), [op |-> "tc", e |-> e, args |-> <<>>, tag |-> 0])
         /\ act' = [k |-> "clear", e |-> e, args |-> <<>>]
EnvA == \E n \in 1..Len(Machines[mi].envs) :
         /\ S.st = "up" /\ S.env # Machines[mi].envs[n]
         /\ S' = [Clean(S) EXCEPT !.env = Machines[mi].envs[n]]
         /\ act' = [k |-> "env"]
Turn ==  /\ S.st = "up" /\ S.q # <<>>
         /\ S' = RunSteps(M, Step(M, Clean(S)), 30)
         /\ act' = [k |-> "turn", ev |-> Head(S.q)]

Next == (Start \/ PostA \/ ClearA \/ EnvA \/ Turn) /\ UNCHANGED mi
Spec == Init /\ [][Next]_vars
Bounded == Len(S.q) <= 4
View == <<mi, Clean(S)>>

---------------------------------------------------------------------------
(* helpers on what happened in a step *)
Set(q) == {q[i] : i \in 1..Len(q)}
Obs(k) == SelectSeq(S'.out, LAMBDA o : o.k = k)
Idx(k, s) == {i \in 1..Len(S'.out) : S'.out[i].k = k /\ S'.out[i].s = s}
ObservedStates == {s \in 1..M.n : M.ht[s] = 0 /\ M.cb[s].en /\ M.cb[s].ex /\ M.cb[s].st}
Blocks(env) == \E s \in 1..M.n : env.bx[s] \/ env.be[s]
IsTurn == act'.k = "turn"
Ev == act'.ev
Chain(s) == {s} \cup Set(Ancestors(M, s))
Below(s) == {t \in 1..M.n : IsSub(M, s, t)}
HasUncond(s) == \E i \in 1..Len(M.entries[s]) : M.entries[s][i].c = 0 /\ M.entries[s][i].ev = 0

NoHistory == \A s \in 1..M.n : M.ht[s] = 0

(* C01 *)
NoDuplicates == \A a, b \in 1..Len(S.act) : a # b => S.act[a] # S.act[b]
NeverEmpty == S.st = "up" => S.act # <<>>
EverBlocks == \E n \in 1..Len(Machines[mi].envs) : Blocks(Machines[mi].envs[n])
HistoryMayFail == (\E s \in 1..M.n : M.ht[s] # 0) /\ EverBlocks
ParentsActive == (WF /\ S.st = "up" /\ ~HistoryMayFail) => \A i \in 1..Len(S.act) : M.parent[S.act[i]] # 0 => Has(S.act, M.parent[S.act[i]])
SeenRight ==
    [][ \A i \in 1..Len(S'.out) :
          LET o == S'.out[i]
          IN  /\ o.k = "en" => ~Has(o.act, o.s)
              /\ o.k \in {"ex", "st"} => Has(o.act, o.s) ]_vars
(* the list of active states follows from the accepted entries and exits alone *)
Alternate ==
    [][ (act'.k \in {"start", "turn"} /\ Quiet) =>
          \A s \in ObservedStates :
            LET steps == SelectSeq(S'.out, LAMBDA o : o.s = s /\ o.k \in {"Ln", "Lx"} /\ o.args[1] = 1)
            IN  \* entries and exits alternate, starting with the one possible, except that the rollback of a
                \* refused transition re-enters whatever its entry handler says
                (~Blocks(S.env) => \A i \in 1..Len(steps) :
                    steps[i].k = (IF (i % 2 = 1) = Has(S.act, s) THEN "Lx" ELSE "Ln"))
                /\ (~Blocks(S.env) => (Has(S'.act, s) <=> IF steps = <<>> THEN Has(S.act, s) ELSE steps[Len(steps)].k = "Ln")) ]_vars

(* C02: the queue behaves as a queue: nothing waiting is lost, duplicated, reordered or overtaken *)
Fifo ==
    [][ /\ act'.k = "post" => S'.q = S.q \o <<RegularEvent(act'.e, act'.args, 0)>>
        /\ act'.k = "env" => S'.q = S.q
        /\ (IsTurn /\ Quiet) =>
             \E f \in 0..Len(S'.q) :
               LET rest == SubSeq(S'.q, f + 1, Len(S'.q))
                   k == Len(S.q) - 1
               IN  /\ Len(rest) >= k /\ SubSeq(rest, 1, k) = Tail(S.q)
                   /\ \A i \in 1..f : S'.q[i].ty = "R"               \* final-state events
                   /\ (\A s \in 1..M.n : M.fin[s] = -1) => f = 0
                   /\ (M.acts = <<>>) => Len(rest) = k ]_vars
(* C14 *)
ClearDrops == [][ act'.k = "clear" => S'.q = <<RegularEvent(act'.e, <<>>, 0)>> /\ S'.act = S.act /\ S'.h = S.h ]_vars

(* C03 *)
EnabledAt(s, e, args) == SelectSeq([i \in 1..Len(M.trans) |-> i],
    LAMBDA i : /\ M.trans[i].f = s /\ M.trans[i].e = e
               /\ CondOk(M, S, M.trans[i].c, M.trans[i].x, args)
               /\ Enterable(M, S, e, args, <<M.trans[i].t>>))
Fired == {i \in 1..Len(M.trans) : \E n \in 1..Len(S'.out) : S'.out[n].k = "tr" /\ S'.out[n].s = i}
(* no state has several external transitions enabled at once *)
Single == \A s \in Set(S.act) :
             Len(SelectSeq(EnabledAt(s, Ev.id, Ev.args), LAMBDA i : ~(M.trans[i].int /\ M.trans[i].f = M.trans[i].t))) <= 1
OnlyEnabled ==
    [][ (IsTurn /\ Quiet) =>
          /\ \A i \in Fired : Has(EnabledAt(M.trans[i].f, Ev.id, Ev.args), i)
          /\ (\A s \in Set(S.act) : EnabledAt(s, Ev.id, Ev.args) = <<>>) =>
                (Fired = {} /\ S'.act = S.act /\ Obs("en") = <<>> /\ Obs("ex") = <<>> /\ Obs("st") = <<>>) ]_vars
InnermostFirst ==
    [][ (IsTurn /\ Quiet /\ WF /\ ~Blocks(S.env) /\ ~HistoryMayFail) =>
          /\ \A i \in Fired : ~\E d \in Set(S.act) : IsSub(M, M.trans[i].f, d) /\ EnabledAt(d, Ev.id, Ev.args) # <<>>
          /\ \A s \in Set(S.act) :
                \* nothing below or above took it away: every enabled transition with a callback fires
                (/\ EnabledAt(s, Ev.id, Ev.args) # <<>>
                 /\ ~\E d \in Set(S.act) : IsSub(M, s, d) /\ EnabledAt(d, Ev.id, Ev.args) # <<>>)
                => \A i \in Set(EnabledAt(s, Ev.id, Ev.args)) : M.trans[i].cb => i \in Fired ]_vars
InternalStays ==
    [][ (IsTurn /\ Quiet /\ \A s \in Set(S.act) : \A i \in Set(EnabledAt(s, Ev.id, Ev.args)) :
                              M.trans[i].int /\ M.trans[i].f = M.trans[i].t)
          => S'.act = S.act /\ Obs("en") = <<>> /\ Obs("ex") = <<>> ]_vars

(* C04 *)
Order ==
    [][ (IsTurn /\ Quiet) =>
          \A n \in 1..Len(S'.out) :
            LET o == S'.out[n]
            IN  /\ o.k = "tr" =>
                     LET t == M.trans[o.s]
                     IN  \* the source and everything below it was exited before
                         (WF /\ ~HistoryMayFail /\ (t.f # t.t \/ ~t.int)) =>
                            \A s \in (Below(t.f) \cup {t.f}) \cap Set(S.act) :
                               M.cb[s].ex => \E k \in 1..(n - 1) : S'.out[k].k = "ex" /\ S'.out[k].s = s
                /\ (o.k = "ex" /\ WF /\ ~HistoryMayFail) =>    \* children before parents
                     ~\E k \in 1..(n - 1) : S'.out[k].k = "ex" /\ IsSub(M, S'.out[k].s, o.s) /\
                         ~\E l \in k..(n - 1) : S'.out[l].k \in {"en", "st"}
                /\ (o.k \in {"en", "st", "tr"} /\ ~Blocks(S.env)) => o.args = Ev.args
                /\ (o.k = "st" /\ M.cb[o.s].en) => \E k \in 1..(n - 1) : S'.out[k].k = "en" /\ S'.out[k].s = o.s ]_vars

(* C05 *)
Refused == \E n \in 1..Len(S'.out) : S'.out[n].k \in {"Ln", "Lx"} /\ S'.out[n].args[1] = 0
RolledBack ==
    [][ (IsTurn /\ Quiet /\ WF /\ Single) =>
          LET F == Step(M, Clean(S))      \* the event itself, without the steps it causes
          IN  (\E n \in 1..Len(F.out) : F.out[n].k = "fl") => Set(F.act) = Set(S.act) /\ (M.acts = <<>> => F.q = Tail(S.q)) ]_vars
ParentsFirst ==
    [][ (IsTurn /\ Quiet /\ WF /\ ~HistoryMayFail) =>
          \A a, b \in 1..Len(S'.act) : IsSub(M, S'.act[b], S'.act[a]) => b < a ]_vars

(* C06: below every state entered in this step exactly the matching entry points are active - unless a history
   or refusals took part *)
EntryPointsEntered ==
    [][ (Quiet /\ act'.k \in {"start", "turn"} /\ NoHistory /\ WF /\ ~Blocks(S.env)) =>
          LET e == IF IsTurn THEN Ev.id ELSE 0
              a == IF IsTurn THEN Ev.args ELSE <<>>
              new == {s \in Set(S'.act) : ~Has(S.act, s) \/ \E n \in 1..Len(S'.out) : S'.out[n].k = "st" /\ S'.out[n].s = s}
          IN  \A s \in new : {t \in Set(S'.act) : M.parent[t] = s} = Set(EntryPoints(M, S, s, e, a)) ]_vars
NoStepsLeft == \A i \in 1..Len(S.q) : S.q[i].ty = "R"

(* C07 *)
HistoryTaken(h) == IsTurn /\ \E n \in 1..Len(S'.out) : S'.out[n].k = "Lt" /\ S'.out[n].args[1] = h /\ S'.out[n].s # 0
Restored ==
    [][ (IsTurn /\ Quiet /\ WF /\ ~Blocks(S.env) /\ Ev.ty = "R"
         /\ Cardinality({n \in 1..Len(S'.out) : S'.out[n].k = "Lt"}) = 1) =>
          \A h \in 1..M.n : (M.ht[h] # 0 /\ HistoryTaken(h)) =>
            LET p == M.hpar[h]
                fromInside == \E n \in 1..Len(S'.out) : S'.out[n].k = "Lt" /\ (S'.out[n].s = p)
                stored == S.h[h]
                now == {s \in Set(S'.act) : IsSub(M, p, s)}
            IN  ~fromInside =>
                  /\ Has(S'.act, p)
                  /\ (stored # <<>> /\ M.ht[h] = 1) => {s \in now : M.parent[s] = p} = Set(stored)
                  /\ (stored # <<>> /\ M.ht[h] = 2) => now = (UNION {Chain(s) : s \in Set(stored)}) \cap Below(p)
                  /\ (stored = <<>> /\ M.hdef[h] # 0) => {s \in now : M.parent[s] = p} = {M.hdef[h]}
                  /\ (stored = <<>> /\ M.hcb[h]) => Len(SelectSeq(S'.out, LAMBDA o : o.k = "hd" /\ o.s = h)) = 1
                  /\ Obs("hd") # <<>> => stored = <<>> ]_vars
(* what is remembered was active when the parent was exited *)
HistoryFromActive ==
    [][ \A h \in 1..M.n : (M.ht[h] # 0 /\ S'.h[h] # S.h[h]) =>
          \A i \in 1..Len(S'.h[h]) : IsSub(M, M.hpar[h], S'.h[h][i]) ]_vars
DeepRemembersLeaves ==
    [][ (IsTurn /\ WF /\ Quiet /\ ~Blocks(S.env)) => \A h \in 1..M.n :
          (M.ht[h] # 0 /\ Has(S.act, M.hpar[h]) /\ ~Has(S'.act, M.hpar[h]) /\ Len(SelectSeq(S'.out, LAMBDA o : o.k = "ex" /\ o.s = M.hpar[h])) = 1
             /\ M.cb[M.hpar[h]].ex) =>
             LET in == {s \in Set(S.act) : IsSub(M, M.hpar[h], s)}
             IN  IF M.ht[h] = 1 THEN {s \in in : M.parent[s] = M.hpar[h]} \subseteq Set(S'.h[h])
                 ELSE {s \in in : ~\E t \in in : IsSub(M, s, t)} \subseteq Set(S'.h[h]) ]_vars

(* C08 *)
FinalNotifies ==
    [][ (IsTurn /\ Quiet /\ WF /\ M.acts = <<>> /\ ~Blocks(S.env) /\ NoHistory) =>
          LET new == {s \in 1..M.n : M.fin[s] # -1 /\ M.parent[s] # 0 /\ ~Has(S.act, s) /\ Has(S'.act, s)}
              front == SubSeq(S'.q, 1, Len(S'.q) - (Len(S.q) - 1))
          IN  /\ Len(front) <= Len(SelectSeq(Obs("Lt") \o Obs("Le"), LAMBDA o : M.fin[o.args[1]] # -1))
              \* the last region to finish reports, with the arguments of the event
              /\ \A s \in new :
                    (~\E t \in Set(S'.act) : M.fin[t] = -1 /\ IsSub(M, M.parent[s], t)) =>
                       \E i \in 1..Len(front) : front[i].args = Ev.args
              /\ \A i \in 1..Len(front) : \E s \in Below(0) \cup 1..M.n :
                       M.fin[s] # -1 /\ front[i].id = (IF M.fin[s] = 0 THEN Ev.id ELSE M.fin[s]) ]_vars
FinalStays == [][ IsTurn => \A i \in Fired : M.fin[M.trans[i].f] = -1 ]_vars

(* C09 *)
ActionsFollow ==
    [][ (act'.k \in {"start", "turn"} /\ Quiet) =>
          LET n(k) == Len(Obs(k))
              want(tr, kinds) == LET as == SelectSeq(M.acts, LAMBDA a : a.tr = tr /\ a.a \in kinds) IN as
              times(s, tr) == Len(SelectSeq(S'.out, LAMBDA o : o.s = s /\ o.k = (IF tr = "en" THEN "Len" ELSE "Lex")))
              total(kind) == LET as == SelectSeq(M.acts, LAMBDA a : a.a = kind)
                             IN  FoldLeft(LAMBDA x, a : x + times(a.s, a.tr), 0, as)
          IN  /\ n("ts") = total("start") /\ n("tp") = total("stop") /\ n("trs") = total("restart")
              /\ \A s \in ObservedStates :
                   /\ (\E i \in 1..Len(M.acts) : M.acts[i].s = s /\ M.acts[i].tr = "en") =>
                        times(s, "en") = Len(SelectSeq(S'.out, LAMBDA o : o.k = "Ln" /\ o.s = s /\ o.args[1] = 1))
                   /\ (\E i \in 1..Len(M.acts) : M.acts[i].s = s /\ M.acts[i].tr = "ex") =>
                        times(s, "ex") = Len(SelectSeq(S'.out, LAMBDA o : o.k = "Lx" /\ o.s = s /\ o.args[1] = 1)) ]_vars

(* C10 *)
FailureReported ==
    [][ (IsTurn /\ Quiet /\ M.fcb) =>
          LET fl == Obs("fl")
              done == \E n \in 1..Len(S'.out) : S'.out[n].k \in {"Li"}
              executed == {n \in 1..Len(S'.out) : S'.out[n].k = "Lt"}
          IN  /\ (~Blocks(S.env) /\ WF /\ NoHistory) => (fl = <<>> <=> executed # {})
              /\ (executed = {} /\ Ev.ty = "R") => Len(fl) = 1
              /\ Len(fl) <= 1 \/ Blocks(S.env) \/ ~WF \/ ~NoHistory
              /\ fl # <<>> => (S'.out[Len(S'.out)].k = "fl" /\ fl[1].act = S.act /\ fl[1].s = Ev.id /\ fl[1].args = Ev.args) \/ Blocks(S.env) \/ ~WF \/ ~NoHistory ]_vars

(* C11: with an empty queue the prediction is what would happen *)
Predicts ==
    (S.st = "up" /\ S.q = <<>> /\ Quiet /\ WF /\ ~Blocks(S.env) /\ ~HistoryMayFail) =>
       \A e \in 1..Machines[mi].ne, a \in Arguments :
         LET T == RunSteps(M, Step(M, ClientOp(M, Clean(S), [op |-> "t", e |-> e, args |-> a, tag |-> 0])), 30)
             executed == \E n \in 1..Len(T.out) : T.out[n].k = "Lt"
         IN  /\ executed => Possible(M, S, e, a)
             \* a level with only disabled transitions hides the levels above from the prediction, but not the other
             \* way round: predicted means that some active state takes it
             /\ Possible(M, S, e, a) => executed
=============================================================================
