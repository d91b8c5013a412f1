-------------------------------- MODULE Scxml --------------------------------
(***************************************************************************)
(* The dialect of SCXML which scxml2gen understands: which machine and      *)
(* which diagram a document describes.                                      *)
(*                                                                          *)
(* A document is [initial, top, nodes, timers, ca, cap]; its elements       *)
(* <state>, <parallel>, <final> and <history> are numbered, nodes[s] is     *)
(*   [kind, parent, kids (in document order), hist (shallow | deep),        *)
(*    final (the event of a final state), initial <<[to, ev, c, x]>>,       *)
(*    onentry, onexit, invoke (functions, 0: none), entryacts, exitacts     *)
(*    <<[a, args]>>, trans <<[e, to (0: no target), c, x, fn, internal]>>]  *)
(* Events, conditions c (with the value x which is wanted), functions and   *)
(* timers are numbers, too.  timers[t] is the event ON_TIMER_<t>.           *)
(***************************************************************************)
EXTENDS Hsm

Nodes(doc) == 1..Len(doc.nodes)
IsHistory(doc, s) == doc.nodes[s].kind = "history"
IsFinal(doc, s) == doc.nodes[s].kind = "final"
TargetOf(t, s) == IF t.to = 0 THEN s ELSE t.to         \* without target: to itself
Default(doc, s) == doc.nodes[s].trans[1]               \* of a history state

(* Every child of <parallel> is entered, otherwise what <initial> (or the attribute) tells. *)
EntriesOf(doc, s) ==
    LET n == doc.nodes[s]
    IN  IF n.kind = "parallel" THEN [k \in 1..Len(n.kids) |-> [to |-> n.kids[k], ev |-> 0, c |-> 0, x |-> TRUE]] ELSE n.initial

TransOf(doc, s) ==
    IF IsHistory(doc, s) THEN <<>>
    ELSE [k \in 1..Len(doc.nodes[s].trans) |->
             LET t == doc.nodes[s].trans[k]
             IN  [f |-> s, e |-> t.e, t |-> TargetOf(t, s), int |-> t.internal, c |-> t.c, x |-> t.x, cb |-> t.fn # 0, fn |-> t.fn]]

ActsOf(doc, s) ==
    LET of(as, tr) == [k \in 1..Len(as) |-> [s |-> s, tr |-> tr, a |-> as[k].a, args |-> as[k].args]]
    IN  of(doc.nodes[s].entryacts, "en") \o of(doc.nodes[s].exitacts, "ex")

Concat(doc, F(_, _)) == FoldLeft(LAMBDA acc, s : acc \o F(doc, s), <<>>, [s \in Nodes(doc) |-> s])

(* the machine; fns: which function implements which callback *)
MachineOf(doc) ==
    LET N == Len(doc.nodes)
        nd(s) == doc.nodes[s]
        def(s) == IsHistory(doc, s) /\ nd(s).trans # <<>>
    IN  [n |-> N, init |-> doc.initial, cap |-> doc.cap, fcb |-> TRUE, react |-> <<>>, ca |-> doc.ca,
         parent |-> [s \in 1..N |-> IF IsHistory(doc, s) THEN 0 ELSE nd(s).parent],
         entries |-> [s \in 1..N |-> EntriesOf(doc, s)],
         trans |-> Concat(doc, TransOf),
         fin |-> [s \in 1..N |-> IF IsFinal(doc, s) THEN nd(s).final ELSE -1],
         ht |-> [s \in 1..N |-> IF ~IsHistory(doc, s) THEN 0 ELSE IF nd(s).hist = "deep" THEN 2 ELSE 1],
         hdef |-> [s \in 1..N |-> IF def(s) THEN Default(doc, s).to ELSE 0],
         hpar |-> [s \in 1..N |-> IF IsHistory(doc, s) THEN nd(s).parent ELSE 0],
         hcb |-> [s \in 1..N |-> def(s) /\ Default(doc, s).fn # 0],
         acts |-> Concat(doc, ActsOf),
         cb |-> [s \in 1..N |-> [en |-> nd(s).onentry # 0, ex |-> nd(s).onexit # 0, st |-> nd(s).invoke # 0]],
         tm |-> [t \in 1..Len(doc.timers) |-> [id |-> t, e |-> doc.timers[t]]],
         fns |-> [en |-> [s \in 1..N |-> nd(s).onentry], ex |-> [s \in 1..N |-> nd(s).onexit], st |-> [s \in 1..N |-> nd(s).invoke],
                  hd |-> [s \in 1..N |-> IF def(s) THEN Default(doc, s).fn ELSE 0]]]

(* a callback, as the function which is called *)
AsFunction(m, o) ==
    CASE o.k \in {"en", "ex", "st", "hd"} -> [o EXCEPT !.k = "f", !.s = m.fns[o.k][o.s]]
      [] o.k = "tr" -> [o EXCEPT !.k = "f", !.s = m.trans[o.s].fn]
      [] OTHER -> o

---------------------------------------------------------------------------
(* The diagram which describes the same machine: states with their parents, and arrows between states and     *)
(* markers <<kind, state in which it is drawn>>: "init", "final", "H" (shallow) and "H*" (deep history).      *)

Place(doc, s) ==
    CASE IsHistory(doc, s) -> <<IF doc.nodes[s].hist = "deep" THEN "H*" ELSE "H", doc.nodes[s].parent>>
      [] IsFinal(doc, s) -> <<"final", doc.nodes[s].parent>>
      [] OTHER -> <<"state", s>>

Arrow(from, to, e, c, x, fn) == [from |-> from, to |-> to, e |-> e, c |-> c, x |-> IF c = 0 THEN TRUE ELSE x, fn |-> fn]

InitialArrows(doc, s) == [k \in 1..Len(EntriesOf(doc, s)) |->
    LET en == EntriesOf(doc, s)[k] IN Arrow(<<"init", s>>, Place(doc, en.to), en.ev, en.c, en.x, 0)]
ArrowsOf(doc, s) == [k \in 1..Len(doc.nodes[s].trans) |->
    LET t == doc.nodes[s].trans[k] IN Arrow(Place(doc, s), Place(doc, TargetOf(t, s)), t.e, t.c, t.x, t.fn)]

Bag(seq) == [x \in Range(seq) |-> Cardinality({k \in 1..Len(seq) : seq[k] = x})]

DiagramOf(doc) ==
    [states |-> {<<s, doc.nodes[s].parent>> : s \in {s \in Nodes(doc) : doc.nodes[s].kind \in {"state", "parallel"}}},
     arrows |-> Bag(<<Arrow(<<"init", 0>>, Place(doc, doc.initial), 0, 0, TRUE, 0)>> \o Concat(doc, InitialArrows) \o Concat(doc, ArrowsOf))]

(* How PlantUML reads a text, line by line: a state belongs to the block in which it is mentioned first, a       *)
(* marker to the block in which it is written.  Lines: [t: open | close | state | arrow, id, from, to, e, c, x,    *)
(* fn]; markers are -1 [*], -2 [H], -3 [H*].                                                                       *)
Top(stack) == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]
Mention(R, s) == IF s <= 0 \/ \E p \in R.states : p[1] = s THEN R ELSE [R EXCEPT !.states = @ \cup {<<s, Top(R.stack)>>}]
Marker(R, s, end) ==
    CASE s = -1 -> <<IF end THEN "final" ELSE "init", Top(R.stack)>>
      [] s = -2 -> <<"H", Top(R.stack)>>
      [] s = -3 -> <<"H*", Top(R.stack)>>
      [] OTHER -> <<"state", s>>
ReadLine(R, l) ==
    CASE l.t = "open" -> LET Q == Mention(R, l.id) IN [Q EXCEPT !.stack = Append(@, l.id)]
      [] l.t = "close" -> [R EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.bad = @ \/ R.stack = <<>>]
      [] l.t = "state" -> Mention(R, l.id)
      [] l.t = "arrow" -> LET Q == Mention(Mention(R, l.from), l.to)
                          IN  [Q EXCEPT !.arrows = Append(@, Arrow(Marker(R, l.from, FALSE), Marker(R, l.to, TRUE), l.e, l.c, l.x, l.fn))]
      [] OTHER -> [R EXCEPT !.bad = TRUE]
Read(lines) == FoldLeft(ReadLine, [stack |-> <<>>, states |-> {}, arrows |-> <<>>, bad |-> FALSE], lines)

SameDiagram(doc, lines) ==
    LET R == Read(lines) D == DiagramOf(doc)
    IN  ~R.bad /\ R.stack = <<>> /\ R.states = D.states /\ Bag(R.arrows) = D.arrows
=============================================================================
