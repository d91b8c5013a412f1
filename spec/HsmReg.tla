-------------------------------- MODULE HsmReg -------------------------------
(***************************************************************************)
(* Registration: how the description of a machine grows out of the calls    *)
(* made before it is initialized, and which of them are refused.            *)
(* A call is [c, v, kinds, res]: what is registered, its numbers as given   *)
(* to the API by the harness, for actions the kinds of their arguments, and *)
(* the result which was returned (1 for calls without result).             *)
(***************************************************************************)
EXTENDS Hsm

Nothing(m) ==
    [m EXCEPT !.parent = [s \in 1..m.n |-> 0], !.entries = [s \in 1..m.n |-> <<>>], !.trans = <<>>, !.fin = [s \in 1..m.n |-> -1],
              !.ht = [s \in 1..m.n |-> 0], !.hdef = [s \in 1..m.n |-> 0], !.hpar = [s \in 1..m.n |-> 0], !.hcb = [s \in 1..m.n |-> FALSE],
              !.acts = <<>>, !.cb = [s \in 1..m.n |-> [en |-> FALSE, ex |-> FALSE, st |-> FALSE]], !.tm = <<>>]

(* may c become a substate (again: get another entry point) of p? *)
Allowed(m, p, c, again) ==
    /\ p # c
    /\ m.parent[c] = 0 \/ (again /\ m.parent[c] = p)
    /\ ~IsSub(m, c, p)

Number(k) == k \in {"i", "u", "l", "d", "e"}
ValidAction(a, kinds) ==
    CASE a = 0 -> Len(kinds) = 3 /\ Number(kinds[1]) /\ Number(kinds[2]) /\ kinds[3] = "b"
      [] a \in {1, 2} -> Len(kinds) = 1 /\ Number(kinds[1])
      [] a = 3 -> Len(kinds) > 0 /\ Number(kinds[1])
ActionName(a) == CASE a = 0 -> "start" [] a = 1 -> "stop" [] a = 2 -> "restart" [] a = 3 -> "post"
Odd == -77776          \* as which the harness reports arguments which aren't numbers

Register(m, c) ==
    LET v == c.v
        cb(n) == [en |-> v[n] = 1, ex |-> v[n + 1] = 1, st |-> v[n + 2] = 1]
    IN  CASE c.c = "state" -> [m |-> [m EXCEPT !.cb[v[1]] = cb(2)], res |-> 1]
          [] c.c = "final" -> [m |-> [m EXCEPT !.cb[v[1]] = cb(3), !.fin[v[1]] = v[2]], res |-> 1]
          [] c.c = "sub" -> IF Allowed(m, v[1], v[2], FALSE) THEN [m |-> [m EXCEPT !.parent[v[2]] = v[1]], res |-> 1] ELSE [m |-> m, res |-> 0]
          [] c.c = "entry" -> IF Allowed(m, v[1], v[2], TRUE)
                              THEN [m |-> [m EXCEPT !.parent[v[2]] = v[1], !.entries[v[1]] = Append(@, [to |-> v[2], ev |-> v[3], c |-> v[4], x |-> v[5] = 1])], res |-> 1]
                              ELSE [m |-> m, res |-> 0]
          [] c.c = "hist" -> [m |-> [m EXCEPT !.hpar[v[2]] = v[1], !.ht[v[2]] = v[3], !.hdef[v[2]] = v[4], !.hcb[v[2]] = v[5] = 1], res |-> 1]
          [] c.c = "trans" -> [m |-> [m EXCEPT !.trans = Append(@, [f |-> v[1], e |-> v[2], t |-> v[3], int |-> FALSE, c |-> v[4], x |-> v[5] = 1, cb |-> v[6] = 1])], res |-> 1]
          [] c.c = "self" -> [m |-> [m EXCEPT !.trans = Append(@, [f |-> v[1], e |-> v[2], t |-> v[1], int |-> v[3] = 1, c |-> v[4], x |-> v[5] = 1, cb |-> v[6] = 1])], res |-> 1]
          [] c.c = "act" -> IF ValidAction(v[3], c.kinds)
                            THEN [m |-> [m EXCEPT !.acts = Append(@, [s |-> v[1], tr |-> IF v[2] = 1 THEN "ex" ELSE "en", a |-> ActionName(v[3]),
                                                                      args |-> [n \in 1..Len(c.kinds) |-> IF Number(c.kinds[n]) \/ v[3] # 3 THEN v[n + 3] ELSE Odd]])], res |-> 1]
                            ELSE [m |-> m, res |-> 0]
          [] c.c = "timer" -> [m |-> [m EXCEPT !.tm = Append(SelectSeq(@, LAMBDA t : t.id # v[1]), [id |-> v[1], e |-> v[2]])], res |-> 1]

(* the machine, and whether all results were as they have to be *)
Built(m, cmds) ==
    FoldLeft(LAMBDA acc, c : LET r == Register(acc.m, c) IN [m |-> r.m, ok |-> acc.ok /\ r.res = c.res], [m |-> Nothing(m), ok |-> TRUE], cmds)
=============================================================================
