------------------------------ MODULE VariantMC ------------------------------
(***************************************************************************)
(* The specification of Variant itself: equality is an equivalence, the      *)
(* order is a total one which agrees with it, and operations on one variant *)
(* leave the others alone. All triples of a set of values, and all states   *)
(* which three variants reach in a few operations.                          *)
(***************************************************************************)
EXTENDS Variant, TLC

Num(t, neg, a, b) == [t |-> t, neg |-> neg, mag |-> [ZeroMag EXCEPT ![9] = a, ![2] = b]]
Frac(neg, a, f) == [t |-> "DOUBLE", neg |-> neg, mag |-> [ZeroMag EXCEPT ![9] = a, ![10] = f]]
Inf(neg) == [t |-> "DOUBLE", neg |-> neg, mag |-> [ZeroMag EXCEPT ![1] = 1]]
Str(t, s) == [t |-> t, s |-> s]
Basic == { Num("BYTE_1", FALSE, 0, 0), Num("BYTE_4", TRUE, 1, 0), Num("BYTE_8", TRUE, 1, 0), Num("BYTE_8", TRUE, 0, 128), Num("BYTE_8", FALSE, 0, 127),
           Num("UBYTE_8", FALSE, 0, 255), Num("UBYTE_8", FALSE, 0, 128), Num("UBYTE_1", FALSE, 1, 0), Frac(FALSE, 1, 0), Frac(TRUE, 0, 128), Frac(FALSE, 0, 0), Frac(TRUE, 0, 0),
           Num("DOUBLE", FALSE, 0, 128), Inf(TRUE), Inf(FALSE), [t |-> "BOOL", b |-> TRUE], [t |-> "BOOL", b |-> FALSE],
           Str("STRING", <<>>), Str("STRING", <<97>>), Str("STRING", <<97, 255>>), Str("BYTEARRAY", <<97>>), Empty,
           [t |-> "CUSTOM", c |-> "A", s |-> <<1>>, p |-> 1], [t |-> "CUSTOM", c |-> "A", s |-> <<1>>, p |-> 2], [t |-> "CUSTOM", c |-> "A", s |-> <<>>, p |-> 1] }
Some == { Num("BYTE_4", TRUE, 1, 0), Num("UBYTE_8", FALSE, 0, 255), Frac(FALSE, 1, 0), Num("UBYTE_1", FALSE, 1, 0), Str("STRING", <<97>>), Empty }
Nested == {Nest(k, <<a, b>>) : k \in {"LIST", "PAIR"}, a \in Some, b \in Some} \cup {Nest("LIST", <<a>>) : a \in Some} \cup {Nest("VECTOR", <<>>), Nest("MAP", <<>>)}
           \cup {Nest("MAP", <<a, a, b, b>>) : a \in Some, b \in Some}
All == Basic \cup Nested

ASSUME Reflexive == \A a \in All : Cmp(a, a) = 0 /\ Same(a, a)
ASSUME Converse == \A a, b \in All : Cmp(a, b) = -Cmp(b, a) /\ (Same(a, b) => Cmp(a, b) = 0)
ASSUME Transitive == \A a, b \in All : Cmp(a, b) <= 0 => \A c \in All : Cmp(b, c) <= 0 => Cmp(a, c) <= 0
ASSUME Substitution == \A a, b \in All : Cmp(a, b) = 0 => \A c \in All : Cmp(a, c) = Cmp(b, c)
(* numbers compare as numbers *)
ASSUME Numbers == \A a, b \in {v \in Basic : v.t \in Numeric} : Cmp(a, b) = Exact(a, b)

---------------------------------------------------------------------------
VARIABLES slots, last, n
Ops == {[op |-> "set", i |-> i, v |-> v] : i \in 1..2, v \in {Num("BYTE_4", TRUE, 1, 0), Str("STRING", <<97>>), Nest("LIST", <<Num("UBYTE_1", FALSE, 1, 0)>>)}}
       \cup {[op |-> o, i |-> i, j |-> j] : o \in {"copy", "move"}, i \in 1..3, j \in 1..3}
       \cup {[op |-> "nest", i |-> i, kind |-> k, js |-> <<1, 3>>] : i \in 1..3, k \in {"LIST", "MAP", "PAIR"}}
       \cup {[op |-> "push", i |-> i, j |-> 1, k |-> 2] : i \in {2, 3}}
       \cup {[op |-> "part", i |-> i, n |-> 1] : i \in 1..3} \cup {[op |-> "into", i |-> i, n |-> 1, j |-> 1] : i \in {1, 3}}
Init == slots = <<Empty, Empty, Empty>> /\ last = [op |-> "none", i |-> 0] /\ n = 0
Next == n < 4 /\ n' = n + 1 /\ \E o \in Ops : last' = o /\ slots' = Do(slots, o)
Spec == Init /\ [][Next]_<<slots, last, n>>

Touched(o) == {o.i} \cup (IF o.op = "move" THEN {o.j} ELSE {})
Independent == [][\A k \in (1..3) \ Touched(last') : Same(slots'[k], slots[k])]_<<slots, last, n>>
Moved == [][(last'.op = "move" /\ last'.i # last'.j) => Same(slots'[last'.i], slots[last'.j]) /\ slots'[last'.j].t = "UNKNOWN"]_<<slots, last, n>>
Copied == [][last'.op = "copy" => Same(slots'[last'.i], slots[last'.j]) /\ Cmp(slots'[last'.i], slots'[last'.j]) = 0]_<<slots, last, n>>
Sorted(v) == v.t = "MAP" => \A a, b \in 1..Len(v.e) : a < b => Cmp(v.e[a][1], v.e[b][1]) = -1
RECURSIVE SortedAll(_)
SortedAll(v) == Sorted(v) /\ \A k \in 1..Len(Parts(v)) : SortedAll(Parts(v)[k])
Keys == \A k \in 1..3 : SortedAll(slots[k])
View == <<slots, n>>
=============================================================================
