------------------------------- MODULE Variant -------------------------------
(***************************************************************************)
(* hsmcpp::Variant as data: what a value is, when two are equal, how they   *)
(* are ordered, what they convert to, and how a group of variants (slots)   *)
(* changes when they are set, copied, moved and modified in place.          *)
(*                                                                          *)
(* A value is a record with its type t and                                  *)
(*   numbers    neg, mag: sign and magnitude; mag[1] is 1 for infinity,     *)
(*              mag[2..9] the integer part and mag[10..13] the fraction, in *)
(*              base 256, most significant first                            *)
(*   BOOL       b            STRING, BYTEARRAY   s: their bytes             *)
(*   LIST, VECTOR, PAIR      e: the elements                                *)
(*   MAP        e: the entries <<key, value>> in the order of their keys    *)
(*   CUSTOM     c: its class, s: what its class compares, p: the rest       *)
(* NaN isn't part of this: it is neither equal to nor ordered with anything *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Signed   == {"BYTE_1", "BYTE_2", "BYTE_4", "BYTE_8"}
Unsigned == {"UBYTE_1", "UBYTE_2", "UBYTE_4", "UBYTE_8"}
Numeric  == Signed \cup Unsigned \cup {"DOUBLE"}
Sequence == {"LIST", "VECTOR", "PAIR"}
Empty    == [t |-> "UNKNOWN"]

---------------------------------------------------------------------------
(* numbers *)
RECURSIVE CmpDigits(_, _, _)
CmpDigits(x, y, n) == IF n > Len(x) THEN 0 ELSE IF x[n] < y[n] THEN -1 ELSE IF x[n] > y[n] THEN 1 ELSE CmpDigits(x, y, n + 1)

IsZero(x) == \A n \in 1..Len(x) : x[n] = 0
Negative(v) == v.neg /\ ~IsZero(v.mag)
Exact(a, b) ==
    CASE Negative(a) /\ ~Negative(b) -> -1
      [] Negative(b) /\ ~Negative(a) -> 1
      [] Negative(a) -> CmpDigits(b.mag, a.mag, 1)
      [] OTHER -> CmpDigits(a.mag, b.mag, 1)

(* x - y of sequences of digits, x >= y *)
RECURSIVE Minus(_, _, _, _)
Minus(x, y, n, borrow) ==
    IF n = 0 THEN <<>>
    ELSE LET d == x[n] - y[n] - borrow
         IN  Append(Minus(x, y, n - 1, IF d < 0 THEN 1 ELSE 0), IF d < 0 THEN d + 256 ELSE d)
RECURSIVE Plus(_, _, _, _)
Plus(x, y, n, carry) ==
    IF n = 0 THEN <<>> ELSE LET d == x[n] + y[n] + carry IN Append(Plus(x, y, n - 1, d \div 256), d % 256)

(* floating-point numbers closer than 1e-8 (42 times 2^-32) count as equal *)
Near(a, b) ==
    LET d == IF Negative(a) # Negative(b) THEN Plus(a.mag, b.mag, 13, 0)
             ELSE IF CmpDigits(a.mag, b.mag, 1) >= 0 THEN Minus(a.mag, b.mag, 13, 0) ELSE Minus(b.mag, a.mag, 13, 0)
    IN  a.mag[1] = 0 /\ b.mag[1] = 0 /\ (\A n \in 1..12 : d[n] = 0) /\ d[13] <= 42

CmpNumbers(a, b) ==
    IF "DOUBLE" \in {a.t, b.t} /\ Near(a, b) THEN 0 ELSE Exact(a, b)

---------------------------------------------------------------------------
(* Comparison: -1, 0, 1; Odd: not equal, in an order which is left open *)
Odd == 2
Rank(t) == CASE t = "UNKNOWN" -> 0 [] t \in Numeric -> 1 [] t = "BOOL" -> 2 [] t = "STRING" -> 3 [] t = "BYTEARRAY" -> 4 [] t = "LIST" -> 5
             [] t = "VECTOR" -> 6 [] t = "MAP" -> 7 [] t = "PAIR" -> 8 [] t = "CUSTOM" -> 9

RECURSIVE CmpBytes(_, _, _)
CmpBytes(x, y, n) ==
    IF n > Len(x) \/ n > Len(y) THEN (IF Len(x) = Len(y) THEN 0 ELSE IF Len(x) < Len(y) THEN -1 ELSE 1)
    ELSE IF x[n] # y[n] THEN (IF x[n] < y[n] THEN -1 ELSE 1) ELSE CmpBytes(x, y, n + 1)

RECURSIVE Cmp(_, _), CmpSeq(_, _, _)
Flat(v) == IF v.t = "MAP" THEN [n \in 1..2 * Len(v.e) |-> v.e[(n + 1) \div 2][IF n % 2 = 1 THEN 1 ELSE 2]] ELSE v.e
CmpSeq(x, y, n) ==
    IF n > Len(x) \/ n > Len(y) THEN (IF Len(x) = Len(y) THEN 0 ELSE IF Len(x) < Len(y) THEN -1 ELSE 1)
    ELSE LET c == Cmp(x[n], y[n]) IN IF c # 0 THEN c ELSE CmpSeq(x, y, n + 1)
Cmp(a, b) ==
    CASE a.t \in Numeric /\ b.t \in Numeric -> CmpNumbers(a, b)
      [] Rank(a.t) < Rank(b.t) -> -1
      [] Rank(a.t) > Rank(b.t) -> 1
      [] a.t = "UNKNOWN" -> 0
      [] a.t = "BOOL" -> IF a.b = b.b THEN 0 ELSE IF b.b THEN -1 ELSE 1
      [] a.t \in {"STRING", "BYTEARRAY"} -> CmpBytes(a.s, b.s, 1)
      [] a.t = "CUSTOM" -> IF a.c = b.c THEN CmpBytes(a.s, b.s, 1) ELSE Odd
      [] OTHER -> CmpSeq(Flat(a), Flat(b), 1)

(* values which can't be told apart: what copies are *)
RECURSIVE Same(_, _)
Same(a, b) ==
    /\ a.t = b.t
    /\ CASE a.t \in Numeric -> a.mag = b.mag /\ Negative(a) = Negative(b)
         [] a.t = "BOOL" -> a.b = b.b
         [] a.t \in {"STRING", "BYTEARRAY"} -> a.s = b.s
         [] a.t = "CUSTOM" -> a.c = b.c /\ a.s = b.s /\ a.p = b.p
         [] a.t = "UNKNOWN" -> TRUE
         [] OTHER -> LET x == Flat(a) y == Flat(b) IN Len(x) = Len(y) /\ \A n \in 1..Len(x) : Same(x[n], y[n])

(* an entry for a key which isn't there yet; -1 if it is *)
Position(m, key) ==
    IF \E n \in 1..Len(m) : Cmp(m[n][1], key) = 0 THEN -1
    ELSE Cardinality({n \in 1..Len(m) : Cmp(m[n][1], key) = -1}) + 1
WithEntry(m, key, val) == LET p == Position(m, key) IN IF p = -1 THEN m ELSE InsertAt(m, p, <<key, val>>)
Found(m, key) == IF \E n \in 1..Len(m) : Cmp(m[n][1], key) = 0 THEN CHOOSE n \in 1..Len(m) : Cmp(m[n][1], key) = 0 ELSE 0
RECURSIVE AsMap(_)
AsMap(kv) == IF kv = <<>> THEN <<>> ELSE WithEntry(AsMap(Front(kv)), Last(kv)[1], Last(kv)[2])

---------------------------------------------------------------------------
(* Conversions: <<>> stands for a result which isn't specified, <<r>> for the result r *)
Open == <<>>
Digit(c) == c \in 48..57
ZeroMag == [n \in 1..13 |-> 0]
SmallNumber(x) == [ZeroMag EXCEPT ![9] = x]
IntegerPart(mag) == [n \in 1..13 |-> IF n > 9 THEN 0 ELSE mag[n]]
Magnitude(neg, mag) == [neg |-> neg /\ ~IsZero(mag), mag |-> mag]

(* mag * 10 + c *)
RECURSIVE Times10(_, _, _)
Times10(mag, n, carry) == IF n = 0 THEN <<>> ELSE LET d == mag[n] * 10 + carry IN Append(Times10(mag, n - 1, d \div 256), d % 256)
RECURSIVE Decimal(_, _)
Decimal(s, mag) == IF s = <<>> THEN mag ELSE Decimal(Tail(s), Times10(SubSeq(mag, 1, 9), 9, Head(s) - 48) \o <<0, 0, 0, 0>>)
Unsign(s) == IF s # <<>> /\ Head(s) \in {43, 45} THEN Tail(s) ELSE s
IsInteger(s) == LET u == Unsign(s) IN Len(u) \in 1..20 /\ \A n \in 1..Len(u) : Digit(u[n])
IsFraction(s) == \E n \in 1..Len(s) : s[n] = 46 /\ IsInteger(SubSeq(s, 1, n - 1)) /\ n < Len(s) /\ \A k \in n + 1..Len(s) : Digit(s[k])
(* letters and signs with which numbers, infinity, NaN and white space may begin *)
NotNumber(s) == s = <<>> \/ (~Digit(s[1]) /\ s[1] \notin {9, 10, 11, 12, 13, 32, 43, 45, 46, 73, 78, 105, 110})
Nothing == Magnitude(FALSE, ZeroMag)
(* texts with up to 20 digits; numbers which do not fit are 0 *)
TextNumber(s, fits(_)) ==
    IF IsInteger(s) THEN LET x == Magnitude(Head(s) = 45, Decimal(Unsign(s), ZeroMag)) IN <<IF fits(x) THEN x ELSE Nothing>>
    ELSE IF NotNumber(s) THEN <<Nothing>> ELSE Open
True4 == <<116, 114, 117, 101>>
Big(mag) == mag[1] > 0 \/ mag[2] >= 128                \* 2^63 and more
Lowest(x) == x.neg /\ x.mag = [ZeroMag EXCEPT ![2] = 128]
Huge(mag) == mag[1] > 0 \/ mag[2] > 0 \/ mag[3] >= 32    \* 2^53 and more

ToInt64(v) ==
    CASE v.t \in Numeric -> IF Big(v.mag) THEN (IF v.t = "BYTE_8" THEN <<Magnitude(v.neg, v.mag)>> ELSE Open) ELSE <<Magnitude(v.neg, IntegerPart(v.mag))>>
      [] v.t = "BOOL" -> <<Magnitude(FALSE, SmallNumber(IF v.b THEN 1 ELSE 0))>>
      [] v.t = "STRING" -> TextNumber(v.s, LAMBDA x : ~Big(x.mag) \/ Lowest(x))
      [] OTHER -> <<Nothing>>
ToUInt64(v) ==
    CASE v.t \in Numeric -> IF Negative(v) \/ v.mag[1] = 1 THEN Open ELSE <<Magnitude(FALSE, IntegerPart(v.mag))>>
      [] v.t = "STRING" -> IF v.s # <<>> /\ Head(v.s) = 45 THEN Open ELSE TextNumber(v.s, LAMBDA x : x.mag[1] = 0)
      [] OTHER -> ToInt64(v)
ToDouble(v) ==
    CASE v.t = "DOUBLE" -> <<Magnitude(v.neg, v.mag)>>
      [] v.t \in Numeric -> IF Huge(v.mag) THEN Open ELSE <<Magnitude(v.neg, v.mag)>>
      [] v.t = "STRING" -> LET r == TextNumber(v.s, LAMBDA x : TRUE) IN IF r # Open /\ Huge(r[1].mag) THEN Open ELSE r
      [] OTHER -> ToInt64(v)
ToBool(v) ==
    CASE v.t \in Numeric -> <<~IsZero(v.mag)>>
      [] v.t = "BOOL" -> <<v.b>>
      [] v.t = "STRING" -> IF v.s = True4 THEN <<TRUE>>
                           ELSE IF IsInteger(v.s) \/ IsFraction(v.s) THEN <<\E n \in 1..Len(v.s) : v.s[n] \in 49..57>>
                           ELSE IF NotNumber(v.s) THEN <<FALSE>> ELSE Open
      [] OTHER -> <<FALSE>>

(* mag / 10: <<quotient, remainder>> *)
RECURSIVE DivMod(_, _, _, _)
DivMod(mag, n, rem, d) ==
    IF n > Len(mag) THEN <<<<>>, rem>>
    ELSE LET x == rem * 256 + mag[n] r == DivMod(mag, n + 1, x % d, d) IN <<<<x \div d>> \o r[1], r[2]>>
RECURSIVE Digits(_)
Digits(mag) == LET q == DivMod(mag, 1, 0, 10) IN Append(IF IsZero(q[1]) THEN <<>> ELSE Digits(q[1]), 48 + q[2])
RECURSIVE FracDigits(_, _)
FracDigits(f, n) ==          \* the n decimals of a fraction, and what is left of it
    IF n = 0 THEN [d |-> <<>>, left |-> f]
    ELSE LET x == Times10(<<0>> \o f, 5, 0) r == FracDigits(SubSeq(x, 2, 5), n - 1) IN [d |-> <<48 + x[1]>> \o r.d, left |-> r.left]

Join(parts, sep) == FoldLeft(LAMBDA acc, x : IF acc = <<>> THEN x ELSE acc \o sep \o x, <<>>, parts)
Comma == <<44, 32>>
RECURSIVE ToText(_)
ToText(v) ==
    LET parts == IF v.t \in Sequence \cup {"MAP"} THEN [n \in 1..Len(Flat(v)) |-> ToText(Flat(v)[n])] ELSE <<>>
        known == \A n \in 1..Len(parts) : parts[n] # Open /\ parts[n] # <<<<>>>>
        text(n) == parts[n][1]
    IN  CASE v.t = "DOUBLE" -> LET f == FracDigits(SubSeq(v.mag, 10, 13), 6)
                               IN  IF v.mag[1] = 1 \/ ~IsZero(f.left) \/ IsZero(v.mag) THEN Open
                                   ELSE <<(IF v.neg THEN <<45>> ELSE <<>>) \o Digits(SubSeq(v.mag, 2, 9)) \o <<46>> \o f.d>>
          [] v.t \in Numeric -> <<(IF Negative(v) THEN <<45>> ELSE <<>>) \o Digits(SubSeq(v.mag, 2, 9))>>
          [] v.t = "BOOL" -> <<IF v.b THEN True4 ELSE <<102, 97, 108, 115, 101>>>>
          [] v.t \in {"STRING", "BYTEARRAY"} -> <<v.s>>
          [] v.t \in {"LIST", "VECTOR"} -> IF known THEN <<Join([n \in 1..Len(parts) |-> text(n)], Comma)>> ELSE Open
          [] v.t = "PAIR" -> IF known THEN <<<<40>> \o text(1) \o Comma \o text(2) \o <<41>>>> ELSE Open
          [] v.t = "MAP" -> IF known THEN <<Join([n \in 1..Len(parts) \div 2 |-> text(2 * n - 1) \o <<61, 91>> \o text(2 * n) \o <<93>>], Comma)>> ELSE Open
          [] OTHER -> <<<<>>>>

Width(t) == CASE t \in {"BYTE_1", "UBYTE_1"} -> 1 [] t \in {"BYTE_2", "UBYTE_2"} -> 2 [] t \in {"BYTE_4", "UBYTE_4"} -> 4 [] OTHER -> 8
(* two's complement, least significant byte first *)
LittleEndian(v) ==
    LET m == SubSeq(v.mag, 2, 9)
        c == IF Negative(v) THEN Plus([n \in 1..8 |-> 255 - m[n]], [n \in 1..8 |-> IF n = 8 THEN 1 ELSE 0], 8, 0) ELSE m
    IN  [n \in 1..Width(v.t) |-> c[9 - n]]
RECURSIVE ToBytes(_)
ToBytes(v) ==
    CASE v.t \in Signed \cup Unsigned -> <<LittleEndian(v)>>
      [] v.t = "BOOL" -> <<<<IF v.b THEN 1 ELSE 0>>>>
      [] v.t \in {"STRING", "BYTEARRAY"} -> <<v.s>>
      [] v.t \in Sequence -> LET p == [n \in 1..Len(v.e) |-> ToBytes(v.e[n])]
                             IN  IF \E n \in 1..Len(p) : p[n] = Open THEN Open ELSE <<FlattenSeq([n \in 1..Len(p) |-> p[n][1]])>>
      [] v.t \in {"DOUBLE", "MAP"} -> Open
      [] OTHER -> <<<<>>>>

---------------------------------------------------------------------------
(* Operations on a sequence of variants. Those which make no sense for what a variant holds do nothing *)
Parts(v) == CASE v.t \in Sequence -> v.e [] v.t = "MAP" -> Flat(v) [] OTHER -> <<>>

Nest(kind, vs) ==
    CASE kind \in {"LIST", "VECTOR"} -> [t |-> kind, e |-> vs]
      [] kind = "PAIR" -> [t |-> kind, e |-> <<vs[1], vs[2]>>]
      [] kind = "MAP" -> [t |-> kind, e |-> AsMap([n \in 1..Len(vs) \div 2 |-> <<vs[2 * n - 1], vs[2 * n]>>])]

Pushed(v, x, y) ==
    CASE v.t \in {"LIST", "VECTOR"} -> [v EXCEPT !.e = Append(@, x)]
      [] v.t = "PAIR" -> [v EXCEPT !.e = <<x, y>>]
      [] v.t = "MAP" -> [v EXCEPT !.e = WithEntry(@, x, y)]
      [] v.t = "BYTEARRAY" -> [v EXCEPT !.s = Append(@, 7)]
      [] OTHER -> v

(* an element replaced; of maps, the values *)
Replaced(v, n, x) ==
    CASE v.t \in Sequence /\ n <= Len(v.e) -> [v EXCEPT !.e[n] = x]
      [] v.t = "MAP" /\ n <= Len(v.e) -> [v EXCEPT !.e[n][2] = x]
      [] OTHER -> v

(* the literal as the code is given it: maps need to be brought in order *)
RECURSIVE Literal(_)
Literal(v) ==
    CASE v.t \in Sequence -> [v EXCEPT !.e = [n \in 1..Len(v.e) |-> Literal(v.e[n])]]
      [] v.t = "MAP" -> [v EXCEPT !.e = AsMap([n \in 1..Len(v.e) |-> <<Literal(v.e[n][1]), Literal(v.e[n][2])>>])]
      [] OTHER -> v

Do(S, o) ==
    CASE o.op = "set" -> [S EXCEPT ![o.i] = Literal(o.v)]
      [] o.op = "copy" -> [S EXCEPT ![o.i] = S[o.j]]
      [] o.op = "move" -> IF o.i = o.j THEN S ELSE [S EXCEPT ![o.i] = S[o.j], ![o.j] = Empty]
      [] o.op = "clear" -> [S EXCEPT ![o.i] = Empty]
      [] o.op = "nest" -> [S EXCEPT ![o.i] = Nest(o.kind, [n \in 1..Len(o.js) |-> S[o.js[n]]])]
      [] o.op = "push" -> [S EXCEPT ![o.i] = Pushed(@, S[o.j], S[o.k])]
      [] o.op = "part" -> IF o.n <= Len(Parts(S[o.i])) THEN [S EXCEPT ![o.i] = Parts(@)[o.n]] ELSE S      \* becomes one of its own elements
      [] o.op = "into" -> [S EXCEPT ![o.i] = Replaced(@, o.n, S[o.j])]
      [] OTHER -> S                                                                                    \* self, cmp, conv, find
=============================================================================
