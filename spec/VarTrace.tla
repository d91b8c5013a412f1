------------------------------ MODULE VarTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the real Variant against Variant.tla. A run is [id, k,  *)
(* ops]; every operation carries what it returned (res) and what all        *)
(* variants held afterwards (slots), as read through the public interface.  *)
(***************************************************************************)
EXTENDS Variant, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
VARIABLES i, run, j, slots, ok

Bit(x) == IF x THEN 1 ELSE 0
(* ==, !=, <, >, <=, >= *)
Operators(c, res) ==
    IF c = Odd THEN res \in {<<0, 1, 1, 0, 1, 0>>, <<0, 1, 0, 1, 0, 1>>}
    ELSE res = <<Bit(c = 0), Bit(c # 0), Bit(c = -1), Bit(c = 1), Bit(c # 1), Bit(c # -1)>>
(* operator bool, isEmpty, isNumeric, isSignedNumeric, isUnsignedNumeric, isBool, isString, isByteArray, isVector, isList, isMap, isPair, isCustomType *)
Kinds(v) == <<Bit(v.t # "UNKNOWN"), Bit(v.t = "UNKNOWN"), Bit(v.t \in Numeric), Bit(v.t \in Signed \cup {"DOUBLE"}), Bit(v.t \in Unsigned), Bit(v.t = "BOOL"), Bit(v.t = "STRING"),
              Bit(v.t = "BYTEARRAY"), Bit(v.t = "VECTOR"), Bit(v.t = "LIST"), Bit(v.t = "MAP"), Bit(v.t = "PAIR"), Bit(v.t = "CUSTOM")>>
(* getByteArray, getVector, getList, getMap, getPair, getCustomType *)
Access(v) == <<Bit(v.t = "BYTEARRAY"), Bit(v.t = "VECTOR"), Bit(v.t = "LIST"), Bit(v.t = "MAP"), Bit(v.t = "PAIR"), Bit(v.t = "CUSTOM")>>

Is(spec, got) == spec = Open \/ spec[1] = got
IsNumber(spec, got) == spec = Open \/ (spec[1].mag = got.mag /\ Negative(spec[1]) = Negative(got))
Converted(v, r) ==
    /\ r.kinds = Kinds(v) /\ r.access = Access(v)
    /\ IsNumber(ToInt64(v), r.int) /\ IsNumber(ToUInt64(v), r.uint) /\ IsNumber(ToDouble(v), r.double)
    /\ Len(r.parts) = Len(Parts(v)) /\ \A n \in 1..Len(r.parts) : Is(ToText(Parts(v)[n]), r.parts[n])
    /\ Is(ToBool(v), r.bool) /\ Is(ToText(v), r.text) /\ Is(ToBytes(v), r.bytes)

Returned(S, o) ==
    CASE o.op = "cmp" -> Operators(Cmp(S[o.i], S[o.j]), o.res)
      [] o.op = "conv" -> Converted(S[o.i], o.res)
      [] o.op = "find" -> o.res = <<IF S[o.i].t = "MAP" THEN Found(S[o.i].e, S[o.j]) ELSE 0>>
      [] OTHER -> TRUE

Init == /\ i \in 1..Len(Runs) /\ run = Runs[i].id /\ j = 0 /\ ok = (Runs[i].leaked = 0)
        /\ slots = [n \in 1..Runs[i].k |-> Empty]
Next == /\ j < Len(Runs[i].ops) /\ j' = j + 1 /\ UNCHANGED <<i, run>>
        /\ LET o == Runs[i].ops[j + 1]
               S == Do(slots, o)
           IN  /\ slots' = S
               /\ ok' = (Returned(slots, o) /\ \A n \in 1..Runs[i].k : Same(S[n], o.slots[n]))
Spec == Init /\ [][Next]_<<i, run, j, slots, ok>>
Conform == ok
Alias == [run |-> run, op |-> j, did |-> IF j > 0 THEN Runs[i].ops[j] ELSE <<>>, slots |-> slots]
=============================================================================
