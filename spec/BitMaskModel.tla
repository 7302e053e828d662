----------------------------- MODULE BitMaskModel -----------------------------
(***************************************************************************)
(* Every definition with up to MaxBits names (in any order) on bits up to  *)
(* Top, every request and every value: going either way and back is the    *)
(* identity; the undefined is reported.                                    *)
(* Naive: the value of a request is the sum of its terms, in which a name  *)
(* given twice carries into the next bit (must break the laws).            *)
(***************************************************************************)
EXTENDS BitMask, Json
CONSTANTS MaxBits, Top, Naive
VARIABLES d, ask, val
Pool == <<"ALPHA", "BETA", "GAMMA">>
Comments == <<"first one", "second: of, many", "third">>
Defs == { s \in UNION { [1..k -> (1..Len(Pool)) \X (0..Top)] : k \in 0..MaxBits } :
          \A i, j \in DOMAIN s : i # j => s[i][1] # s[j][1] /\ s[i][2] # s[j][2] }
AsDef(s) == [ i \in DOMAIN s |-> [n |-> Pool[s[i][1]], b |-> s[i][2], c |-> Comments[s[i][1]]] ]
Asks == UNION { [1..k -> RangeB(Pool)] : k \in 1..3 }
Init == d \in { AsDef(s) : s \in Defs } /\ ask \in Asks /\ val \in SUBSET (0..Top)
Next == UNCHANGED <<d, ask, val>>
\* the sum, as bits
RECURSIVE AddBit(_, _)
AddBit(v, b) == IF b \in v THEN AddBit(v \ {b}, b + 1) ELSE v \union {b}
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN {} ELSE AddBit(SumOf(Tail(s)), s[1])
Combined == IF Naive THEN SumOf([ i \in DOMAIN ask |-> ByName(d, ask[i]).b ]) ELSE MaskOf(d, ask)
ThereAndBack == Known(d, ask) => RangeB(NamesOf(d, Combined)) = RangeB(ask)
BackAndThere == val \subseteq Bits(d) => Known(d, NamesOf(d, val)) /\ MaskOf(d, NamesOf(d, val)) = val
Reported == Len(NamesOf(d, val)) = Cardinality(val) /\ (val \subseteq Bits(d)) = Known(d, NamesOf(d, val))
Ordered == LET s == Sorted(d) IN AllNames(d) = [ i \in DOMAIN s |-> s[i].n ]
Emit == (Len(ask) = 1 \/ d = <<>> \/ Known(d, ask) \/ Len(d) = MaxBits) => PrintT("@@CASE " \o ToJson([d |-> d, ask |-> ask, val |-> SetToSortSeq(val, <)]))
=============================================================================
