------------------------------- MODULE BitMask -------------------------------
(***************************************************************************)
(* A mask definition d is a sequence of [n, b, c]: name, bit, comment. A   *)
(* value is the set of its bits (no limit to the number of bits), a        *)
(* request the sequence of names asked for.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
RangeB(s) == { s[i] : i \in DOMAIN s }
Names(d) == { d[i].n : i \in DOMAIN d }
Bits(d) == { d[i].b : i \in DOMAIN d }
OneToOne(d) == \A i, j \in DOMAIN d : i # j => d[i].n # d[j].n /\ d[i].b # d[j].b
ByName(d, n) == d[CHOOSE i \in DOMAIN d : d[i].n = n]
ByBit(d, b) == d[CHOOSE i \in DOMAIN d : d[i].b = b]
Known(d, ns) == \A i \in DOMAIN ns : ns[i] \in Names(d)
\* the value of names combined
MaskOf(d, ns) == { ByName(d, ns[i]).b : i \in DOMAIN ns }
\* the names of a value, by increasing bit; a bit without a name is reported
NameOf(d, b) == IF b \in Bits(d) THEN ByBit(d, b).n ELSE "UNKNOWN" \o ToString(b)
NamesOf(d, v) == LET s == SetToSortSeq(v, <) IN [ i \in DOMAIN s |-> NameOf(d, s[i]) ]
AllNames(d) == NamesOf(d, Bits(d))
Sorted(d) == SortSeq(d, LAMBDA x, y : x.b < y.b)
=============================================================================
