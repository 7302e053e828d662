----------------------------- MODULE BitMaskTrace -----------------------------
(***************************************************************************)
(* Recorded questions to masks. e.d: the definition the mask was made from;*)
(* e.op; e.ns, e.bs: names or bits asked with; e.err: exception, "" if     *)
(* none; e.ob bits, e.on names, e.ot text or e.od definition answered.     *)
(***************************************************************************)
EXTENDS BitMask, TraceCheck
Unknown(e) == ~Known(e.d, e.ns) \/ (e.op \in {"bit", "item-bit", "bitname", "comment-bit"} /\ ~(RangeB(e.bs) \subseteq Bits(e.d)))
\* names that shipped masks must hold at these bits: they are stored in files
\* and exchanged with the instrument
BFails(e) ==
  IF e.op = "shipped" THEN (IF OneToOne(e.od) THEN {} ELSE {"not-one-to-one"}) \union (IF Sorted(e.od) = Sorted(e.d) THEN {} ELSE {"shipped-mask-changed"})
  \* attributes beyond name, bit and comment: kept with the bit, unless they are no attributes
  \* or would hide what every bit has
  ELSE IF e.op = "refuse" THEN (IF e.err = "" THEN {"impossible-attributes-accepted"} ELSE {})
  ELSE IF e.op = "extra" THEN
    (IF e.err # "" THEN {"raised"}
     ELSE (IF e.got = e.want THEN {} ELSE {"wrong-attribute"}) \union (IF e.text = e.want THEN {} ELSE {"attributes-not-in-text"})
       \union (IF RangeB(e.ob) = MaskOf(e.d, e.ns) THEN {} ELSE {"wrong-bit"}))
  ELSE IF Unknown(e) THEN (IF e.err = "" THEN {"undefined-not-reported"} ELSE {})
  ELSE IF e.err # "" THEN {"raised"}
  ELSE CASE e.op \in {"mask", "or", "item", "attr"} -> IF RangeB(e.ob) = MaskOf(e.d, e.ns) THEN {} ELSE {"wrong-value"}
         [] e.op \in {"bit", "item-bit"} -> IF RangeB(e.ob) = RangeB(e.bs) THEN {} ELSE {"wrong-value-of-bit"}
         [] e.op = "bitnum" -> IF RangeB(e.ob) = MaskOf(e.d, e.ns) THEN {} ELSE {"wrong-bit"}
         [] e.op = "bitname" -> IF e.on = <<NameOf(e.d, e.bs[1])>> THEN {} ELSE {"wrong-name-of-bit"}
         [] e.op = "comment" -> IF e.ot = ByName(e.d, e.ns[1]).c THEN {} ELSE {"wrong-comment"}
         [] e.op = "comment-bit" -> IF e.ot = ByBit(e.d, e.bs[1]).c THEN {} ELSE {"wrong-comment-of-bit"}
         [] e.op = "names" -> IF e.on = NamesOf(e.d, RangeB(e.bs)) THEN {} ELSE {"wrong-names"}
         [] e.op = "allnames" -> IF e.on = AllNames(e.d) THEN {} ELSE {"wrong-list-of-names"}
         [] e.op = "repr" -> IF e.od = Sorted(e.d) THEN {} ELSE {"text-of-mask-is-not-its-definition"}
         [] e.op = "back" -> IF RangeB(e.ob) = MaskOf(e.d, e.ns) /\ RangeB(e.on) = RangeB(e.ns) THEN {} ELSE {"not-the-identity"}
         [] OTHER -> {"unknown-op"}
=============================================================================
