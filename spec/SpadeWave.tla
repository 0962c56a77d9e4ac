----------------------------- MODULE SpadeWave -----------------------------
(***************************************************************************)
(* What a waveform viewer and a test bench see of a Spade design: the      *)
(* textual form of the value in the bits of a signal, the bits of a signal *)
(* that hold a part of it, and the bits that a Spade expression stands     *)
(* for.                                                                    *)
(*                                                                         *)
(*   Text(t, b, p, m)     text of the bits b as a value of type t          *)
(*   Part(t, path, p)     type and first bit of a part of a value          *)
(*   Field(root, names)   the forward and backward bits of a field of a    *)
(*                        port                                             *)
(*   Fits(e, t, p)        whether expression e has type t                  *)
(*                                                                         *)
(* Bits are 0, 1, 2 = undefined, 3 = high impedance, most significant      *)
(* first.                                                                  *)
(***************************************************************************)
EXTENDS SpadeSem

JoinStr(s, sep) == IF s = <<>> THEN "" ELSE
  FoldLeft(LAMBDA a, i : IF i = 1 THEN s[1] ELSE a \o sep \o s[i], "", [i \in DOMAIN s |-> i])

----------------------------------------------------------------------------
(* Decimal numerals of any width: digits, least significant first.         *)
Carry(ds, k, c) ==       \* k * ds + c
  LET r == FoldLeft(LAMBDA a, d : <<Append(a[1], (k * d + a[2]) % 10), (k * d + a[2]) \div 10>>, <<<<>>, c>>, ds)
  IN IF r[2] = 0 THEN r[1] ELSE Append(r[1], r[2])
Digits(b) == FoldLeft(LAMBDA ds, x : Carry(ds, 2, x), <<0>>, b)
DigitText(ds) == FoldLeft(LAMBDA a, d : ToString(d) \o a, "", ds)
UText(b) == DigitText(Digits(b))
SText(b) == IF b[1] = 0 THEN UText(b)
            ELSE "-" \o DigitText(Carry(Digits([i \in DOMAIN b |-> 1 - b[i]]), 1, 1))

Has2(b) == \E i \in DOMAIN b : b[i] = 2
Has3(b) == \E i \in DOMAIN b : b[i] = 3
Scalar(b, s) == IF Has2(b) THEN "UNDEF" ELSE IF Has3(b) THEN "HIGHIMP" ELSE s

FieldNames(t, p) == LET d == p.structs[t[2]] IN [i \in DOMAIN d.fs |-> d.fs[i][1]]

RECURSIVE Text(_, _, _, _)
TextSeq(b, f, p, m) ==
  LET w == TLCEval([i \in DOMAIN f |-> Width(f[i], p)])
      off == TLCEval([i \in DOMAIN f |-> SumSeq(SubSeq(w, 1, i - 1))])
  IN TLCEval([i \in DOMAIN f |-> Text(f[i], SubSeq(b, off[i] + 1, off[i] + w[i]), p, m)])
(* m = TRUE lists the elements of arrays in the order of the bits, the     *)
(* last element first.                                                     *)
Text(t, b, p, m) ==
  LET w == Width(t, p) IN
  IF Len(b) > w \/ w = 0 THEN "" ELSE
  LET v == Fill(w - Len(b), IF b[1] \in {0, 1} THEN 0 ELSE b[1]) \o b IN
  CASE t[1] = "u" -> Scalar(v, UText(v))
    [] t[1] = "s" -> Scalar(v, SText(v))
    [] t[1] \in {"b", "ck"} -> Scalar(v, IF v[1] = 1 THEN "true" ELSE "false")
    [] t[1] = "t" -> "(" \o JoinStr(TextSeq(v, t[2], p, m), ",") \o ")"
    [] t[1] = "st" -> LET x == TextSeq(v, FieldTypes(t, p), p, m) n == FieldNames(t, p) IN
                      "{" \o JoinStr([i \in DOMAIN x |-> n[i] \o ":" \o x[i]], ",") \o "}"
    [] t[1] = "a" -> LET x == TextSeq(v, Fill(t[3], t[2]), p, m) IN
                     "[" \o JoinStr(IF m THEN x ELSE Reverse(x), ",") \o "]"
    [] t[1] = "en" ->
         LET tw == TagWidth(t, p)
             tag == SubSeq(v, 1, tw)
             k == BitsToNat(tag) + 1
         IN IF ~Known(tag) THEN Scalar(tag, "")
            ELSE IF k > Len(p.enums[t[2]].vs) THEN "?TAG?"
            ELSE p.enums[t[2]].vs[k][1] \o "("
                 \o JoinStr(TextSeq(SubSeq(v, tw + 1, w), VariantTypes(t, k, p), p, m), ",") \o ")"

(* A part of a value without backward bits: <<"t", i>> element of a tuple, *)
(* <<"f", i>> field, <<"a", i>> element i (from 0) of an array.            *)
RECURSIVE Part(_, _, _)
Part(t, path, p) ==
  IF path = <<>> THEN <<t, 0>> ELSE
  LET h == path[1]
      f == IF h[1] = "t" THEN t[2] ELSE IF h[1] = "f" THEN FieldTypes(t, p) ELSE Fill(t[3], t[2])
      j == IF h[1] = "a" THEN t[3] - h[2] ELSE h[2]
      r == Part(f[j], Tail(path), p)
  IN <<r[1], r[2] + SumSeq([i \in 1..(j - 1) |-> Width(f[i], p)])>>
PartBits(t, path, b, p) ==
  LET x == Part(t, path, p) IN SubSeq(b, x[2] + 1, x[2] + Width(x[1], p))

----------------------------------------------------------------------------
(* Fields of ports.  A field is [t, inv, f, b]: its type under an even or  *)
(* odd number of inversions, and its <<from, to>> among the forward and    *)
(* backward bits of the port it belongs to.                                *)
RECURSIVE BWidth(_, _)
BWidth(t, p) ==
  CASE t[1] \in {"u", "s", "b", "ck", "en"} -> 0
    [] t[1] = "t"  -> SumSeq([i \in DOMAIN t[2] |-> BWidth(t[2][i], p)])
    [] t[1] = "a"  -> t[3] * BWidth(t[2], p)
    [] t[1] = "st" -> LET f == FieldTypes(t, p) IN SumSeq([i \in DOMAIN f |-> BWidth(f[i], p)])
    [] t[1] = "inv" -> Width(t[2], p)

FW(t, inv, p) == IF inv THEN BWidth(t, p) ELSE Width(t, p)
BW(t, inv, p) == IF inv THEN Width(t, p) ELSE BWidth(t, p)
NoField == [ok |-> FALSE]
Strip(x) == IF x.t[1] = "inv" THEN [x EXCEPT !.t = x.t[2], !.inv = ~x.inv] ELSE x
Root(t, p) == Strip([ok |-> TRUE, t |-> t, inv |-> FALSE, f |-> <<0, Width(t, p)>>, b |-> <<0, BWidth(t, p)>>])
Down(x, n, p) ==
  IF ~x.ok THEN NoField
  ELSE IF x.t[1] # "st" THEN NoField
  ELSE LET ns == FieldNames(x.t, p) IN
  IF ~\E i \in DOMAIN ns : ns[i] = n THEN NoField
  ELSE LET k == CHOOSE i \in DOMAIN ns : ns[i] = n
           ft == FieldTypes(x.t, p)
           f0 == x.f[1] + SumSeq([i \in 1..(k - 1) |-> FW(ft[i], x.inv, p)])
           b0 == x.b[1] + SumSeq([i \in 1..(k - 1) |-> BW(ft[i], x.inv, p)])
       IN Strip([ok |-> TRUE, t |-> ft[k], inv |-> x.inv,
                 f |-> <<f0, f0 + FW(ft[k], x.inv, p)>>, b |-> <<b0, b0 + BW(ft[k], x.inv, p)>>])
Field(t, names, p) == FoldLeft(LAMBDA x, n : Down(x, n, p), Root(t, p), names)

(* The bits that a test bench writes (w) or reads of a field of an input   *)
(* or the output (o): the field must be a value that goes in that          *)
(* direction.                                                              *)
Access(t, names, w, o, p) ==
  LET x == Field(t, names, p) IN
  IF ~x.ok THEN NoField
  ELSE IF BWidth(x.t, p) # 0 \/ Width(x.t, p) = 0 \/ x.inv = (w # o) THEN NoField
  ELSE LET r == IF x.inv THEN x.b ELSE x.f
       IN [ok |-> TRUE, t |-> x.t, from |-> r[1], to |-> r[2],
           full |-> Width(x.t, p) = (IF x.inv THEN BWidth(t, p) ELSE Width(t, p))]

----------------------------------------------------------------------------
(* Expressions of a test bench: literals and constructors.                 *)
LitFits(v, t) == IF t[1] = "u" THEN v >= 0 /\ (t[2] >= 31 \/ v < 2^t[2])
                 ELSE t[2] >= 32 \/ (t[2] > 0 /\ v >= -(2^(t[2] - 1)) /\ v < 2^(t[2] - 1))
RECURSIVE Fits(_, _, _)
AllFit(es, ts, p) == Len(es) = Len(ts) /\ \A i \in DOMAIN es : Fits(es[i], ts[i], p)
Fits(e, t, p) ==
  CASE e.k = "lit"  -> t[1] \in {"u", "s"} /\ LitFits(e.v, t) /\ (Has(e, "t") => Conc(e.t, EmptyFn) = t)
    [] e.k = "bool" -> t[1] = "b"
    [] e.k = "tup"  -> t[1] = "t" /\ AllFit(e.es, t[2], p)
    [] e.k = "arr"  -> t[1] = "a" /\ AllFit(e.es, Fill(t[3], t[2]), p)
    [] e.k = "str"  -> t[1] = "st" /\ t[2] = e.s /\ AllFit(e.es, FieldTypes(t, p), p)
    [] e.k = "enm"  -> t[1] = "en" /\ t[2] = e.en /\ AllFit(e.es, VariantTypes(t, e.v, p), p)
    [] e.k = "bin"  -> /\ t[1] \in {"u", "s"} /\ e.op \in {"+", "-"} /\ t[2] > 1
                       /\ LET o == <<t[1], t[2] - 1>> IN Fits(e.l, o, p) /\ Fits(e.r, o, p)
    [] e.k = "neg"  -> t[1] = "s" /\ Fits(e.e, t, p)
RECURSIVE Val(_, _, _)
Vals(es, ts, p) == [i \in DOMAIN es |-> Val(es[i], ts[i], p)]
Val(e, t, p) ==
  CASE e.k = "lit"  -> I(e.v)
    [] e.k = "bool" -> B(e.v)
    [] e.k = "tup"  -> T(Vals(e.es, t[2], p))
    [] e.k = "arr"  -> T(Vals(e.es, Fill(t[3], t[2]), p))
    [] e.k = "str"  -> T(Vals(e.es, FieldTypes(t, p), p))
    [] e.k = "enm"  -> <<"e", e.v, Vals(e.es, VariantTypes(t, e.v, p), p)>>
    [] e.k = "bin"  -> LET o == <<t[1], t[2] - 1>> a == Val(e.l, o, p)[2] b == Val(e.r, o, p)[2]
                       IN I(Wrap(IF e.op = "+" THEN a + b ELSE a - b, t))
    [] e.k = "neg"  -> I(Wrap(-Val(e.e, t, p)[2], t))
(* A wide literal is given by its decimal text, its sign and the bits of    *)
(* its magnitude.                                                          *)
WideFits(e, t) ==
  LET n == Len(e.mag) IN
  CASE t[1] = "u" -> ~e.neg /\ n <= t[2]
    [] t[1] = "s" -> n < t[2] \/ (e.neg /\ n = t[2] /\ \A i \in 2..n : e.mag[i] = 0)
    [] OTHER -> FALSE
WideOk(e, t, b) == /\ Len(b) = t[2] /\ Known(b)
                   /\ (IF t[1] = "u" THEN UText(b) ELSE SText(b)) = e.txt

(* Whether the value of bits seen is that of the expression. *)
SameBits(want, seen) == \A i \in DOMAIN want : want[i] = 2 \/ want[i] = seen[i]
=============================================================================
