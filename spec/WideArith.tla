------------------------------ MODULE WideArith ------------------------------
(* Two's complement arithmetic on bit sequences of any width (most          *)
(* significant bit first): what the integer operators of Spade mean beyond  *)
(* the range of TLC's integers.                                             *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == Reverse(s)
Inv(a) == [i \in DOMAIN a |-> 1 - a[i]]
Neg(a) == a # <<>> /\ a[1] = 1

(* Extend or cut a to w bits; k = "s" repeats the sign. *)
Fit(a, w, k) ==
  IF Len(a) >= w THEN SubSeq(a, Len(a) - w + 1, Len(a))
  ELSE LET f == IF k = "s" /\ Neg(a) THEN 1 ELSE 0 IN [i \in 1..(w - Len(a)) |-> f] \o a

(* Ripple carry from the least significant end. *)
AddC(a, b, c0) ==      \* equal lengths
  LET ra == Rev(a) rb == Rev(b)
      st == FoldLeft(LAMBDA s, i :
              LET t == ra[i] + rb[i] + s.c IN [c |-> t \div 2, o |-> Append(s.o, t % 2)],
              [c |-> c0, o |-> <<>>], [i \in DOMAIN ra |-> i])
  IN Rev(st.o)
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, Inv(b), 1)
Negate(a) == AddC(Zeros(Len(a)), Inv(a), 1)

Shl(a, n) == IF n >= Len(a) THEN Zeros(Len(a)) ELSE SubSeq(a, n + 1, Len(a)) \o Zeros(n)
Shr(a, n) == IF n >= Len(a) THEN Zeros(Len(a)) ELSE Zeros(n) \o SubSeq(a, 1, Len(a) - n)
Sar(a, n) == LET f == [i \in 1..(IF n > Len(a) THEN Len(a) ELSE n) |-> a[1]] IN
             IF n >= Len(a) THEN f ELSE f \o SubSeq(a, 1, Len(a) - n)

(* Shift amounts are read as unsigned; anything from the width on saturates. *)
Amount(b, w) ==
  LET hi == SubSeq(b, 1, Len(b) - 20) lo == IF Len(b) > 20 THEN SubSeq(b, Len(b) - 19, Len(b)) ELSE b
  IN IF Len(b) > 20 /\ \E i \in DOMAIN hi : hi[i] = 1 THEN w + 1
     ELSE FoldLeft(LAMBDA x, y : 2 * x + y, 0, lo)

(* w bit product of a and b, both already fitted to w bits. *)
Mul(a, b, w) ==
  LET rb == Rev(b) IN
  FoldLeft(LAMBDA acc, i : IF rb[i] = 1 THEN Add(acc, Shl(a, i - 1)) ELSE acc,
           Zeros(w), [i \in DOMAIN rb |-> i])

LtU(a, b) ==
  LET d == {i \in DOMAIN a : a[i] # b[i]} IN
  d # {} /\ LET m == CHOOSE i \in d : \A j \in d : i <= j IN a[m] < b[m]
Lt(a, b, k) == IF k = "s" /\ a[1] # b[1] THEN a[1] = 1 ELSE LtU(a, b)

IsZero(a) == \A i \in DOMAIN a : a[i] = 0
Bit(x) == <<IF x THEN 1 ELSE 0>>
(* Division by 2^e, rounding towards zero, and its remainder. *)
DivP(a, e, k) ==
  IF k = "u" THEN Shr(a, e)
  ELSE IF Neg(a) THEN Negate(Shr(Negate(a), e)) ELSE Shr(a, e)
ModP(a, e, k) ==
  LET low(x) == Zeros(Len(x) - e) \o SubSeq(x, Len(x) - e + 1, Len(x)) IN
  IF k = "s" /\ Neg(a) THEN Negate(low(Negate(a))) ELSE low(a)

Apply(r) ==
  LET a == r.a b == r.b k == r.k w == r.rw IN
  CASE r.op = "+" -> Add(Fit(a, w, k), Fit(b, w, k))
    [] r.op = "-" -> Sub(Fit(a, w, k), Fit(b, w, k))
    [] r.op = "*" -> Mul(Fit(a, w, k), Fit(b, w, k), w)
    [] r.op = "+." -> Add(a, b)
    [] r.op = "-." -> Sub(a, b)
    [] r.op = "&" -> [i \in DOMAIN a |-> a[i] * b[i]]
    [] r.op = "|" -> [i \in DOMAIN a |-> IF a[i] + b[i] > 0 THEN 1 ELSE 0]
    [] r.op = "^" -> [i \in DOMAIN a |-> (a[i] + b[i]) % 2]
    [] r.op = "<<" -> Shl(a, Amount(b, Len(a)))
    [] r.op = ">>" -> Shr(a, Amount(b, Len(a)))
    [] r.op = ">>>" -> Sar(a, Amount(b, Len(a)))
    [] r.op = "==" -> Bit(a = b)
    [] r.op = "!=" -> Bit(a # b)
    [] r.op = "<" -> Bit(Lt(a, b, k))
    [] r.op = ">" -> Bit(Lt(b, a, k))
    [] r.op = "<=" -> Bit(~Lt(b, a, k))
    [] r.op = ">=" -> Bit(~Lt(a, b, k))
    [] r.op = "concat" -> a \o b
    [] r.op = "~" -> Inv(a)
    [] r.op = "-u" -> Negate(a)
    [] r.op = "trunc" -> Fit(a, w, k)
    [] r.op = "ext" -> Fit(a, w, k)
    [] r.op = "/" -> DivP(a, r.e, k)
    [] r.op = "%" -> ModP(a, r.e, k)
    [] r.op = "lit" -> r.b
=============================================================================
