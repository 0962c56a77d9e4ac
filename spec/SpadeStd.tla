------------------------------ MODULE SpadeStd ------------------------------
(* What the standard library documents.  Integers are bit sequences, most   *)
(* significant bit first; bools 0 or 1; arrays and tuples sequences;        *)
(* options sequences of length 0 or 1.  A run is one instance of a function *)
(* with rows of arguments and observed results; for functions with state a  *)
(* row is a history of arguments (`st` counts its clock edges).             *)
EXTENDS WideArith, Naturals, FiniteSets, Json, IOUtils

Has(r, f) == f \in DOMAIN r
B(b) == IF b THEN 1 ELSE 0
RevBits(x) == Reverse(x)
(* n as w bits *)
RECURSIVE Bits(_, _), Num(_)
Bits(n, w) == IF w = 0 THEN <<>> ELSE Bits(n \div 2, w - 1) \o <<n % 2>>
Num(x) == IF x = <<>> THEN 0 ELSE 2 * Num(Front(x)) + x[Len(x)]
BitsFor(n) == CHOOSE w \in 0..31 : 2^w > n /\ \A v \in 0..w - 1 : 2^v <= n

(***************************** function arguments ****************************)
F1(f, x) == CASE f.op = "addc" -> Add(x, f.c)
              [] f.op = "xor" -> [i \in DOMAIN x |-> (x[i] + f.c[i]) % 2]
              [] f.op = "pair" -> <<x, Inv(x)>>
              [] f.op = "gt" -> B(LtU(f.c, x))
              [] f.op = "eq" -> B(x = f.c)
              [] f.op = "lsb" -> x[Len(x)]
              [] f.op = "opt" -> IF LtU(f.c, x) THEN <<Add(x, f.c)>> ELSE <<>>
F2(f, a, x) == CASE f.op = "sub" -> Sub(a, x)
                 [] f.op = "mix" -> Add(Add(a, a), x)
                 [] f.op = "first" -> a
                 [] f.op = "second" -> x
                 [] f.op = "nei" -> B(a = 1 /\ x # f.c)
                 [] f.op = "cnt" -> IF LtU(f.c, x) THEN Add(a, Bits(1, Len(a))) ELSE a

(********************************** arrays ***********************************)
Map(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]
Fold(s, a, f) == FoldLeft(LAMBDA x, y : F2(f, x, y), a, s)
RECURSIVE Iter(_, _, _), Flat(_)
Iter(f, x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o Iter(f, F1(f, x), n - 1)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Inter(l, r) == Flat([i \in DOMAIN l |-> <<l[i], r[i]>>])
Chunks(s, n) == [i \in 1..Len(s) \div n |-> SubSeq(s, (i - 1) * n + 1, i * n)]
Windows(s, m) == [i \in 1..Len(s) - m + 1 |-> SubSeq(s, i, i + m - 1)]
Parity(s) == FoldLeft(LAMBDA x, y : (x + y) % 2, 0, s)
And(s) == B(\A i \in DOMAIN s : s[i] = 1)
Or(s) == B(\E i \in DOMAIN s : s[i] = 1)

(********************************** numbers **********************************)
Gray(x) == [i \in DOMAIN x |-> IF i = 1 THEN x[1] ELSE (x[i] + x[i - 1]) % 2]
UnGray(x) == [i \in DOMAIN x |-> Parity(SubSeq(x, 1, i))]
Abs(x) == IF Neg(x) THEN Negate(x) ELSE x
MaxOf(a, b, k) == IF Lt(a, b, k) THEN b ELSE a
MinOf(a, b, k) == IF Lt(a, b, k) THEN a ELSE b
Bytes(x) == [i \in 1..Len(x) \div 8 |-> SubSeq(x, (i - 1) * 8 + 1, i * 8)]     \* big endian
Swap(s) == Front(Front(s)) \o <<Last(s), s[Len(s) - 1]>>
(* Division that rounds towards zero; the remainder has the dividend's sign. *)
DivT(a, b, k) == LET x == IF k = "s" /\ Neg(a) THEN -Num(Negate(a)) ELSE Num(a)
                     y == IF k = "s" /\ Neg(b) THEN -Num(Negate(b)) ELSE Num(b)
                     m(v) == IF v < 0 THEN -v ELSE v
                     q == IF (x < 0) = (y < 0) THEN m(x) \div m(y) ELSE -(m(x) \div m(y))
                     w(v) == Bits(v % 2^Len(a), Len(a))
                 IN <<w(q), w(x - q * y)>>

(******************************* with a history *******************************)
(* h: one record of arguments for every clock edge, the current one last.    *)
Somes(h) == Flat([i \in DOMAIN h |-> h[i][1]])           \* the values seen
SinceReset(h) == LET z == {i \in 1..Len(h) - 1 : h[i][2] = 1} IN
                 IF z = {} THEN h ELSE SubSeq(h, 1 + CHOOSE i \in z : \A j \in z : j <= i, Len(h))

Seq1(c, h) ==
  LET now == h[Len(h)] IN
  CASE c.fn = "rising_edge" -> B(now[1] = 1 /\ h[Len(h) - 1][1] = 0)
    [] c.fn = "falling_edge" -> B(now[1] = 0 /\ h[Len(h) - 1][1] = 1)
    [] c.fn = "padded_sliding_window" ->
         IF now[1] = <<>> THEN <<>>
         ELSE LET s == Somes(SinceReset(h)) IN
              <<[i \in 1..c.n |-> IF i <= Len(s) THEN s[Len(s) - i + 1] ELSE c.d]>>
    [] c.fn = "chunks" ->
         LET s == Somes(SinceReset(h)) IN
         IF now[1] = <<>> \/ Len(s) % c.n # 0 THEN <<>> ELSE <<SubSeq(s, Len(s) - c.n + 1, Len(s))>>
    [] c.fn = "pmap" -> LET o == h[Len(h) - c.n][1] IN IF o = <<>> THEN <<>> ELSE <<F1(c.f, o[1])>>
    [] c.fn = "bram" ->       \* <<write option, write address, read address>>
         LET rd == h[Len(h) - 1][3]
             w == {i \in 1..Len(h) - 2 : h[i][1] # <<>> /\ h[i][2] = rd}
         IN h[CHOOSE i \in w : \A j \in w : j <= i][1][1]

Fn(c, a) ==
  CASE c.fn = "unfold" -> Iter(c.f, a[1], c.n)
    [] c.fn \in {"interleave", "interleave_num"} ->
         IF c.fn = "interleave" THEN Inter(a[1], a[2]) ELSE RevBits(Inter(RevBits(a[1]), RevBits(a[2])))
    [] c.fn = "zip" -> [i \in DOMAIN a[1] |-> <<a[1][i], a[2][i]>>]
    [] c.fn = "unzip" -> <<Map(a[1], LAMBDA x : x[1]), Map(a[1], LAMBDA x : x[2])>>
    [] c.fn = "all" -> B(\A i \in DOMAIN a[1] : F1(c.f, a[1][i]) = 1)
    [] c.fn = "any" -> B(\E i \in DOMAIN a[1] : F1(c.f, a[1][i]) = 1)
    [] c.fn = "chunks_of" -> Chunks(a[1], c.n)
    [] c.fn \in {"concat", "concat_num"} -> a[1] \o a[2]
    [] c.fn = "reversed" -> Reverse(a[1])
    [] c.fn = "fold" -> Fold(a[1], a[2], c.f)
    [] c.fn = "reduce" -> Fold(Tail(a[1]), Head(a[1]), c.f)
    [] c.fn = "map" -> Map(a[1], LAMBDA x : F1(c.f, x))
    [] c.fn = "push_back" -> Append(a[1], a[2])
    [] c.fn = "push_front" -> <<a[2]>> \o a[1]
    [] c.fn = "shift_back" -> Append(Tail(a[1]), a[2])
    [] c.fn = "shift_front" -> <<a[2]>> \o Front(a[1])
    [] c.fn = "sliding_window" -> Windows(a[1], c.n)
    [] c.fn = "split_at" -> <<SubSeq(a[1], 1, c.n), SubSeq(a[1], c.n + 1, Len(a[1]))>>
    [] c.fn = "len" -> Bits(Len(a[1]), BitsFor(Len(a[1])))
    [] c.fn = "first" -> Head(a[1])
    [] c.fn = "last" -> Last(a[1])
    [] c.fn = "flatten" -> Flat(a[1])
    [] c.fn = "reduce_and" -> And(a[1])
    [] c.fn = "reduce_or" -> Or(a[1])
    [] c.fn = "reduce_xor" -> Parity(a[1])
    [] c.fn = "zero" -> c.d
    [] c.fn = "same" -> a[1]
    [] c.fn \in {"to_bits", "from_bits"} -> Reverse(a[1])       \* element 0 is the least significant bit
    [] c.fn = "b2u" -> <<a[1]>>
    [] c.fn = "widen" -> Fit(a[1], c.n, c.k)
    [] c.fn = "trunc" -> Fit(a[1], c.n, "u")
    [] c.fn = "le" -> Reverse(Bytes(a[1]))
    [] c.fn = "be" -> Bytes(a[1])
    [] c.fn = "german" -> IF Len(a[1]) <= 8 THEN Bytes(a[1]) ELSE Swap(Bytes(a[1]))
    [] c.fn = "abs" -> Abs(a[1])
    [] c.fn = "max" -> MaxOf(a[1], a[2], c.k)
    [] c.fn = "min" -> MinOf(a[1], a[2], c.k)
    [] c.fn = "order" -> <<MinOf(a[1], a[2], "s"), MaxOf(a[1], a[2], "s")>>
    [] c.fn = "gray" -> Gray(a[1])
    [] c.fn = "ungray" -> UnGray(a[1])
    [] c.fn = "msb" -> Head(a[1])
    [] c.fn = "lsb" -> Last(a[1])
    [] c.fn = "div" -> DivT(a[1], a[2], c.k)[1]
    [] c.fn = "mod" -> DivT(a[1], a[2], c.k)[2]
    [] c.fn = "is_some" -> B(a[1] # <<>>)
    [] c.fn = "is_none" -> B(a[1] = <<>>)
    [] c.fn = "unwrap_or" -> IF a[1] = <<>> THEN a[2] ELSE a[1][1]
    [] c.fn = "opt_map" -> IF a[1] = <<>> THEN <<>> ELSE <<F1(c.f, a[1][1])>>
    [] c.fn = "and_then" -> IF a[1] = <<>> THEN <<>> ELSE F1(c.f, a[1][1])
    [] c.fn = "eq" -> B(a[1] = a[2])
    [] c.fn = "ne" -> B(a[1] # a[2])

Runs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES pid, k
Hist(p, i) == [j \in 1..p.rows[i].upto |-> p.rows[j].a]
(* Before the first reset, write or edge there is nothing to be said.      *)
Determined(c, h) ==
  CASE c.fn \in {"rising_edge", "falling_edge"} -> Len(h) > 1
    [] c.fn \in {"padded_sliding_window", "chunks"} -> \E i \in 1..Len(h) - 1 : h[i][2] = 1
    [] c.fn = "pmap" -> Len(h) > c.n
    [] c.fn = "bram" -> Len(h) > 1 /\ \E i \in 1..Len(h) - 2 : h[i][1] # <<>> /\ h[i][2] = h[Len(h) - 1][3]
RowOk(p, i) ==
  LET c == p.c r == p.rows[i] IN
  IF c.seq THEN LET h == Hist(p, i) IN Determined(c, h) => r.def /\ r.v = Seq1(c, h)
  ELSE r.def /\ r.v = Fn(c, r.a)
Init == pid \in 1..Len(Runs) /\ k = 1
Next ==
  /\ k <= Len(Runs[pid].rows)
  /\ LET p == Runs[pid] IN
     IF RowOk(p, k) THEN TRUE
     ELSE PrintT("REJECT " \o ToJson(<<p.id, k, IF p.c.seq THEN Seq1(p.c, Hist(p, k)) ELSE Fn(p.c, p.rows[k].a), p.rows[k].v>>)) /\ FALSE
  /\ k' = k + 1 /\ UNCHANGED pid
Spec == Init /\ [][Next]_<<pid, k>>

(* Facts about the functions themselves. *)
Words(w) == [1..w -> {0, 1}]
ASSUME \A w \in 1..6 : \A x \in Words(w) : /\ UnGray(Gray(x)) = x
                                           /\ Cardinality({i \in 1..w : Gray(x)[i] # Gray(Add(x, Bits(1, w)))[i]}) = 1
                                           /\ Num(Abs(x)) <= 2^(w - 1)
=============================================================================
