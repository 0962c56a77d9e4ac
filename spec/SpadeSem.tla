------------------------------ MODULE SpadeSem ------------------------------
(***************************************************************************)
(* Executable semantics of a core of the Spade hardware description       *)
(* language.  A program is a JSON abstract syntax tree; its meaning is a   *)
(* synchronous transition system whose state holds the registers, pipeline *)
(* registers and memories of every unit instance.                          *)
(*                                                                         *)
(*   Ev(e, env, c)            value of expression e                        *)
(*   RunUnit(un, args, ...)   value, next state and effects of an instance *)
(*   Settle / Tick            one evaluation / one clock edge of the top   *)
(*                                                                         *)
(* Values are tagged tuples:                                               *)
(*   <<"u">> undefined   <<"i",n>> integer   <<"b",TRUE>> bool             *)
(*   <<"t",seq>> tuple, struct or array      <<"e",k,seq>> enum variant k  *)
(*   <<"c",name>> clock  <<"w",id>> writable end of a wire                 *)
(*   <<"l",lambda,env,ts>> lambda            <<"m",id>> memory             *)
(*                                                                         *)
(* Types are tagged tuples <<"u",n>> <<"s",n>> <<"b">> <<"ck">> <<"t",ts>> *)
(* <<"a",t,n>> <<"st",name,args>> <<"en",name,args>> <<"inv",t>>           *)
(* <<"tv",name>> where, before Conc, numbers are <<"#",k>>, <<"tv",name>>  *)
(* or <<op,a,b>>.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise, SequencesExt, Json

U == <<"u">>
I(n) == <<"i", n>>
B(b) == <<"b", b>>
T(s) == <<"t", s>>
Unit == <<"t", <<>> >>

Has(r, f) == f \in DOMAIN r

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, x : Max2(a, x), 0, s)
FlatSeq(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
EmptyFn == [x \in {} |-> x]
Fill(n, x) == [i \in 1..n |-> x]

RECURSIVE Log2Ceil(_)
Log2Ceil(n) == IF n <= 1 THEN 0 ELSE 1 + Log2Ceil((n + 1) \div 2)
RECURSIVE BitsFor(_)
BitsFor(n) == IF n = 0 THEN 0 ELSE 1 + BitsFor(n \div 2)

(* Division rounding towards zero, as the hardware operators do. *)
TDiv(a, b) == LET q == (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
              IN IF (a < 0) = (b < 0) THEN q ELSE -q
TMod(a, b) == a - b * TDiv(a, b)
CDiv(a, b) == a \div b

----------------------------------------------------------------------------
(* Const generics *)
RECURSIVE Num(_, _)
Num(x, ts) ==
  CASE x[1] = "#"  -> x[2]
    [] x[1] = "tv" -> ts[x[2]][2]
    [] x[1] = "+"  -> Num(x[2], ts) + Num(x[3], ts)
    [] x[1] = "-"  -> Num(x[2], ts) - Num(x[3], ts)
    [] x[1] = "*"  -> Num(x[2], ts) * Num(x[3], ts)
    [] x[1] = "/"  -> TDiv(Num(x[2], ts), Num(x[3], ts))
    [] x[1] = "%"  -> TMod(Num(x[2], ts), Num(x[3], ts))
    [] x[1] = "neg" -> -Num(x[2], ts)
    [] x[1] = "bits" -> LET v == Num(x[2], ts) IN BitsFor(IF v < 0 THEN -v ELSE v)
    [] x[1] = "ibits" -> LET v == Num(x[2], ts) IN 1 + BitsFor(IF v < 0 THEN -v - 1 ELSE v)

RECURSIVE CondOf(_, _)
CondOf(x, ts) ==
  CASE x[1] = "==" -> Num(x[2], ts) = Num(x[3], ts)
    [] x[1] = "!=" -> Num(x[2], ts) # Num(x[3], ts)
    [] x[1] = "<"  -> Num(x[2], ts) < Num(x[3], ts)
    [] x[1] = "<=" -> Num(x[2], ts) <= Num(x[3], ts)
    [] x[1] = ">"  -> Num(x[2], ts) > Num(x[3], ts)
    [] x[1] = ">=" -> Num(x[2], ts) >= Num(x[3], ts)
    [] x[1] = "&&" -> CondOf(x[2], ts) /\ CondOf(x[3], ts)
    [] x[1] = "||" -> CondOf(x[2], ts) \/ CondOf(x[3], ts)
    [] x[1] = "^^" -> CondOf(x[2], ts) # CondOf(x[3], ts)
    [] x[1] = "!" -> ~CondOf(x[2], ts)
    [] x[1] = "b==" -> CondOf(x[2], ts) = CondOf(x[3], ts)
    [] x[1] = "b!=" -> CondOf(x[2], ts) # CondOf(x[3], ts)

(* Substitute type variables and evaluate all numbers. *)
RECURSIVE Conc(_, _)
Conc(t, ts) ==
  CASE t[1] \in {"u", "s"} -> <<t[1], Num(t[2], ts)>>
    [] t[1] \in {"b", "ck"} -> t
    [] t[1] = "t"  -> <<"t", TLCEval([i \in DOMAIN t[2] |-> Conc(t[2][i], ts)])>>
    [] t[1] = "a"  -> <<"a", Conc(t[2], ts), Num(t[3], ts)>>
    [] t[1] \in {"st", "en"} ->
         <<t[1], t[2], TLCEval([i \in DOMAIN t[3] |-> Conc(t[3][i], ts)])>>
    [] t[1] = "inv" -> <<"inv", Conc(t[2], ts)>>
    [] t[1] = "tv" -> ts[t[2]]
    [] t[1] = "fn" -> t
    [] OTHER -> <<"#", Num(t, ts)>>       \* a number used as a type argument

BindTs(names, args) == TLCEval([n \in {names[i] : i \in DOMAIN names} |->
                         args[CHOOSE i \in DOMAIN names : names[i] = n]])

(* Field types of a concrete struct type, or of variant k of an enum. *)
FieldTypes(t, p) ==
  LET d == p.structs[t[2]] ts == BindTs(d.tp, t[3])
  IN TLCEval([i \in DOMAIN d.fs |-> Conc(d.fs[i][2], ts)])
VariantTypes(t, k, p) ==
  LET d == p.enums[t[2]] ts == BindTs(d.tp, t[3]) IN
  TLCEval([i \in DOMAIN d.vs[k][2] |-> Conc(d.vs[k][2][i][2], ts)])

TagWidth(t, p) == Log2Ceil(Len(p.enums[t[2]].vs))

RECURSIVE Width(_, _)
Width(t, p) ==
  CASE t[1] \in {"u", "s"} -> t[2]
    [] t[1] \in {"b", "ck"} -> 1
    [] t[1] = "t"  -> SumSeq([i \in DOMAIN t[2] |-> Width(t[2][i], p)])
    [] t[1] = "a"  -> t[3] * Width(t[2], p)
    [] t[1] = "st" -> LET f == FieldTypes(t, p) IN SumSeq([i \in DOMAIN f |-> Width(f[i], p)])
    [] t[1] = "en" ->
         TagWidth(t, p) + MaxSeq([k \in DOMAIN p.enums[t[2]].vs |->
            LET f == VariantTypes(t, k, p) IN SumSeq([i \in DOMAIN f |-> Width(f[i], p)])])
    [] t[1] = "inv" -> 0

----------------------------------------------------------------------------
(* Bit layout.  Bits are sequences, most significant first: 0, 1, 2 = x.   *)
UBits(n, w) == [i \in 1..w |-> (n \div 2^(w - i)) % 2]
SBits(n, w) == IF n >= 0 THEN UBits(n, w)
               ELSE LET m == -1 - n IN [i \in 1..w |-> 1 - ((m \div 2^(w - i)) % 2)]
(* Width-aware halves keep 2^(w-i) inside TLC's 32 bit integers. *)
NatBits(n, w) == IF w <= 30 THEN UBits(n, w) ELSE Fill(w - 30, 0) \o UBits(n, 30)
IntBits(n, w) == IF w <= 30 THEN SBits(n, w)
                 ELSE Fill(w - 30, IF n < 0 THEN 1 ELSE 0) \o SBits(n, 30)

RECURSIVE Encode(_, _, _)
Encode(v, t, p) ==
  IF v[1] = "u" THEN Fill(Width(t, p), 2) ELSE
  CASE t[1] = "u" -> NatBits(v[2], t[2])
    [] t[1] = "s" -> IntBits(v[2], t[2])
    [] t[1] = "b" -> <<IF v[2] THEN 1 ELSE 0>>
    [] t[1] = "ck" -> <<2>>
    [] t[1] = "t" -> FlatSeq([i \in DOMAIN t[2] |-> Encode(v[2][i], t[2][i], p)])
    [] t[1] = "a" -> FlatSeq([i \in 1..t[3] |-> Encode(v[2][t[3] + 1 - i], t[2], p)])
    [] t[1] = "st" -> LET f == FieldTypes(t, p) IN
                      FlatSeq([i \in DOMAIN f |-> Encode(v[2][i], f[i], p)])
    [] t[1] = "en" ->
         LET f == VariantTypes(t, v[2], p)
             pay == FlatSeq([i \in DOMAIN f |-> Encode(v[3][i], f[i], p)])
             tag == NatBits(v[2] - 1, TagWidth(t, p))
         IN tag \o pay \o Fill(Width(t, p) - Len(tag) - Len(pay), 2)

BitsToNat(b) == FoldLeft(LAMBDA a, x : 2 * a + x, 0, b)
Known(b) == \A i \in DOMAIN b : b[i] \in {0, 1}

RECURSIVE Decode(_, _, _)
DecodeSeq(b, f, p) ==      \* consecutive fields, first at the top
  LET w == TLCEval([i \in DOMAIN f |-> Width(f[i], p)])
      off == TLCEval([i \in DOMAIN f |-> SumSeq(SubSeq(w, 1, i - 1))])
  IN TLCEval([i \in DOMAIN f |-> Decode(SubSeq(b, off[i] + 1, off[i] + w[i]), f[i], p)])
Decode(b, t, p) ==
  CASE t[1] = "u" -> IF Known(b) THEN I(BitsToNat(b)) ELSE U
    [] t[1] = "s" -> IF ~Known(b) THEN U
                     ELSE IF b = <<>> THEN I(0)
                     ELSE IF b[1] = 1
                          THEN I(-1 - BitsToNat([i \in DOMAIN b |-> 1 - b[i]]))
                          ELSE I(BitsToNat(b))
    [] t[1] = "b" -> IF Known(b) THEN B(b[1] = 1) ELSE U
    [] t[1] = "ck" -> U
    [] t[1] = "t" -> T(DecodeSeq(b, t[2], p))
    [] t[1] = "st" -> T(DecodeSeq(b, FieldTypes(t, p), p))
    [] t[1] = "a" -> LET s == DecodeSeq(b, Fill(t[3], t[2]), p) IN T(Reverse(s))
    [] t[1] = "en" ->
         LET tw == TagWidth(t, p) tb == SubSeq(b, 1, tw) IN
         IF ~Known(tb) THEN U
         ELSE LET k == BitsToNat(tb) + 1 IN
              IF k > Len(p.enums[t[2]].vs) THEN U
              ELSE <<"e", k, DecodeSeq(SubSeq(b, tw + 1, Len(b)), VariantTypes(t, k, p), p)>>

(* The observed bits may be anything where the model leaves them undefined. *)
BitsAgree(model, seen) ==
  /\ Len(model) = Len(seen)
  /\ \A i \in DOMAIN model : model[i] # 2 => seen[i] = model[i]

RECURSIVE Defined(_)
Defined(v) == CASE v[1] = "u" -> FALSE
                [] v[1] = "t" -> \A i \in DOMAIN v[2] : Defined(v[2][i])
                [] v[1] = "e" -> \A i \in DOMAIN v[3] : Defined(v[3][i])
                [] OTHER -> TRUE

RECURSIVE UndefOf(_, _)      \* the undefined value, aggregates kept apart
UndefOf(t, p) == CASE t[1] = "t" -> T(TLCEval([i \in DOMAIN t[2] |-> UndefOf(t[2][i], p)]))
                   [] t[1] = "a" -> T(Fill(t[3], UndefOf(t[2], p)))
                   [] t[1] = "st" -> LET f == FieldTypes(t, p) IN
                                     T(TLCEval([i \in DOMAIN f |-> UndefOf(f[i], p)]))
                   [] OTHER -> U

----------------------------------------------------------------------------
(* Integer arithmetic *)
WrapU(v, n) == IF n >= 31 THEN v ELSE v % (2^n)
WrapS(v, n) == IF n = 0 THEN 0 ELSE IF n >= 31 THEN v
               ELSE ((v + 2^(n-1)) % (2^n)) - 2^(n-1)
Wrap(v, t) == IF t[1] = "u" THEN WrapU(v, t[2]) ELSE WrapS(v, t[2])
AsNat(v, n) == IF v < 0 THEN v + 2^n ELSE v          \* the bit pattern of v

Cmp(op, a, b) == CASE op = "<" -> a < b [] op = "<=" -> a <= b
                   [] op = ">" -> a > b [] op = ">=" -> a >= b

(* t: type of the left operand (concrete). *)
IntBin(op, a, b, t) ==
  CASE op = "+"  -> I(a + b)
    [] op = "-"  -> I(IF t[1] = "u" THEN WrapU(a - b, t[2] + 1) ELSE a - b)
    [] op = "*"  -> I(a * b)
    [] op = "+." -> I(Wrap(a + b, t))
    [] op = "-." -> I(Wrap(a - b, t))
    [] op = "*." -> I(Wrap(a * b, t))
    [] op = "/"  -> IF b = 0 THEN U ELSE I(Wrap(TDiv(a, b), t))
    [] op = "%"  -> IF b = 0 THEN U ELSE I(TMod(a, b))
    [] op = "&"  -> I(Wrap(AsNat(a, t[2]) & AsNat(b, t[2]), t))
    [] op = "|"  -> I(Wrap(AsNat(a, t[2]) | AsNat(b, t[2]), t))
    [] op = "^"  -> I(Wrap(AsNat(a, t[2]) ^^ AsNat(b, t[2]), t))
    [] op \in {"<<", "<<."} ->
         LET s == AsNat(b, t[2]) IN
         I(IF s >= t[2] THEN 0 ELSE Wrap((AsNat(a, t[2]) % 2^(t[2] - s)) * 2^s, t))
    [] op \in {">>", ">>."} ->
         LET s == AsNat(b, t[2]) IN
         I(IF s >= t[2] THEN 0 ELSE Wrap(AsNat(a, t[2]) \div 2^s, t))
    [] op = ">>>" ->
         LET s == AsNat(b, t[2]) x == WrapS(a, t[2]) IN    \* replicates the top bit
         I(Wrap(IF s >= t[2] THEN (IF x < 0 THEN -1 ELSE 0) ELSE x \div 2^s, t))

AndV(a, b) == IF a = B(FALSE) \/ b = B(FALSE) THEN B(FALSE)
              ELSE IF a[1] = "u" \/ b[1] = "u" THEN U ELSE B(TRUE)
NotV(a) == IF a[1] = "u" THEN U ELSE B(~a[2])

BoolSeqOp(op, a, b) == T(TLCEval([i \in DOMAIN a |->
   IF a[i][1] = "u" \/ b[i][1] = "u" THEN U
   ELSE CASE op = "&" -> B(a[i][2] /\ b[i][2])
          [] op = "|" -> B(a[i][2] \/ b[i][2])
          [] op = "^" -> B(a[i][2] # b[i][2])]))

BinV(op, a, b, t) ==
  CASE op = "&&" -> AndV(a, b)
    [] op = "||" -> NotV(AndV(NotV(a), NotV(b)))
    [] op \in {"==", "!="} -> IF Defined(a) /\ Defined(b) THEN B((a = b) = (op = "==")) ELSE U
    [] a[1] = "u" \/ b[1] = "u" -> U
    [] op = "^^" -> B(a[2] # b[2])
    [] op \in {"<", "<=", ">", ">="} -> B(Cmp(op, a[2], b[2]))
    [] t[1] = "b" -> BoolSeqOp(op, <<a>>, <<b>>)[2][1]
    [] t[1] = "a" -> BoolSeqOp(op, a[2], b[2])
    [] OTHER -> IntBin(op, a[2], b[2], t)

UnV(op, a, t) ==
  CASE a[1] = "u" -> U
    [] op = "!" -> B(~a[2])
    [] op = "~" /\ t[1] = "a" -> T(TLCEval([i \in DOMAIN a[2] |-> NotV(a[2][i])]))
    [] op = "~" -> I(IF t[1] = "u" THEN 2^t[2] - 1 - a[2] ELSE -1 - a[2])
    [] op \in {"-", "-."} -> I(Wrap(-a[2], t))

----------------------------------------------------------------------------
(* Pattern matching: [r |-> "y" | "n" | "u", b |-> bindings] *)
Yes(b) == [r |-> "y", b |-> b]
No == [r |-> "n", b |-> EmptyFn]
Unk == [r |-> "u", b |-> EmptyFn]

FieldIx(d, f) == CHOOSE i \in DOMAIN d : d[i][1] = f

RECURSIVE PM(_, _, _)
PMAll(ps, vs, p) ==
  LET rs == TLCEval([i \in DOMAIN ps |-> PM(ps[i], vs[i], p)]) IN
  IF \E i \in DOMAIN rs : rs[i].r = "n" THEN No
  ELSE IF \E i \in DOMAIN rs : rs[i].r = "u"
       THEN [Unk EXCEPT !.b = FoldLeft(LAMBDA a, x : x.b @@ a, EmptyFn, rs)]
  ELSE Yes(FoldLeft(LAMBDA a, x : x.b @@ a, EmptyFn, rs))
PM(q, v, p) ==
  CASE q.k = "pw" -> Yes(EmptyFn)
    [] q.k = "pn" -> Yes(q.n :> v)
    [] q.k = "pat" -> LET r == PM(q.p, v, p) IN [r EXCEPT !.b = (q.n :> v) @@ @]
    [] q.k = "pi" -> IF v[1] = "u" THEN Unk ELSE IF v[2] = q.v THEN Yes(EmptyFn) ELSE No
    [] q.k = "pb" -> IF v[1] = "u" THEN Unk ELSE IF v[2] = q.v THEN Yes(EmptyFn) ELSE No
    [] q.k = "pt" -> PMAll(q.ps, IF v[1] = "u" THEN Fill(Len(q.ps), U) ELSE v[2], p)
    [] q.k = "ps" -> LET d == p.structs[q.s].fs IN
                     PMAll([i \in DOMAIN q.fs |-> q.fs[i][2]],
                           [i \in DOMAIN q.fs |->
                              IF v[1] = "u" THEN U ELSE v[2][FieldIx(d, q.fs[i][1])]], p)
    [] q.k = "pe" -> IF v[1] = "u"
                     THEN [PMAll(q.ps, Fill(Len(q.ps), U), p) EXCEPT !.r =
                              IF Len(p.enums[q.en].vs) = 1 THEN @ ELSE "u"]
                     ELSE IF v[2] # q.v THEN No ELSE PMAll(q.ps, v[3], p)

----------------------------------------------------------------------------
(* Matching an impl target type against a concrete type. *)
RECURSIVE TM(_, _)
NoT == [ok |-> FALSE, b |-> EmptyFn]
YesT(b) == [ok |-> TRUE, b |-> b]
JoinT(rs) == IF \E i \in DOMAIN rs : ~rs[i].ok THEN NoT
             ELSE YesT(FoldLeft(LAMBDA a, x : x.b @@ a, EmptyFn, rs))
TM(q, t) ==        \* q: type with variables, t: concrete type
  CASE q[1] = "tv" -> YesT(q[2] :> t)
    [] q[1] = "#"  -> IF t = q THEN YesT(EmptyFn) ELSE NoT
    [] q[1] # t[1] -> NoT
    [] q[1] \in {"u", "s"} -> IF q[2][1] = "tv" THEN YesT(q[2][2] :> <<"#", t[2]>>)
                              ELSE IF q[2][2] = t[2] THEN YesT(EmptyFn) ELSE NoT
    [] q[1] \in {"b", "ck"} -> YesT(EmptyFn)
    [] q[1] = "t" -> IF Len(q[2]) # Len(t[2]) THEN NoT
                     ELSE JoinT([i \in DOMAIN q[2] |-> TM(q[2][i], t[2][i])])
    [] q[1] = "a" -> JoinT(<<TM(q[2], t[2]),
                       IF q[3][1] = "tv" THEN YesT(q[3][2] :> <<"#", t[3]>>)
                       ELSE IF q[3][2] = t[3] THEN YesT(EmptyFn) ELSE NoT>>)
    [] q[1] \in {"st", "en"} -> IF q[2] # t[2] THEN NoT
                     ELSE JoinT([i \in DOMAIN q[3] |-> TM(q[3][i], t[3][i])])

(* The impl of method m for concrete receiver type t. *)
FindImpl(p, m, t) ==
  LET ok == {i \in DOMAIN p.impls : Has(p.impls[i].ms, m) /\ TM(p.impls[i].ty, t).ok}
  IN IF Cardinality(ok) # 1 THEN Assert(FALSE, <<"impls", m, t, ok>>) ELSE CHOOSE i \in ok : TRUE

----------------------------------------------------------------------------
(* Wires.  Port(t, id) = <<forward end, backward end>> of a fresh port.    *)
FwGet(fw, id) == IF id \in DOMAIN fw THEN fw[id] ELSE U
RECURSIVE Port(_, _, _, _)
Port(t, id, fw, p) ==
  LET agg(f) ==
        LET s == TLCEval([i \in DOMAIN f |-> Port(f[i], id \o <<ToString(i)>>, fw, p)])
        IN <<T(TLCEval([i \in DOMAIN s |-> s[i][1]])), T(TLCEval([i \in DOMAIN s |-> s[i][2]]))>>
  IN CASE t[1] = "t"  -> agg(t[2])
       [] t[1] = "a"  -> agg(Fill(t[3], t[2]))
       [] t[1] = "st" -> agg(FieldTypes(t, p))
       [] t[1] = "inv" -> LET r == Port(t[2], id, fw, p) IN <<r[2], r[1]>>
       [] OTHER -> << FwGet(fw, id), <<"w", id>> >>

(* Effects of `set l = v`, both possibly aggregates of wires. *)
RECURSIVE SetW(_, _)
SetW(l, v) ==
  CASE l[1] = "w" -> l[2] :> v
    [] l[1] = "t" -> FoldLeft(LAMBDA a, x : x @@ a, EmptyFn,
                       TLCEval([i \in DOMAIN l[2] |->
                          SetW(l[2][i], IF v[1] = "u" THEN U ELSE v[2][i])]))
    [] OTHER -> IF v[1] = "w" THEN SetW(v, l)
                ELSE IF v[1] = "t" /\ l[1] = "u" THEN SetW(v, U) ELSE EmptyFn

----------------------------------------------------------------------------
(* Results of running code: next state, assertions, wires, forward values. *)
(*   nx : key -> [v, ck]   as : number of assertions failing, undecided     *)
NoEff == [nx |-> EmptyFn, as |-> <<0, 0>>, wr |-> EmptyFn]
AsPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Join(a, b) == [nx |-> a.nx @@ b.nx, as |-> AsPlus(a.as, b.as), wr |-> a.wr @@ b.wr]

StGet(c, key, dflt) == IF key \in DOMAIN c.st THEN c.st[key] ELSE dflt

RECURSIVE Ev(_, _, _), Col(_, _, _), RunBlock(_, _, _, _), RunUnit(_, _, _, _, _),
          RunPipe(_, _, _, _, _), CallL(_, _, _), Arms(_, _, _, _, _), StdFn(_, _, _, _), RunLam(_, _, _)

EvSeq(es, env, c) == TLCEval([i \in DOMAIN es |-> Ev(es[i], env, c)])

(* Named arguments: permute to parameter order. *)
ArgVals(e, ps, env, c) ==
  IF Has(e, "an")
  THEN LET vs == EvSeq(e.args, env, c) IN
       TLCEval([i \in DOMAIN ps |-> vs[CHOOSE j \in DOMAIN e.an : e.an[j] = ps[i].n]])
  ELSE EvSeq(e.args, env, c)

TaOf(e, c) == IF Has(e, "ta") THEN TLCEval([n \in DOMAIN e.ta |-> Conc(e.ta[n], c.ts)]) ELSE EmptyFn

(* Unit and type bindings of a call, resolving methods by receiver type. *)
Target(e, c) ==
  IF e.k \in {"mcall", "minst"}
  THEN LET t == Conc(e.rt, c.ts)
           im == c.p.impls[FindImpl(c.p, e.m, t)]
       IN [u |-> c.p.units[im.ms[e.m]], ts |-> TaOf(e, c) @@ TM(im.ty, t).b @@ ("Self" :> t)]
  ELSE [u |-> c.p.units[e.u], ts |-> TaOf(e, c)]

RunCall(e, env, c) ==
  LET tg == Target(e, c)
      vs == ArgVals(e, tg.u.params, env, c)
      path == IF Has(e, "id") THEN c.path \o <<e.id>> ELSE c.path
  IN RunUnit(tg.u, vs, tg.ts, path, c)

Ev(e, env, c) ==
  CASE e.k = "lit" -> I(e.v)
    [] e.k = "bool" -> B(e.v)
    [] e.k = "unit" -> Unit
    [] e.k = "nlit" -> I(Num(e.n, c.ts))
    [] e.k = "var" -> IF Has(env, e.n) THEN env[e.n]
                      ELSE FwGet(c.fw, c.path \o <<"~", e.n>>)
    [] e.k = "bin" -> BinV(e.op, Ev(e.l, env, c), Ev(e.r, env, c), Conc(e.t, c.ts))
    [] e.k = "un"  -> UnV(e.op, Ev(e.e, env, c), Conc(e.t, c.ts))
    [] e.k = "par" -> Ev(e.e, env, c)
    [] e.k = "if"  -> LET q == Ev(e.c, env, c) IN
                      IF q[1] = "u" THEN
                         LET a == Ev(e.a, env, c) IN
                         IF Defined(a) /\ a = Ev(e.b, env, c) THEN a ELSE U
                      ELSE IF q[2] THEN Ev(e.a, env, c) ELSE Ev(e.b, env, c)
    [] e.k = "gif" -> IF CondOf(e.c, c.ts) THEN Ev(e.a, env, c) ELSE Ev(e.b, env, c)
    [] e.k = "match" -> Arms(e.arms, 1, Ev(e.e, env, c), env, c)
    [] e.k = "iflet" -> LET r == PM(e.p, Ev(e.e, env, c), c.p) IN
                        (CASE r.r = "y" -> Ev(e.a, r.b @@ env, c)
                          [] r.r = "n" -> Ev(e.b, env, c)
                          [] r.r = "u" -> U)
    [] e.k \in {"tup", "arr"} -> T(EvSeq(e.es, env, c))
    [] e.k = "rep" -> T(Fill(Num(e.n, c.ts), Ev(e.e, env, c)))
    [] e.k = "str" -> LET d == c.p.structs[e.s].fs vs == EvSeq(e.es, env, c) IN
                      IF Has(e, "an")
                      THEN T(TLCEval([i \in DOMAIN d |->
                             vs[CHOOSE j \in DOMAIN e.an : e.an[j] = d[i][1]]]))
                      ELSE T(vs)
    [] e.k = "enm" -> <<"e", e.v, LET vs == EvSeq(e.es, env, c) IN
                        IF Has(e, "an")
                        THEN LET d == c.p.enums[e.en].vs[e.v][2] IN
                             TLCEval([i \in DOMAIN d |->
                               vs[CHOOSE j \in DOMAIN e.an : e.an[j] = d[i][1]]])
                        ELSE vs>>
    [] e.k = "tix" -> LET v == Ev(e.e, env, c) IN IF v[1] = "u" THEN U ELSE v[2][e.i + 1]
    [] e.k = "fld" -> LET v == Ev(e.e, env, c) IN
                      IF v[1] = "u" THEN U ELSE v[2][FieldIx(c.p.structs[e.s].fs, e.f)]
    [] e.k = "idx" -> LET v == Ev(e.e, env, c) i == Ev(e.i, env, c) IN
                      IF v[1] = "u" \/ i[1] = "u" THEN U
                      ELSE IF i[2] + 1 \in DOMAIN v[2] THEN v[2][i[2] + 1] ELSE U
    [] e.k = "rng" -> LET v == Ev(e.e, env, c) IN
                      IF v[1] = "u" THEN U
                      ELSE T(SubSeq(v[2], (IF Has(e, "a") THEN Num(e.a, c.ts) ELSE 0) + 1,
                                          IF Has(e, "b") THEN Num(e.b, c.ts) ELSE Len(v[2])))
    [] e.k = "blk" -> LET r == RunBlock(e.ss, env, c, e) IN Ev(e.e, r.env, r.c)
    [] e.k \in {"call", "mcall", "inst", "minst"} -> RunCall(e, env, c).v
    [] e.k = "lam" ->       \* a closure: code, captured values and type bindings
         <<"l", e, [n \in {e.fv[i] : i \in DOMAIN e.fv} \cap DOMAIN env |-> env[n]], c.ts>>
    [] e.k = "linst" -> RunLam(e, env, c).v
    [] e.k = "lcall" -> CallL(Ev(e.f, env, c), EvSeq(e.args, env, c), c)
    [] e.k = "std" -> StdFn(e, EvSeq(e.args, env, c), c, env)
    [] e.k = "port" -> LET r == Port(Conc(e.t, c.ts), c.path \o <<e.id>>, c.fw, c.p)
                       IN T(r)
    [] e.k \in {"ref", "cast"} -> Ev(e.e, env, c)
    [] e.k = "stgref" ->      \* stage(..).x, resolved to an absolute stage
         LET key == c.path \o <<"@", ToString(e.st), e.n>> IN FwGet(c.fw, key)
    [] e.k = "ready" -> FwGet(c.fw, c.path \o <<"rdy", ToString(c.stage)>>)
    [] e.k = "valid" -> FwGet(c.fw, c.path \o <<"vld", ToString(c.stage)>>)
    [] e.k = "mem" -> <<"m", c.path \o <<e.id>> >>
    [] e.k = "read" -> LET m == Ev(e.m, env, c) a == Ev(e.a, env, c) IN
                       IF a[1] = "u" THEN U
                       ELSE LET mv == StGet(c, m[2], FwGet(c.fw, m[2] \o <<"init">>)) IN
                            IF mv[1] = "u" \/ a[2] + 1 \notin DOMAIN mv[2] THEN U
                            ELSE mv[2][a[2] + 1]

Arms(arms, i, v, env, c) ==
  IF i > Len(arms) THEN U
  ELSE LET a == arms[i] r == PM(a.p, v, c.p) IN
       CASE r.r = "n" -> Arms(arms, i + 1, v, env, c)
         [] r.r = "u" -> U
         [] r.r = "y" ->
              IF Has(a, "g")
              THEN LET g == Ev(a.g, r.b @@ env, c) IN
                   CASE g[1] = "u" -> U
                     [] g[2] -> Ev(a.e, r.b @@ env, c)
                     [] OTHER -> Arms(arms, i + 1, v, env, c)
              ELSE Ev(a.e, r.b @@ env, c)

CallL(f, vs, c) ==      \* f = <<"l", node, env, ts>>
  IF f[1] = "u" THEN U ELSE
  LET ps == f[2].ps
      b == FoldLeft(LAMBDA a, i : PM(ps[i], vs[i], c.p).b @@ a, EmptyFn, [i \in DOMAIN ps |-> i])
  IN Ev(f[2].e, b @@ f[3], [c EXCEPT !.ts = f[4]])

(* An instance of a lambda entity or pipeline.  What it captures is not     *)
(* pipelined by the lambda's own stages.                                   *)
RunLam(e, env, c) ==
  LET f == Ev(e.f, env, c)
      vs == EvSeq(e.args, env, c)
      ck == Ev(e.ck, env, c)
  IN IF f[1] = "u" THEN [v |-> U] @@ NoEff
     ELSE LET n == f[2]
              b == FoldLeft(LAMBDA a, i : PM(n.ps[i], vs[i], c.p).b @@ a,
                            (n.clk :> ck) @@ f[3], [i \in DOMAIN n.ps |-> i])
              c2 == [c EXCEPT !.ts = f[4], !.path = @ \o <<e.id>>, !.stage = 0]
          IN IF n.kind = "pipeline"
             THEN RunPipe([ss |-> n.e.ss, e |-> n.e.e], b, ck, {n.clk} \cup DOMAIN f[3], c2)
             ELSE LET r == RunBlock(n.e.ss, b, c2, n.e)
                      g == Col(n.e.e, r.env, c2)
                  IN [v |-> Ev(n.e.e, r.env, c2), nx |-> r.nx @@ g.nx, as |-> AsPlus(r.as, g.as),
                      wr |-> r.wr @@ g.wr]

----------------------------------------------------------------------------
(* Effects of the instances, sets and assertions nested in an expression.  *)
ColSeq(es, env, c) == FoldLeft(LAMBDA a, e : Join(Col(e, env, c), a), NoEff, es)
Col(e, env, c) ==
  IF ~Has(e, "hs") THEN NoEff ELSE
  CASE e.k \in {"call", "mcall", "inst", "minst"} ->
         LET r == RunCall(e, env, c) IN
         Join([nx |-> r.nx, as |-> r.as, wr |-> r.wr], ColSeq(e.args, env, c))
    [] e.k = "linst" ->
         LET r == RunLam(e, env, c) IN
         Join([nx |-> r.nx, as |-> r.as, wr |-> r.wr], ColSeq(e.args, env, c))
    [] e.k = "blk" -> LET r == RunBlock(e.ss, env, c, e) IN
                      Join([nx |-> r.nx, as |-> r.as, wr |-> r.wr], Col(e.e, r.env, r.c))
    [] e.k = "if" -> Join(Col(e.c, env, c), Join(Col(e.a, env, c), Col(e.b, env, c)))
    [] e.k = "gif" -> IF CondOf(e.c, c.ts) THEN Col(e.a, env, c) ELSE Col(e.b, env, c)
    [] e.k = "match" ->
         FoldLeft(LAMBDA a, m :
             LET r == PM(m.p, Ev(e.e, env, c), c.p)
                 b == Join(Col(m.e, r.b @@ env, c), a)
             IN IF Has(m, "g") THEN Join(Col(m.g, r.b @@ env, c), b) ELSE b,
             Col(e.e, env, c), e.arms)
    [] e.k = "iflet" ->
         LET r == PM(e.p, Ev(e.e, env, c), c.p)
         IN Join(Col(e.e, env, c), Join(Col(e.a, r.b @@ env, c), Col(e.b, env, c)))
    [] e.k \in {"tup", "arr", "str", "enm"} -> ColSeq(e.es, env, c)
    [] e.k = "std" -> ColSeq(e.args, env, c)
    [] e.k = "bin" -> Join(Col(e.l, env, c), Col(e.r, env, c))
    [] e.k \in {"un", "tix", "fld", "rng", "par", "ref", "rep", "cast"} -> Col(e.e, env, c)
    [] e.k = "idx" -> Join(Col(e.e, env, c), Col(e.i, env, c))
    [] e.k = "mem" ->
         LET ck == Ev(e.ck, env, c)
             ws == Ev(e.ws, env, c)
             n == Num(e.n, c.ts)
             key == c.path \o <<e.id>>
             ini == IF Has(e, "init") THEN Ev(e.init, env, c) ELSE T(Fill(n, U))
             cur == StGet(c, key, ini)
             W(m, w) ==     \* w = (enable, address, data)
               IF w[1] = "u" \/ w[2][1][1] = "u" THEN T(Fill(n, U))
               ELSE IF ~w[2][1][2] THEN m
               ELSE IF w[2][2][1] = "u" THEN T(Fill(n, U))
               ELSE IF w[2][2][2] + 1 \in DOMAIN m[2]
                    THEN T([m[2] EXCEPT ![w[2][2][2] + 1] =
                              IF \E q \in DOMAIN ws[2] :    \* several ports, one address
                                   /\ ws[2][q] # w /\ ws[2][q][1] = "t"
                                   /\ ws[2][q][2][1] # B(FALSE)
                                   /\ ws[2][q][2][2] \in {w[2][2], U}
                                   /\ ws[2][q][2][3] # w[2][3]
                              THEN U ELSE w[2][3]])
               ELSE m
         IN [Col(e.ws, env, c) EXCEPT !.nx = @ @@ key :> [v |-> IF ws[1] = "u" THEN T(Fill(n, U))
                                               ELSE FoldLeft(W, cur, ws[2]), ck |-> ck],
                          !.wr = ((key \o <<"init">>) :> ini) @@ @]
    [] OTHER -> NoEff

----------------------------------------------------------------------------
(* Blocks.  acc: env, effects, pending registers.                          *)
RegKey(c, s) == c.path \o <<"r", s.id>>
RegNow(s, env, c) ==
  StGet(c, RegKey(c, s), IF Has(s, "init") THEN Ev(s.init, env, c)
                         ELSE IF Has(s, "t") THEN UndefOf(Conc(s.t, c.ts), c.p) ELSE U)
RegNext(s, env, c) ==
  LET nv == Ev(s.e, env, c) IN
  IF Has(s, "rst")
  THEN LET r == Ev(s.rst.c, env, c) IN
       IF r[1] = "u" THEN (IF Defined(nv) /\ nv = Ev(s.rst.v, env, c) THEN nv ELSE U)
       ELSE IF r[2] THEN Ev(s.rst.v, env, c) ELSE nv
  ELSE nv

StmtStep(acc, s, c) ==
  LET env == acc.env IN
  CASE s.k = "let" ->
         LET v == Ev(s.e, env, c)
             b == PM(s.p, v, c.p).b
             e2 == b @@ env
             f == Col(s.e, env, c)
         IN [acc EXCEPT !.env = e2, !.eff = Join(f, @)]
    [] s.k = "reg" ->
         LET v == RegNow(s, env, c)
             e2 == PM(s.p, v, c.p).b @@ env
         IN [acc EXCEPT !.env = e2, !.pend = Append(@, <<s, e2>>)]
    [] s.k = "decl" -> [acc EXCEPT !.decl = @ \cup {s.ns[i] : i \in DOMAIN s.ns},
                                   !.env = TLCEval([n \in {s.ns[i] : i \in DOMAIN s.ns} |->
                                      FwGet(c.fw, c.path \o <<"~", n>>)]) @@ @]
    [] s.k = "set" -> [acc EXCEPT !.eff = Join([NoEff EXCEPT !.wr =
                           SetW(Ev(s.l, env, c), Ev(s.e, env, c))],
                           Join(Col(s.l, env, c), Join(Col(s.e, env, c), @)))]
    [] s.k = "assert" ->
         LET v == Ev(s.e, env, c) IN
         [acc EXCEPT !.eff = Join(Col(s.e, env, c), [@ EXCEPT !.as =
                 AsPlus(@, IF v[1] = "u" THEN <<0, 1>> ELSE IF v[2] THEN <<0, 0>> ELSE <<1, 0>>)])]
    [] s.k = "expr" -> [acc EXCEPT !.eff = Join(Col(s.e, env, c), @)]
    [] s.k = "label" -> acc
    [] OTHER -> Assert(FALSE, <<"statement", s.k>>)

ColReg(s, env, c) ==
  IF Has(s, "rst") THEN Join(Col(s.e, env, c), Join(Col(s.rst.c, env, c), Col(s.rst.v, env, c)))
  ELSE Col(s.e, env, c)

(* Late part: register next values see declared names' final values, which  *)
(* are also published for the next settling pass.                           *)
Finish(acc, c) ==
  LET dn == TLCEval([n \in acc.decl |-> acc.env[n]])
      one(a, q) == LET s == q[1] env == dn @@ q[2] IN
         Join([NoEff EXCEPT !.nx = RegKey(c, s) :>
                 [v |-> RegNext(s, env, c), ck |-> Ev(s.ck, env, c)]],
              Join(ColReg(s, env, c), a))
      pub == FoldLeft(LAMBDA a, n : ((c.path \o <<"~", n>>) :> acc.env[n]) @@ a,
                      EmptyFn, SetToSeq(acc.decl))
      eff == FoldLeft(one, acc.eff, acc.pend)
  IN [eff EXCEPT !.wr = pub @@ @]

RunBlock(ss, env, c, tag) ==
  LET acc == FoldLeft(LAMBDA a, s : StmtStep(a, s, c),
               [env |-> env, eff |-> NoEff, pend |-> <<>>, decl |-> {}], ss)
      eff == Finish(acc, c)
  IN [env |-> acc.env, c |-> c, nx |-> eff.nx, as |-> eff.as, wr |-> eff.wr]

RunUnit(un, args, ts, path, c) ==
  LET c2 == [c EXCEPT !.ts = ts, !.path = path, !.stage = 0]
      env == FoldLeft(LAMBDA a, i : (un.params[i].n :> args[i]) @@ a, EmptyFn,
                      [i \in DOMAIN un.params |-> i])
  IN IF un.kind = "pipeline"
     THEN RunPipe(un, env, env[un.params[IF un.params[1].t[1] = "ck" THEN 1 ELSE 2].n], \* 2: after self
                  {un.params[i].n : i \in {j \in DOMAIN un.params :
                      Has(un.params[j], "wire") \/ un.params[j].t[1] = "ck"}}, c2)
     ELSE LET r == RunBlock(un.ss, env, c2, un)
              f == Col(un.e, r.env, c2)
          IN [v |-> Ev(un.e, r.env, c2), nx |-> r.nx @@ f.nx, as |-> AsPlus(r.as, f.as),
              wr |-> r.wr @@ f.wr]

----------------------------------------------------------------------------
(* Pipelines.  Stage s ends with a "stage" statement; the environment at   *)
(* its end is what the boundary registers after it hold one cycle later.   *)
(* acc.late: names whose nested pipeline result arrives in a later stage.  *)
PKey(c, s) == c.path \o <<"p", ToString(s)>>
Names(q) == DOMAIN q      \* names bound by an environment

\* ck: the clock; wires: names that are not pipelined
RunPipe(un, env0, ck, wires, c) ==
  LET ss == un.ss
      nst == Cardinality({i \in DOMAIN ss : ss[i].k = "stage"})
      Ld(cv) == IF Has(cv, "e") /\ Has(cv.e, "d") THEN Num(cv.e.d, c.ts) ELSE 0
      step(acc, s) ==
        IF s.k = "stage"
        THEN LET key == PKey(c, acc.n)
                 old == StGet(c, key, EmptyFn)
                 keep == [n \in (DOMAIN acc.env) \ acc.wires |->
                            IF n \in DOMAIN old THEN old[n] ELSE U]
                 here == [n \in (DOMAIN acc.env) \ acc.wires |-> acc.env[n]]
                 \* conditions see values undelayed, as they are where they are defined
                 cond == IF Has(s, "c") THEN Ev(s.c, acc.orig, [c EXCEPT !.stage = acc.n]) ELSE B(TRUE)
                 \* results becoming available in the next stage
                 arr == {q \in acc.late : q[3] = acc.n + 1}
                 arrE == FoldLeft(LAMBDA a, q : PM(q[1], q[2], c.p).b @@ a, EmptyFn, SetToSeq(arr))
                 wv == [n \in acc.wires \cap DOMAIN acc.env |-> acc.env[n]]
             IN [acc EXCEPT !.n = @ + 1,
                            !.env = arrE @@ wv @@ TLCEval(keep),
                            !.orig = arrE @@ @,
                            !.cur = Append(@, TLCEval(here)),
                            !.conds = Append(@, cond),
                            !.hasc = Append(@, Has(s, "c")),
                            !.snap = Append(@, acc.env),
                            !.eff = IF Has(s, "c") THEN Join(Col(s.c, acc.env, c), @) ELSE @]
        ELSE IF s.k = "let" /\ Ld(s) > 0
        THEN LET cc == [c EXCEPT !.stage = acc.n]
                 v == Ev(s.e, acc.env, cc)
             IN [acc EXCEPT !.late = @ \cup {<<s.p, v, acc.n + Ld(s)>>},
                            !.eff = Join(Col(s.e, acc.env, cc), @)]
        ELSE LET a2 == StmtStep([env |-> acc.env, eff |-> acc.eff, pend |-> acc.pend, decl |-> acc.decl],
                                s, [c EXCEPT !.stage = acc.n])
                 wn == IF Has(s, "wire") THEN (DOMAIN PM(s.p, U, c.p).b) ELSE {}
             IN [acc EXCEPT !.env = a2.env, !.eff = a2.eff, !.decl = a2.decl,
                            !.orig = TLCEval([n \in DOMAIN a2.env |->
                               IF n \in DOMAIN acc.env /\ n \in DOMAIN acc.orig
                               THEN acc.orig[n] ELSE a2.env[n]]) @@ @,
                            !.pend = IF Len(a2.pend) > Len(acc.pend)
                                     THEN Append(acc.pend, a2.pend[Len(a2.pend)] \o <<acc.n>>)
                                     ELSE acc.pend,
                            !.wires = @ \cup wn]
      acc == FoldLeft(step, [env |-> env0, orig |-> env0, eff |-> NoEff, pend |-> <<>>, decl |-> {}, n |-> 0,
                             cur |-> <<>>, conds |-> <<>>, hasc |-> <<>>, snap |-> <<>>,
                             late |-> {}, wires |-> wires], ss)
      snap == Append(acc.snap, acc.env)
      \* enables: boundary i (1..nst) moves iff it and all later ones may
      RECURSIVE EnFrom(_)
      EnFrom(i) == IF i > nst THEN B(TRUE) ELSE AndV(acc.conds[i], EnFrom(i + 1))
      Mix(en, a, b) == IF en[1] = "u" THEN [n \in DOMAIN a |-> U] ELSE IF en[2] THEN a ELSE b
      pregs == FoldLeft(LAMBDA a, i :
                 LET key == PKey(c, i - 1) en == EnFrom(i)
                     old == StGet(c, key, EmptyFn)
                     oldf == [n \in DOMAIN acc.cur[i] |-> IF n \in DOMAIN old THEN old[n] ELSE U]
                 IN (key :> [v |-> TLCEval(Mix(en, acc.cur[i], oldf)), ck |-> ck]) @@ a,
                 EmptyFn, [i \in 1..nst |-> i])
      \* validity of stage i = 0..nst
      VKey(i) == c.path \o <<"v", ToString(i)>>
      vcur(i) == IF i = 0 THEN B(TRUE) ELSE StGet(c, VKey(i), U)
      vregs == FoldLeft(LAMBDA a, i :
                 LET en == EnFrom(i) down == EnFrom(i + 1)
                     moved == IF en[1] = "u" THEN U ELSE IF en[2] THEN vcur(i - 1) ELSE vcur(i)
                     bubble == AndV(NotV(acc.conds[i]), down)
                 IN (VKey(i) :> [v |-> AndV(moved, NotV(bubble)), ck |-> ck]) @@ a,
                 EmptyFn, [i \in 1..nst |-> i])
      pubStage(a, s) ==         \* names visible in stage s, for stage references
        FoldLeft(LAMBDA b, n : ((c.path \o <<"@", ToString(s), n>>) :> snap[s + 1][n]) @@ b,
                 a, SetToSeq(DOMAIN snap[s + 1]))
      pub == FoldLeft(pubStage, EmptyFn, [i \in 1..(nst + 1) |-> i - 1])
      pubR == FoldLeft(LAMBDA a, s :
                 ((c.path \o <<"rdy", ToString(s)>>) :> EnFrom(s + 1)) @@
                 ((c.path \o <<"vld", ToString(s)>>) :> vcur(s)) @@ a,
                 EmptyFn, [i \in 1..(nst + 1) |-> i - 1])
      dn == TLCEval([n \in acc.decl |-> acc.env[n]])
      one(a, q) == LET s == q[1] env == q[2] cc == [c EXCEPT !.stage = q[3]] IN
         Join([NoEff EXCEPT !.nx = RegKey(c, s) :>
                 [v |-> RegNext(s, env, cc), ck |-> Ev(s.ck, env, cc)]],
              Join(ColReg(s, env, cc), a))
      eff == FoldLeft(one, acc.eff, acc.pend)
      ce == [c EXCEPT !.stage = nst]
      f == Col(un.e, acc.env, ce)
  IN [v |-> Ev(un.e, acc.env, ce),
      nx |-> pregs @@ vregs @@ eff.nx @@ f.nx,
      as |-> AsPlus(eff.as, f.as),
      wr |-> pub @@ pubR @@ eff.wr @@ f.wr]

----------------------------------------------------------------------------
(* Standard library functions, by documented meaning.  e.f is the name,    *)
(* e.ts the operand types, e.rt the result type where it matters.          *)
IntOf(bits, t) == Decode(bits, t, [structs |-> EmptyFn, enums |-> EmptyFn])
BitsV(v) == [i \in DOMAIN v[2] |-> IF v[2][i][1] = "u" THEN 2 ELSE IF v[2][i][2] THEN 1 ELSE 0]
RECURSIVE XorAll(_)
XorAll(s) == IF s = <<>> THEN FALSE ELSE s[1][2] # XorAll(Tail(s))
Gray(n) == n ^^ (n \div 2)
RECURSIVE UnGray(_)
UnGray(g) == IF g = 0 THEN 0 ELSE g ^^ UnGray(g \div 2)
Some(v) == <<"e", 2, <<v>> >>
None == <<"e", 1, <<>> >>
NoP == [structs |-> EmptyFn, enums |-> EmptyFn]

StdFn(e, a, c, env) ==
  LET t1 == Conc(e.ts[1], c.ts)
      rt == Conc(e.rt, c.ts)
      n == Len(a[1][2])
      elt(i) == a[1][2][i]
  IN
  CASE e.f = "zext" \/ e.f = "sext" -> a[1]
    [] e.f = "trunc" -> IF a[1][1] = "u" THEN U ELSE I(Wrap(a[1][2], rt))
    [] e.f \in {"as_int", "as_uint"} /\ t1[1] \in {"u", "s"} ->
         IF a[1][1] = "u" THEN U ELSE I(Wrap(a[1][2], rt))
    [] e.f = "to_int" /\ t1[1] \in {"u", "s"} -> a[1]
    [] e.f = "undef" -> U
    \* reinterpretation between any two types of one width
    [] e.f \in {"as_bits", "to_bits", "as_int", "as_uint", "to_int", "to_uint", "transmute",
                "as_array", "from_bits"}
         -> IF a[1][1] = "u" THEN U ELSE Decode(Encode(a[1], t1, c.p), rt, c.p)
    [] e.f = "concat" /\ t1[1] \in {"u", "s"} ->
         LET t2 == Conc(e.ts[2], c.ts) IN
         IF a[1][1] = "u" \/ a[2][1] = "u" THEN U
         ELSE I(a[1][2] * 2^t2[2] + AsNat(a[2][2], t2[2]))
    [] e.f = "order" -> IF a[1][1] = "u" \/ a[2][1] = "u" THEN U
                        ELSE T(<<I(Min2(a[1][2], a[2][2])), I(Max2(a[1][2], a[2][2]))>>)
    [] e.f \in {"comb_div", "comb_mod"} /\ (a[1][1] = "u" \/ a[2][1] = "u") -> U
    [] e.f = "comb_div" -> IntBin("/", a[1][2], a[2][2], t1)
    [] e.f = "comb_mod" -> IntBin("%", a[1][2], a[2][2], t1)
    [] a[1][1] = "u" /\ e.f # "unwrap_or" -> U
    [] e.f = "abs" -> I(IF a[1][2] < 0 THEN -a[1][2] ELSE a[1][2])
    [] e.f = "max" -> IF a[2][1] = "u" THEN U ELSE I(Max2(a[1][2], a[2][2]))
    [] e.f = "min" -> IF a[2][1] = "u" THEN U ELSE I(Min2(a[1][2], a[2][2]))
    [] e.f = "msb" \/ e.f = "sign_bit" -> B(AsNat(a[1][2], t1[2]) >= 2^(t1[2] - 1))
    [] e.f = "lsb" -> B(AsNat(a[1][2], t1[2]) % 2 = 1)
    [] e.f = "to_gray" -> T(<<I(Gray(a[1][2]))>>)
    [] e.f = "ungray" -> I(UnGray(a[1][2][1][2]))
    [] e.f = "uninterleave" -> U
    [] e.f = "interleave" /\ t1[1] = "u" ->
         LET x == UBits(a[1][2], t1[2]) y == UBits(a[2][2], t1[2]) IN
         IF a[2][1] = "u" THEN U ELSE
         I(BitsToNat([i \in 1..(2 * t1[2]) |->
              IF i % 2 = 0 THEN x[i \div 2] ELSE y[(i + 1) \div 2]]))
    [] e.f = "reduce_and" -> IF ~Defined(a[1]) THEN U ELSE B(\A i \in 1..n : elt(i)[2])
    [] e.f = "reduce_or" -> IF ~Defined(a[1]) THEN U ELSE B(\E i \in 1..n : elt(i)[2])
    [] e.f = "reduce_xor" -> IF ~Defined(a[1]) THEN U ELSE B(XorAll(a[1][2]))
    \* arrays
    [] e.f = "acat" -> IF a[2][1] = "u" THEN U ELSE T(a[1][2] \o a[2][2])
    [] e.f = "reversed" -> T(Reverse(a[1][2]))
    [] e.f = "ainterleave" -> T([i \in 1..(2 * n) |->
                                 IF i % 2 = 1 THEN a[1][2][(i + 1) \div 2] ELSE a[2][2][i \div 2]])
    [] e.f = "zip" -> T([i \in 1..n |-> T(<<elt(i), a[2][2][i]>>)])
    [] e.f = "unzip" -> T(<<T([i \in 1..n |-> elt(i)[2][1]]), T([i \in 1..n |-> elt(i)[2][2]])>>)
    [] e.f = "flatten" -> T(FlatSeq([i \in 1..n |-> elt(i)[2]]))
    [] e.f = "chunks" -> LET k == Num(e.n, c.ts) IN
         T([i \in 1..(n \div k) |-> T(SubSeq(a[1][2], (i - 1) * k + 1, i * k))])
    [] e.f = "sliding_window" -> LET k == Num(e.n, c.ts) IN
         T([i \in 1..(n - k + 1) |-> T(SubSeq(a[1][2], i, i + k - 1))])
    [] e.f = "split_at" -> LET k == Num(e.n, c.ts) IN
         T(<<T(SubSeq(a[1][2], 1, k)), T(SubSeq(a[1][2], k + 1, n))>>)
    [] e.f = "push_back" -> T(Append(a[1][2], a[2]))
    [] e.f = "push_front" -> T(<<a[2]>> \o a[1][2])
    [] e.f = "shift_back" -> T(Append(Tail(a[1][2]), a[2]))
    [] e.f = "shift_front" -> T(<<a[2]>> \o SubSeq(a[1][2], 1, n - 1))
    [] e.f = "first" -> elt(1)
    [] e.f = "last" -> elt(n)
    [] e.f = "len" -> I(n)
    [] e.f = "map" -> T(TLCEval([i \in 1..n |-> CallL(a[2], <<elt(i)>>, c)]))
    [] e.f = "unfold" ->
         LET RECURSIVE un(_, _)
             un(v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o un(CallL(a[2], <<v>>, c), k - 1)
         IN T(un(a[1], Num(e.n, c.ts)))
    [] e.f = "fold" -> FoldLeft(LAMBDA x, y : CallL(a[3], <<x, y>>, c), a[2], a[1][2])
    [] e.f = "reduce" -> FoldLeft(LAMBDA x, y : CallL(a[2], <<x, y>>, c), elt(1), Tail(a[1][2]))
    [] e.f = "all" -> FoldLeft(LAMBDA x, y : AndV(x, CallL(a[2], <<y>>, c)), B(TRUE), a[1][2])
    [] e.f = "any" -> FoldLeft(LAMBDA x, y : NotV(AndV(NotV(x), NotV(CallL(a[2], <<y>>, c)))),
                               B(FALSE), a[1][2])
    \* options
    [] e.f = "is_some" -> B(a[1][2] = 2)
    [] e.f = "is_none" -> B(a[1][2] = 1)
    [] e.f = "unwrap_or" -> IF a[1][1] = "u" THEN U ELSE IF a[1][2] = 2 THEN a[1][3][1] ELSE a[2]
    [] e.f = "unwrap_or_undef" -> IF a[1][2] = 2 THEN a[1][3][1] ELSE U
    [] e.f = "omap" -> IF a[1][2] = 2 THEN Some(CallL(a[2], <<a[1][3][1]>>, c)) ELSE None
    [] e.f = "and_then" -> IF a[1][2] = 2 THEN CallL(a[2], <<a[1][3][1]>>, c) ELSE None

----------------------------------------------------------------------------
(* The top unit as a transition system.                                    *)
Ctx(p, st, fw) == [p |-> p, st |-> st, fw |-> fw, path |-> <<>>, ts |-> EmptyFn, stage |-> 0]

RECURSIVE SettleN(_, _, _, _, _)
SettleN(p, args, st, fw, k) ==
  LET r == TLCEval(RunUnit(p.units[p.top], args, EmptyFn, <<>>, Ctx(p, st, fw))) IN
  IF r.wr = fw \/ k = 0 THEN r ELSE SettleN(p, args, st, r.wr, k - 1)

(* Values, next state and effects with all wires settled. *)
Settle(p, args, st) == SettleN(p, args, st, EmptyFn, IF Has(p, "passes") THEN p.passes ELSE 1)

(* State after an edge of the clocks in set ck. *)
Tick(r, st, ck) ==
  [k \in DOMAIN r.nx \cup DOMAIN st |->
     IF k \in DOMAIN r.nx /\ r.nx[k].ck[1] = "c" /\ r.nx[k].ck[2] \in ck THEN r.nx[k].v
     ELSE IF k \in DOMAIN st THEN st[k] ELSE U]
=============================================================================
