----------------------------- MODULE SpadeTypes -----------------------------
(* Static rules of the modelled core, over the same syntax trees as         *)
(* SpadeSem.                                                               *)
EXTENDS SpadeSem

----------------------------------------------------------------------------
(* Exhaustiveness: every value of the type is matched by an unguarded arm. *)
(* A set of representative values suffices for wide integers: those that   *)
(* some pattern names and one that none names.                             *)
RECURSIVE Lits(_)
LitsAll(s) == UNION {Lits(s[i]) : i \in DOMAIN s}
Lits(q) == CASE q.k = "pi" -> {q.v}
             [] q.k = "pat" -> Lits(q.p)
             [] q.k \in {"pt", "pe"} -> LitsAll(q.ps)
             [] q.k = "ps" -> LitsAll([i \in DOMAIN q.fs |-> q.fs[i][2]])
             [] OTHER -> {}

RECURSIVE SeqProd(_)
SeqProd(sets) == IF sets = <<>> THEN {<<>>}
                 ELSE {<<x>> \o r : x \in sets[1], r \in SeqProd(Tail(sets))}

RECURSIVE Reps(_, _, _)
Reps(t, L, p) ==
  CASE t[1] = "b" -> {B(TRUE), B(FALSE)}
    [] t[1] \in {"u", "s"} ->
         LET lo == IF t[1] = "u" \/ t[2] = 0 THEN 0 ELSE -(2^(t[2] - 1))
             hi == IF t[1] = "u" THEN 2^t[2] - 1 ELSE IF t[2] = 0 THEN 0 ELSE 2^(t[2] - 1) - 1
             named == {n \in L : n >= lo /\ n <= hi}
             rest == {n \in lo..Min2(hi, lo + Cardinality(named)) : n \notin named}
         IN {I(n) : n \in named \cup rest}
    [] t[1] = "t" -> {T(s) : s \in SeqProd([i \in DOMAIN t[2] |-> Reps(t[2][i], L, p)])}
    [] t[1] = "a" -> {T(s) : s \in SeqProd([i \in 1..t[3] |-> Reps(t[2], L, p)])}
    [] t[1] = "st" -> LET f == FieldTypes(t, p) IN
                      {T(s) : s \in SeqProd([i \in DOMAIN f |-> Reps(f[i], L, p)])}
    [] t[1] = "en" -> UNION {LET f == VariantTypes(t, k, p) IN
                             {<<"e", k, s>> : s \in SeqProd([i \in DOMAIN f |-> Reps(f[i], L, p)])}
                             : k \in DOMAIN p.enums[t[2]].vs}
    [] OTHER -> {Unit}       \* of a type parameter nothing is known

Exhaustive(t, arms, p) ==      \* t: concrete
  LET L == UNION {Lits(arms[i].p) : i \in DOMAIN arms}
  IN \A v \in Reps(t, L, p) :
       \E i \in DOMAIN arms : ~Has(arms[i], "g") /\ PM(arms[i].p, v, p).r = "y"


----------------------------------------------------------------------------
(* Typing.  A checked expression has a type and, inside pipelines, a delay: *)
(* the number of stages after the current one in which its value is ready;  *)
(* -1 for values that do not depend on the stage (constants and wires).     *)
(* Types <<"err">>: the program must be rejected; <<"any">>: not decided.    *)
Bad == [t |-> <<"err">>, d |-> -1]
Dunno == [t |-> <<"any">>, d |-> -1]
Ok(t, d) == [t |-> t, d |-> d]
IsT(r) == r.t[1] \notin {"err", "any"}

Delays(rs) == {rs[i].d : i \in DOMAIN rs} \ {-1}
(* Parts that are used together have to be ready together. *)
Tog(rs, t) ==
  IF \E i \in DOMAIN rs : rs[i].t[1] = "err" THEN Bad
  ELSE IF \E i \in DOMAIN rs : rs[i].t[1] = "any" THEN Dunno
  ELSE IF Cardinality(Delays(rs)) > 1 THEN Bad
  ELSE [t |-> t, d |-> IF Delays(rs) = {} THEN -1 ELSE CHOOSE d \in Delays(rs) : TRUE]
Need(cond, r) == IF r.t[1] = "err" THEN r ELSE IF cond THEN r ELSE Bad

IsInt(t) == t[1] \in {"u", "s"}
RECURSIVE Eqable(_)
Eqable(t) == CASE t[1] \in {"u", "s", "b"} -> TRUE
               [] t[1] = "a" -> Eqable(t[2])
               [] t[1] = "t" -> Len(t[2]) <= 4 /\ \A i \in DOMAIN t[2] : Eqable(t[2][i])
               [] OTHER -> FALSE

InRange(v, t) == CASE t[1] = "u" -> v >= 0 /\ v <= 2^t[2] - 1
                   [] t[1] = "s" -> v >= -(2^(t[2] - 1)) /\ v <= 2^(t[2] - 1) - 1
                   [] OTHER -> FALSE

RECURSIVE HasInv(_, _)
HasInv(t, p) == CASE t[1] = "inv" -> TRUE
                  [] t[1] = "en" -> \E k \in DOMAIN p.enums[t[2]].vs :
                       LET f == VariantTypes(t, k, p) IN \E i \in DOMAIN f : HasInv(f[i], p)
                  [] t[1] = "t" -> \E i \in DOMAIN t[2] : HasInv(t[2][i], p)
                  [] t[1] = "a" -> HasInv(t[2], p)
                  [] t[1] = "st" -> LET f == FieldTypes(t, p) IN \E i \in DOMAIN f : HasInv(f[i], p)
                  [] OTHER -> FALSE

RECURSIVE HasCk(_, _)     \* of a clock no register can be made
HasCk(t, p) == CASE t[1] = "ck" -> TRUE
                 [] t[1] = "t" -> \E i \in DOMAIN t[2] : HasCk(t[2][i], p)
                 [] t[1] = "a" -> HasCk(t[2], p)
                 [] t[1] = "st" -> LET f == FieldTypes(t, p) IN \E i \in DOMAIN f : HasCk(f[i], p)
                 [] t[1] = "en" -> \E k \in DOMAIN p.enums[t[2]].vs :
                                     LET f == VariantTypes(t, k, p) IN \E i \in DOMAIN f : HasCk(f[i], p)
                 [] OTHER -> FALSE

IsPerm(an, names) == /\ Len(an) = Len(names)
                     /\ {an[i] : i \in DOMAIN an} = {names[i] : i \in DOMAIN names}
PosOf(names, n) == CHOOSE i \in DOMAIN names : names[i] = n

(* Names a pattern binds, with their types; "err" if it does not fit.      *)
NoB == [ok |-> TRUE, b |-> EmptyFn]
BadB == [ok |-> FALSE, b |-> EmptyFn]
JoinB(rs) ==
  IF \E i \in DOMAIN rs : ~rs[i].ok THEN BadB
  ELSE [ok |-> TRUE, b |-> FoldLeft(LAMBDA a, r : r.b @@ a, EmptyFn, rs)]
RECURSIVE PT(_, _, _)
PTAll(ps, ts, p) == IF Len(ps) # Len(ts) THEN BadB
                    ELSE JoinB(TLCEval([i \in DOMAIN ps |-> PT(ps[i], ts[i], p)]))
PT(q, t, p) ==
  CASE q.k = "pw" -> NoB
    [] q.k = "pn" -> [ok |-> TRUE, b |-> q.n :> t]
    [] q.k = "pat" -> JoinB(<<[ok |-> TRUE, b |-> q.n :> t], PT(q.p, t, p)>>)
    [] q.k = "pi" -> IF InRange(q.v, t) THEN NoB ELSE BadB
    [] q.k = "pb" -> IF t[1] = "b" THEN NoB ELSE BadB
    [] q.k = "pt" -> IF q.a = 0
                     THEN (IF t[1] = "t" THEN PTAll(q.ps, t[2], p) ELSE BadB)
                     ELSE (IF t[1] = "a" THEN PTAll(q.ps, Fill(t[3], t[2]), p) ELSE BadB)
    [] q.k = "ps" ->
         IF t[1] # "st" \/ t[2] # q.s THEN BadB
         ELSE LET d == p.structs[q.s].fs f == FieldTypes(t, p)
                  names == [i \in DOMAIN d |-> d[i][1]]
                  an == [i \in DOMAIN q.fs |-> q.fs[i][1]]
              IN IF ~IsPerm(an, names) THEN BadB
                 ELSE PTAll([i \in DOMAIN q.fs |-> q.fs[i][2]],
                            [i \in DOMAIN an |-> f[PosOf(names, an[i])]], p)
    [] q.k = "pe" -> IF t[1] # "en" \/ t[2] # q.en THEN BadB
                     ELSE PTAll(q.ps, VariantTypes(t, q.v, p), p)

(* How many representatives a type has, to keep the enumeration small.     *)
Cap(n) == IF n > 5000 THEN 5000 ELSE n
RECURSIVE RepCount(_, _, _)
ProdSeq(s) == FoldLeft(LAMBDA a, x : Cap(a * x), 1, s)
RepCount(t, k, p) ==
  CASE t[1] = "b" -> 2
    [] t[1] \in {"u", "s"} -> IF t[2] > 10 THEN k + 1 ELSE Min2(2^t[2], k + 1)
    [] t[1] = "t" -> ProdSeq([i \in DOMAIN t[2] |-> RepCount(t[2][i], k, p)])
    [] t[1] = "a" -> ProdSeq(Fill(t[3], RepCount(t[2], k, p)))
    [] t[1] = "st" -> LET f == FieldTypes(t, p) IN ProdSeq([i \in DOMAIN f |-> RepCount(f[i], k, p)])
    [] t[1] = "en" -> Cap(SumSeq([v \in DOMAIN p.enums[t[2]].vs |->
                        LET f == VariantTypes(t, v, p) IN ProdSeq([i \in DOMAIN f |-> RepCount(f[i], k, p)])]))
    [] OTHER -> 1
TooWide(t, L, p) == RepCount(t, Cardinality(L), p) > 2000

RECURSIVE Catches(_)     \* matches everything, syntactically
Catches(q) == CASE q.k \in {"pw", "pn"} -> TRUE
                [] q.k = "pat" -> Catches(q.p)
                [] q.k = "pt" -> \A i \in DOMAIN q.ps : Catches(q.ps[i])
                [] q.k = "ps" -> \A i \in DOMAIN q.fs : Catches(q.fs[i][2])
                [] OTHER -> FALSE

Covers(t, arms, p) ==      \* "y", "n" or "?"
  IF \E i \in DOMAIN arms : ~Has(arms[i], "g") /\ Catches(arms[i].p) THEN "y"
  ELSE IF TooWide(t, UNION {Lits(arms[i].p) : i \in DOMAIN arms}, p) THEN "?"
  ELSE IF Exhaustive(t, arms, p) THEN "y" ELSE "n"

Irrefutable(q, t, p) == Covers(t, <<[p |-> q]>>, p)

RECURSIVE PNames(_)
PNames(q) == CASE q.k = "pn" -> {q.n}
               [] q.k = "pat" -> {q.n} \cup PNames(q.p)
               [] q.k \in {"pt", "pe"} -> UNION {PNames(q.ps[i]) : i \in DOMAIN q.ps}
               [] q.k = "ps" -> UNION {PNames(q.fs[i][2]) : i \in DOMAIN q.fs}
               [] OTHER -> {}
RECURSIVE PNSeq(_)
PNSeq(q) == CASE q.k = "pn" -> <<q.n>>
              [] q.k = "pat" -> <<q.n>> \o PNSeq(q.p)
              [] q.k \in {"pt", "pe"} -> FlatSeq([i \in DOMAIN q.ps |-> PNSeq(q.ps[i])])
              [] q.k = "ps" -> FlatSeq([i \in DOMAIN q.fs |-> PNSeq(q.fs[i][2])])
              [] OTHER -> <<>>
(* A pattern that binds one name twice: the language does not say.         *)
Twice(q) == Len(PNSeq(q)) # Cardinality(PNames(q))
Known0(t) == t[1] \notin {"err", "any"}
PTU(q, t, p) == IF Known0(t) THEN PT(q, t, p)
                ELSE [ok |-> TRUE, b |-> [n \in PNames(q) |-> <<"any">>]]

Bind(b, av, env) == [n \in DOMAIN b |-> [t |-> b[n], av |-> av]] @@ env

(* Constants: what `initial` accepts. *)
RECURSIVE IsConst(_)
IsConst(e) == CASE e.k \in {"lit", "bool", "nlit", "unit"} -> TRUE
                [] e.k \in {"tup", "arr", "str", "enm"} -> \A i \in DOMAIN e.es : IsConst(e.es[i])
                [] e.k = "par" -> IsConst(e.e)
                [] OTHER -> FALSE

Distinct(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]

(* A minus sign before a literal belongs to the literal. *)
NegLit(e) == e.k = "lit" /\ Has(e, "t") /\ e.v >= 0

RECURSIVE Ty(_, _, _), ChkSeq(_, _, _, _), RunStm(_, _, _), TyArms(_, _, _, _, _), Chk(_, _, _, _)
TySeq(es, env, c) == TLCEval([i \in DOMAIN es |-> Ty(es[i], env, c)])

(* e against the type t it has to have. *)
Chk(e, t, env, c) ==
  IF e.k = "enm" /\ Len(c.p.enums[e.en].tp) > 0 /\ t[1] = "en" /\ t[2] = e.en
  THEN LET f == VariantTypes(t, e.v, c.p) IN
       IF Has(e, "an")
       THEN LET d == c.p.enums[e.en].vs[e.v][2] names == [i \in DOMAIN d |-> d[i][1]] IN
            IF ~IsPerm(e.an, names) THEN Bad
            ELSE Tog(ChkSeq(e.es, [i \in DOMAIN e.an |-> f[PosOf(names, e.an[i])]], env, c), t)
       ELSE IF Len(e.es) # Len(f) THEN Bad ELSE Tog(ChkSeq(e.es, f, env, c), t)
  ELSE IF e.k = "lit" /\ ~Has(e, "t") THEN (IF IsInt(t) /\ InRange(e.v, t) THEN Ok(t, -1) ELSE Bad)
  ELSE IF e.k = "stgref" /\ c.pipe /\ e.n \notin DOMAIN env /\ e.n \notin c.multi /\ e.n \in (DOMAIN c.tab) \cap (DOMAIN c.dty)
       THEN (IF e.st < 0 \/ e.st > c.nst \/ c.tab[e.n].av > e.st \/ c.dty[e.n] # t THEN Bad ELSE Ok(t, 0))
  ELSE IF e.k = "unit" THEN (IF t = <<"t", <<>> >> THEN Ok(t, -1) ELSE Bad)
  ELSE LET r == Ty(e, env, c) IN IF r.t[1] = "any" THEN r ELSE Need(r.t = t, r)
ChkSeq(es, ts, env, c) == TLCEval([i \in DOMAIN es |-> Chk(es[i], ts[i], env, c)])

(* Arguments against parameters [n, t]. *)
TyArgs(args, e, ps, env, c) ==
  IF Len(args) # Len(ps) THEN <<Bad>>
  ELSE IF Has(e, "an")
       THEN LET names == [i \in DOMAIN ps |-> ps[i].n] IN
            IF ~IsPerm(e.an, names) THEN <<Bad>>
            ELSE ChkSeq(args, [i \in DOMAIN args |-> Conc(ps[PosOf(names, e.an[i])].t, EmptyFn)], env, c)
       ELSE ChkSeq(args, [i \in DOMAIN args |-> Conc(ps[i].t, EmptyFn)], env, c)

RetOf(u) == IF Has(u, "rt") THEN Conc(u.rt, EmptyFn) ELSE <<"t", <<>> >>

BinT(op, l, r) ==      \* result type, or <<"err">>
  CASE op \in {"+", "-"} -> IF IsInt(l) /\ l = r THEN <<l[1], l[2] + 1>> ELSE <<"err">>
    [] op = "*" -> IF IsInt(l) /\ IsInt(r) /\ l[1] = r[1] THEN <<l[1], l[2] + r[2]>> ELSE <<"err">>
    [] op \in {"+.", "-.", "*.", "<<", ">>", ">>>", "<<.", ">>."} -> IF IsInt(l) /\ l = r THEN l ELSE <<"err">>
    [] op \in {"&", "|", "^"} ->
         IF l = r /\ (IsInt(l) \/ (l[1] = "a" /\ l[2] = <<"b">>)) THEN l ELSE <<"err">>
    [] op \in {"&&", "||", "^^"} -> IF l = <<"b">> /\ r = l THEN l ELSE <<"err">>
    [] op \in {"<", "<=", ">", ">="} -> IF IsInt(l) /\ l = r THEN <<"b">> ELSE <<"err">>
    [] op \in {"==", "!="} -> IF l = r /\ Eqable(l) THEN <<"b">> ELSE <<"err">>
    [] OTHER -> <<"any">>
UnT(op, t) ==
  CASE op = "!" -> IF t[1] = "b" THEN t ELSE <<"err">>
    [] op = "~" -> IF IsInt(t) \/ (t[1] = "a" /\ t[2] = <<"b">>) THEN t ELSE <<"err">>
    [] op = "-" -> IF t[1] = "s" THEN t ELSE <<"err">>
    [] OTHER -> <<"any">>

SameT(rs) ==      \* the common type of several results, none failed
  IF \E i \in DOMAIN rs : rs[i].t # rs[1].t THEN <<"err">> ELSE rs[1].t

(* Result of a block: [env, st: record with res, stage count, ..] *)
BlockR(ss, e, env, c) ==
  LET a == FoldLeft(LAMBDA x, s : RunStm(x, s, c),
                    [env |-> env, rs |-> <<>>, stage |-> c.stage, und |-> EmptyFn, dec |-> {}], ss)
      v == IF e.k = "unit" THEN Ok(<<"t", <<>> >>, -1) ELSE Ty(e, a.env, [c EXCEPT !.stage = a.stage])
      all == Append(a.rs, v)
  IN [v |-> IF \E i \in DOMAIN all : all[i].t[1] = "err" \/ DOMAIN a.und # {} THEN Bad
            ELSE IF \E i \in DOMAIN all : all[i].t[1] = "any" THEN Dunno ELSE v,
      stage |-> a.stage, env |-> a.env, rs |-> a.rs]

TyArms(arms, i, t, env, c) ==
  [k \in DOMAIN arms |->
     LET b == PT(arms[k].p, t, c.p)
         e2 == Bind(b.b, IF c.pipe THEN c.stage ELSE -1, env)
     IN IF ~b.ok THEN <<Bad>>
        ELSE IF Twice(arms[k].p) THEN <<Dunno>>
        ELSE <<Ty(arms[k].e, e2, c)>> \o
             (IF Has(arms[k], "g") THEN <<Chk(arms[k].g, <<"b">>, e2, c)>> ELSE <<>>)]

CallT(e, u, env, c) ==
  IF c.safe /\ Has(u, "unsafe") THEN Bad ELSE
  CASE e.k = "call" ->
         IF u.kind # "fn" THEN Bad ELSE Tog(TyArgs(e.args, e, u.params, env, c), RetOf(u))
    [] e.k = "inst" ->
         IF u.kind = "fn" \/ c.kind = "fn" \/ (u.kind = "pipeline") # Has(e, "d") THEN Bad
         ELSE LET r == Tog(TyArgs(e.args, e, u.params, env, c), RetOf(u)) IN
              IF ~Has(e, "d") \/ ~IsT(r) THEN r
              ELSE IF Num(e.d, EmptyFn) # u.depth THEN Bad
              ELSE [r EXCEPT !.d = IF c.pipe THEN Max2(@, 0) + u.depth ELSE @]

Ty(e, env, c) ==
  CASE e.k = "lit" -> IF ~Has(e, "t") THEN Dunno
                      ELSE LET t == Conc(e.t, EmptyFn) IN IF InRange(e.v, t) THEN Ok(t, -1) ELSE Bad
    [] e.k = "bool" -> Ok(<<"b">>, -1)
    [] e.k = "var" ->
         IF e.n \notin DOMAIN env THEN Bad
         ELSE LET x == env[e.n] IN
              IF ~Known0(x.t) THEN Dunno ELSE
              IF ~c.pipe \/ x.av = -1 THEN Ok(x.t, -1)
              ELSE IF x.av > c.stage
                   THEN (IF c.cond /\ c.stage > 0 THEN Dunno ELSE Bad)   \* see C03: raw value
                   ELSE Ok(x.t, 0)
    [] e.k = "bin" -> LET l == Ty(e.l, env, c) r == Ty(e.r, env, c) g == Tog(<<l, r>>, l.t) IN
                      IF IsT(g) THEN [g EXCEPT !.t = BinT(e.op, l.t, r.t)] ELSE g
    [] e.k = "un" /\ e.op = "-" /\ NegLit(e.e) ->
         IF e.e.t[1] = "u" THEN Bad ELSE Ty([e.e EXCEPT !.v = -@], env, c)
    [] e.k = "un" -> LET r == Ty(e.e, env, c) IN
                     IF IsT(r) THEN [r EXCEPT !.t = UnT(e.op, r.t)] ELSE r
    [] e.k = "par" -> Ty(e.e, env, c)
    [] e.k = "if" -> LET q == Chk(e.c, <<"b">>, env, c) a == Ty(e.a, env, c) b == Ty(e.b, env, c)
                         g == Tog(<<q, a, b>>, a.t)
                     IN IF IsT(g) THEN Need(a.t = b.t, g) ELSE g
    [] e.k = "match" ->
         LET q == Ty(e.e, env, c) IN
         IF ~IsT(q) THEN q
         ELSE LET rs == TLCEval(TyArms(e.arms, 1, q.t, env, c))
                  es == [i \in DOMAIN rs |-> rs[i][1]]
                  g == Tog(FlatSeq(rs) \o <<q>>, <<"b">>)
              IN IF Len(e.arms) = 0 THEN Bad
                 ELSE IF ~IsT(g) THEN g
                 ELSE IF SameT(es)[1] = "err" THEN Bad
                 ELSE LET cov == Covers(q.t, e.arms, c.p) IN
                 IF cov = "n" THEN Bad
                 ELSE IF cov = "?" \/ Width(es[1].t, c.p) = 0 THEN Dunno
                 ELSE [g EXCEPT !.t = es[1].t]
    [] e.k = "iflet" ->
         LET q == Ty(e.e, env, c) IN
         IF ~IsT(q) THEN q
         ELSE LET pb == PT(e.p, q.t, c.p)
                  a == Ty(e.a, Bind(pb.b, IF c.pipe THEN c.stage ELSE -1, env), c)
                  b == Ty(e.b, env, c)
                  g == Tog(<<q, a, b>>, a.t)
              IN IF ~pb.ok THEN Bad
                 ELSE IF Twice(e.p) THEN Dunno
                 ELSE IF ~IsT(g) THEN g ELSE Need(a.t = b.t, g)
    [] e.k = "tup" -> LET rs == TySeq(e.es, env, c) IN Tog(rs, <<"t", [i \in DOMAIN rs |-> rs[i].t]>>)
    [] e.k = "arr" -> IF Len(e.es) = 0 THEN Dunno
                      ELSE LET rs == TySeq(e.es, env, c) g == Tog(rs, <<"a", rs[1].t, Len(rs)>>) IN
                           IF IsT(g) THEN Need(SameT(rs)[1] # "err", g) ELSE g
    [] e.k = "rep" -> LET r == Ty(e.e, env, c) IN
                      IF IsT(r) THEN [r EXCEPT !.t = <<"a", r.t, Num(e.n, EmptyFn)>>] ELSE r
    [] e.k = "tix" -> LET r == Ty(e.e, env, c) IN
                      IF ~IsT(r) THEN r
                      ELSE IF r.t[1] = "t" /\ e.i + 1 \in DOMAIN r.t[2] THEN [r EXCEPT !.t = r.t[2][e.i + 1]]
                      ELSE Bad
    [] e.k = "fld" -> LET r == Ty(e.e, env, c) IN
                      IF ~IsT(r) THEN r
                      ELSE IF r.t[1] # "st" THEN Bad
                      ELSE LET d == c.p.structs[r.t[2]].fs IN
                           IF \E i \in DOMAIN d : d[i][1] = e.f
                           THEN [r EXCEPT !.t = FieldTypes(r.t, c.p)[FieldIx(d, e.f)]] ELSE Bad
    [] e.k = "idx" -> LET r == Ty(e.e, env, c) IN
                      IF ~IsT(r) THEN r
                      ELSE IF r.t[1] # "a" THEN Bad
                      ELSE LET i == Chk(e.i, <<"u", Log2Ceil(r.t[3])>>, env, c) IN Tog(<<r, i>>, r.t[2])
    [] e.k = "rng" -> LET r == Ty(e.e, env, c) IN
                      IF ~IsT(r) THEN r
                      ELSE IF r.t[1] # "a" THEN Bad
                      ELSE LET a == IF Has(e, "a") THEN Num(e.a, EmptyFn) ELSE 0
                               b == IF Has(e, "b") THEN Num(e.b, EmptyFn) ELSE r.t[3]
                           IN IF a < 0 \/ b > r.t[3] \/ b < a THEN Bad
                              ELSE IF a = b THEN Dunno
                              ELSE [r EXCEPT !.t = <<"a", r.t[2], b - a>>]
    [] e.k = "str" ->
         LET d == c.p.structs[e.s] IN
         IF Len(d.tp) > 0 THEN Dunno
         ELSE LET ps == [i \in DOMAIN d.fs |-> [n |-> d.fs[i][1], t |-> d.fs[i][2]]] IN
              Tog(TyArgs(e.es, e, ps, env, c), <<"st", e.s, <<>> >>)
    [] e.k = "enm" ->
         LET d == c.p.enums[e.en] IN
         IF Len(d.tp) > 0 THEN Dunno
         ELSE LET v == d.vs[e.v][2] ps == [i \in DOMAIN v |-> [n |-> v[i][1], t |-> v[i][2]]] IN
              Tog(TyArgs(e.es, e, ps, env, c), <<"en", e.en, <<>> >>)
    [] e.k = "blk" -> LET r == BlockR(e.ss, e.e, env, [c EXCEPT !.safe = @ /\ ~Has(e, "uns"), !.nested = TRUE]) IN IF r.stage # c.stage THEN Bad ELSE r.v
    [] e.k \in {"call", "inst"} ->
         IF e.u \notin DOMAIN c.p.units THEN Bad ELSE CallT(e, c.p.units[e.u], env, c)
    [] e.k = "std" /\ e.f \in {"zext", "sext", "trunc"} ->
         LET f == Conc(e.ts[1], EmptyFn) t == Conc(e.rt, EmptyFn) r == Chk(e.args[1], f, env, c) IN
         IF ~IsT(r) THEN r
         ELSE IF (e.f = "trunc" /\ (f[2] < t[2] \/ f[1] # t[1])) \/ (e.f # "trunc" /\ (f[2] > t[2] \/ f[1] # t[1])) THEN Bad
         ELSE [r EXCEPT !.t = t]
    [] e.k = "stgref" ->
         IF ~c.pipe THEN Bad
         ELSE IF e.st < 0 \/ e.st > c.nst THEN Bad
         ELSE IF e.n \in c.multi THEN Dunno      \* bound more than once: which one is a matter of scope
         ELSE IF e.n \notin DOMAIN c.tab THEN (IF c.final THEN Bad ELSE Dunno)
         ELSE LET x == c.tab[e.n] IN
              IF x.av > e.st THEN Bad
              ELSE IF e.n \notin DOMAIN env THEN Dunno   \* its type follows later
              ELSE IF Known0(x.t) THEN Ok(x.t, 0) ELSE Dunno
    [] e.k \in {"ready", "valid"} -> IF c.pipe THEN Ok(<<"b">>, 0) ELSE Bad
    [] OTHER -> Dunno

(* Statements.  acc: env, results so far, stage, declared names left.      *)
ChkU(e, t, env, c) == IF Known0(t) THEN Chk(e, t, env, c) ELSE Dunno
Av(d, acc, c) == IF ~c.pipe THEN -1 ELSE acc.stage + Max2(d, 0)
RunStm(acc, s, c0) ==
  LET c == [c0 EXCEPT !.stage = acc.stage] env == acc.env IN
  CASE s.k \in {"let", "reg"} ->
         LET t0 == IF Has(s, "t") THEN Conc(s.t, EmptyFn) ELSE <<"any">>
             bnd0 == IF s.k = "reg" THEN PTU(s.p, t0, c.p) ELSE NoB
             \* a register may depend on itself
             envr == IF s.k = "reg" THEN Bind(bnd0.b, Av(0, acc, c), env) ELSE env
             r == IF Has(s, "t") THEN Chk(s.e, t0, envr, c) ELSE Ty(s.e, envr, c)
             t == IF Has(s, "t") THEN t0 ELSE r.t
             b == PTU(s.p, t, c.p)
             side == IF s.k # "reg" THEN <<>>
                     ELSE <<IF c.kind = "fn" THEN Bad ELSE Chk(s.ck, <<"ck">>, envr, c)>>
                          \o (IF ~Has(s, "rst") THEN <<>>
                              ELSE <<Chk(s.rst.c, <<"b">>, envr, c), ChkU(s.rst.v, t, envr, c)>>)
                          \o (IF ~Has(s, "init") THEN <<>>
                              ELSE <<IF IsConst(s.init) THEN ChkU(s.init, t, envr, c) ELSE Dunno>>)
             data == s.k = "let" \/ ~Known0(t) \/ (~HasCk(t, c.p) /\ ~HasInv(t, c.p))
             late == \E i \in DOMAIN side : side[i].d > 0
             ns == DOMAIN b.b
             und == [n \in (DOMAIN acc.und) \ ns |-> acc.und[n]]
             fit == /\ \A n \in ns \cap acc.dec : n \in DOMAIN acc.und      \* defined once
                    /\ \A n \in ns \cap DOMAIN acc.und :
                      ~Known0(b.b[n]) \/ ~Known0(acc.und[n]) \/ acc.und[n] = b.b[n]
         IN [acc EXCEPT
               !.env = Bind(b.b, IF Has(s, "wire") THEN -1 ELSE Av(r.d, acc, c), @),
               !.und = und,
               !.rs = @ \o <<r>> \o side \o
                      (IF Twice(s.p) \/ (c.pipe /\ Known0(t) /\ HasCk(t, c.p)) THEN <<Dunno>> ELSE IF ~b.ok \/ late \/ ~fit \/ ~data THEN <<Bad>>
                       ELSE IF t[1] \in {"err", "any"} THEN <<>>
                       ELSE LET i == Irrefutable(s.p, t, c.p) IN
                            IF i = "n" THEN <<Bad>> ELSE IF i = "?" THEN <<Dunno>> ELSE <<>>)]
    [] s.k = "decl" ->
         LET T0(n) == IF n \in DOMAIN c.dty THEN c.dty[n] ELSE <<"any">> IN
         [acc EXCEPT !.env = FoldLeft(LAMBDA a, n : (n :> [t |-> T0(n), av |-> Av(0, acc, c)]) @@ a, @, s.ns),
                     !.und = FoldLeft(LAMBDA a, n : (n :> T0(n)) @@ a, @, s.ns),
                     !.dec = @ \cup {s.ns[i] : i \in DOMAIN s.ns},
                     !.rs = IF ~Distinct(s.ns) \/ \E i \in DOMAIN s.ns : s.ns[i] \in DOMAIN env
                            THEN Append(@, Bad) ELSE @]
    [] s.k = "assert" -> LET r == Chk(s.e, <<"b">>, env, c) IN
                         [acc EXCEPT !.rs = Append(@, IF r.d > 0 THEN Bad ELSE r)]
    [] s.k = "set" -> LET r == Ty(s.e, env, c) l == Ty(s.l, env, c) IN
                      [acc EXCEPT !.rs = @ \o <<l, r>> \o
                         (IF IsT(l) /\ IsT(r) /\ l.t # <<"inv", r.t>> THEN <<Bad>> ELSE <<>>)]
    [] s.k = "stage" ->
         LET r == IF Has(s, "c") THEN Chk(s.c, <<"b">>, env, [c EXCEPT !.cond = TRUE]) ELSE Ok(<<"b">>, -1) IN
         [acc EXCEPT !.stage = @ + 1,
                     !.rs = Append(@, IF ~c.pipe \/ c.nested \/ r.d > 0 THEN Bad ELSE r)]
    [] s.k = "label" -> IF c.pipe /\ ~c.nested THEN acc ELSE [acc EXCEPT !.rs = Append(@, Bad)]
    [] s.k = "expr" -> [acc EXCEPT !.rs = Append(@, Ty(s.e, env, c))]
    [] OTHER -> [acc EXCEPT !.rs = Append(@, Dunno)]

(* Types of the names a unit's `decl` announces, by their later definition. *)
DeclTys(ss, p) ==
  FoldLeft(LAMBDA a, s : IF s.k \in {"let", "reg"} /\ Has(s, "t")
                         THEN PT(s.p, Conc(s.t, EmptyFn), p).b @@ a ELSE a, EmptyFn, ss)

BoundAgain(u) ==
  LET ns == [i \in DOMAIN u.params |-> u.params[i].n]
            \o FlatSeq([i \in DOMAIN u.ss |-> IF u.ss[i].k \in {"let", "reg"} THEN PNSeq(u.ss[i].p) ELSE <<>>])
  IN {n \in {ns[i] : i \in DOMAIN ns} : Cardinality({i \in DOMAIN ns : ns[i] = n}) > 1}

UnitR(u, p) ==
  LET pipe == u.kind = "pipeline"
      nst == Cardinality({i \in DOMAIN u.ss : u.ss[i].k = "stage"})
      env == FoldLeft(LAMBDA a, q : (q.n :> [t |-> Conc(q.t, EmptyFn),
                         av |-> IF ~pipe \/ Has(q, "wire") \/ q.t[1] = "ck" THEN -1 ELSE 0]) @@ a, EmptyFn, u.params)
      c == [p |-> p, kind |-> u.kind, pipe |-> pipe, stage |-> 0, nst |-> nst, safe |-> TRUE, nested |-> FALSE, cond |-> FALSE, tab |-> EmptyFn,
            final |-> FALSE, dty |-> DeclTys(u.ss, p), multi |-> BoundAgain(u)]
      r1 == BlockR(u.ss, u.e, env, c)
      \* names of the whole body, for stage references
      r2 == BlockR(u.ss, u.e, env, [c EXCEPT !.tab = r1.env])
      r == IF ~pipe THEN r1 ELSE BlockR(u.ss, u.e, env, [c EXCEPT !.tab = r2.env, !.final = TRUE])
      chk == IF ~IsT(r.v) THEN r.v
             ELSE IF r.v.d > 0 THEN Bad
             ELSE IF r.v.t = RetOf(u) THEN r.v
             ELSE Bad
  IN IF ~Distinct([i \in DOMAIN u.params |-> u.params[i].n]) THEN Bad
     ELSE IF pipe /\ (r.stage # u.depth \/ Len(u.params) = 0) THEN Bad
     ELSE IF pipe /\ u.params[1].t[1] # "ck" THEN Bad
     ELSE IF ~Distinct(SelectSeq([i \in DOMAIN u.ss |-> IF u.ss[i].k = "label" THEN u.ss[i].n ELSE ""],
                                 LAMBDA n : n # "")) THEN Bad
     ELSE chk

(* "ok", "err" or "any" *)
Accepts(p) ==
  LET rs == TLCEval([n \in DOMAIN p.units |-> UnitR(p.units[n], p).t[1]]) IN
  IF \E n \in DOMAIN rs : rs[n] = "err" THEN "err"
  ELSE IF \E n \in DOMAIN rs : rs[n] = "any" THEN "any" ELSE "ok"
=============================================================================
