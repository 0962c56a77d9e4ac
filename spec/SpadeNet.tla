------------------------------ MODULE SpadeNet ------------------------------
(***************************************************************************)
(* What a well-formed netlist is: the rules of IEEE 1364/1800 for the part *)
(* of Verilog in which designs are emitted, and the stricter rule that the *)
(* two sides of an assignment have the same width.                         *)
(*                                                                         *)
(*   Faults(m, iface)  the rules which module m breaks; iface[n] is the    *)
(*                     interface of the module named n, where there is one *)
(*   PortFaults(u, m)  how the ports of m differ from those of unit u      *)
(*                                                                         *)
(* Expressions, statements and items are the syntax tree of the text.      *)
(* A width of -1 is one which is not known (it depends on a parameter).    *)
(***************************************************************************)
EXTENDS SpadeSem

NoC == -1000000                \* not a constant

RECURSIVE CVal(_, _)
(* The value of a constant expression; env has the local parameters. *)
CVal(e, env) ==
  CASE e[1] = "n" -> IF e[3] < 0 THEN NoC ELSE e[3]
    [] e[1] = "i" -> IF e[2] \in DOMAIN env THEN env[e[2]].c ELSE NoC
    [] e[1] = "u" /\ e[2] = "-" -> LET a == CVal(e[3], env) IN IF a = NoC THEN NoC ELSE -a
    [] e[1] = "2" -> LET a == CVal(e[3], env) b == CVal(e[4], env) IN
         IF a = NoC \/ b = NoC THEN NoC
         ELSE (CASE e[2] = "+" -> a + b [] e[2] = "-" -> a - b
                 [] e[2] = "*" /\ a < 4096 /\ a > -4096 /\ b < 4096 /\ b > -4096 -> a * b [] OTHER -> NoC)
    [] OTHER -> NoC

(* Width of a range: <<>> is a scalar; 0 stands for an ill-formed range. *)
RangeW(r, env) == IF r = <<>> THEN 1
  ELSE LET h == CVal(r[1], env) l == CVal(r[2], env) IN
       IF h = NoC \/ l = NoC THEN -1 ELSE IF l # 0 \/ h < 0 THEN 0 ELSE h + 1

(* Declarations: name -> [w, sc (scalar), mem (length, 0: none), k, at, c] *)
(* at is the number of the item which declares the name.                   *)
DeclOf(it, at, env) ==
  CASE it[1] = "net" -> [w |-> RangeW(it[3], env), sc |-> it[3] = <<>>, k |-> "net", at |-> at, c |-> NoC,
                         mem |-> IF it[4] = <<>> THEN 0 ELSE RangeW(it[4], env)]
    [] it[1] \in {"local", "param"} ->
         [w |-> IF it[3] = <<>> THEN -1 ELSE RangeW(it[3], env), sc |-> it[3] = <<>>, k |-> "const", at |-> at, mem |-> 0,
          c |-> IF it[1] = "local" THEN CVal(it[4], env) ELSE NoC]
Declares(it) == it[1] \in {"net", "local", "param"}
PortDecl(p) == [w |-> RangeW(p[3], EmptyFn), sc |-> p[3] = <<>>, k |-> p[2], at |-> 0, mem |-> 0, c |-> NoC]
Env(m) ==
  LET ports == FoldLeft(LAMBDA a, p : (p[1] :> PortDecl(p)) @@ a, EmptyFn, m.ports)
  IN FoldLeft(LAMBDA a, k : LET it == m.items[k] IN
                IF Declares(it) /\ it[2] \notin DOMAIN a THEN (it[2] :> DeclOf(it, k, a)) @@ a ELSE a,
              ports, [k \in DOMAIN m.items |-> k])
DeclNames(m) == [i \in DOMAIN m.ports |-> m.ports[i][1]]
  \o [i \in DOMAIN SelectSeq(m.items, Declares) |-> SelectSeq(m.items, Declares)[i][2]]

----------------------------------------------------------------------------
(* Expressions: [w, f, bad].  f: the width adapts to the context (carries  *)
(* of arithmetic, numbers without a size).                                 *)
R(w, f, bad) == [w |-> w, f |-> f, bad |-> bad]
Clash(a, b) == a.w >= 0 /\ b.w >= 0 /\ a.w # b.w /\ ~a.f /\ ~b.f
Wider(a, b) == IF a.w > b.w THEN a.w ELSE b.w
If1(c, x) == IF c THEN {x} ELSE {}

(* A name in item `at`. *)
NameBad(n, at, env) == IF n \notin DOMAIN env THEN {<<"undeclared", n>>}
                       ELSE If1(env[n].at > at, <<"used before its declaration", n>>)
SelBad(n, lo, w, env) ==      \* bits lo .. lo + w - 1 of a vector; lo = NoC: not constant
  LET d == env[n] IN
  If1(d.sc /\ d.k # "const", <<"select of a scalar", n>>)
  \cup If1(d.w >= 0 /\ w >= 0 /\ (IF lo = NoC THEN w > d.w ELSE lo < 0 \/ w <= 0 \/ lo + w > d.w),
           <<"select out of range", n>>)

(* An index that is a named constant is out of range only when it is used:  *)
(* a choice of the program, not of the netlist.                            *)
RECURSIVE X(_, _, _)
Xs(es, at, env) == TLCEval([i \in DOMAIN es |-> X(es[i], at, env)])
Bads(rs) == UNION {rs[i].bad : i \in DOMAIN rs}
Sel(b, lo, w, at, env, more) ==
  IF b[1] # "i" THEN R(w, FALSE, {<<"select of an expression", "">>})
  ELSE LET nb == NameBad(b[2], at, env) IN
       R(w, FALSE, more \cup nb \cup (IF nb = {} THEN SelBad(b[2], lo, w, env) ELSE {}))
X(e, at, env) ==
  CASE e[1] = "n" -> R(e[2], e[4] = 1 \/ e[2] = 32, {})
    [] e[1] = "str" -> R(e[2], TRUE, {})
    [] e[1] = "i" -> LET nb == NameBad(e[2], at, env) IN
         IF nb # {} THEN R(-1, TRUE, nb)
         ELSE R(env[e[2]].w, FALSE, If1(env[e[2]].mem # 0, <<"memory without an index", e[2]>>))
    [] e[1] = "b" ->
         LET ib == X(e[3], at, env).bad k == CVal(e[3], EmptyFn) IN
         IF e[2][1] # "i" THEN R(1, FALSE, ib \cup X(e[2], at, env).bad)
         ELSE LET n == e[2][2] nb == NameBad(n, at, env) IN
              IF nb # {} THEN R(1, FALSE, nb \cup ib)
              ELSE IF env[n].mem # 0
              THEN R(env[n].w, FALSE, ib \cup If1(k # NoC /\ env[n].mem > 0 /\ (k < 0 \/ k >= env[n].mem), <<"memory index out of range", n>>))
              ELSE R(1, FALSE, ib \cup SelBad(n, k, 1, env))
    [] e[1] = "p" ->
         LET h == CVal(e[3], env) l == CVal(e[4], env) IN
         Sel(e[2], l, IF h = NoC \/ l = NoC THEN -1 ELSE h - l + 1, at, env, {})
    [] e[1] \in {"up", "dn"} ->
         LET s == CVal(e[3], EmptyFn) c == CVal(e[4], env) w == IF c = NoC THEN -1 ELSE c IN
         Sel(e[2], IF s = NoC THEN NoC ELSE IF e[1] = "up" THEN s ELSE s - w + 1, w, at, env, X(e[3], at, env).bad)
    [] e[1] = "u" ->
         LET a == X(e[3], at, env) IN
         CASE e[2] \in {"-", "+"} -> R(a.w, TRUE, a.bad)
           [] e[2] = "~" -> a
           [] OTHER -> R(1, FALSE, a.bad)
    [] e[1] = "2" ->
         LET a == X(e[3], at, env) b == X(e[4], at, env) bad == a.bad \cup b.bad IN
         CASE e[2] \in {"&&", "||"} -> R(1, FALSE, bad)
           [] e[2] \in {"==", "!=", "<", "<=", ">", ">=", "===", "!=="} ->
                R(1, FALSE, bad \cup If1(Clash(a, b), <<"comparison of different widths", ToString(<<a.w, b.w>>)>>))
           [] e[2] \in {"<<", ">>", "<<<", ">>>"} -> R(a.w, a.f, bad)
           [] e[2] \in {"&", "|", "^"} ->
                R(Wider(a, b), a.f /\ b.f, bad \cup If1(Clash(a, b), <<"operands of different widths", ToString(<<a.w, b.w>>)>>))
           [] OTHER -> R(Wider(a, b), TRUE, bad)
    [] e[1] = "?" ->
         LET c == X(e[2], at, env) a == X(e[3], at, env) b == X(e[4], at, env) IN
         R(Wider(a, b), a.f /\ b.f, c.bad \cup a.bad \cup b.bad
            \cup If1(Clash(a, b), <<"branches of different widths", ToString(<<a.w, b.w>>)>>))
    [] e[1] = "cat" ->
         LET rs == Xs(e[2], at, env) IN
         R(IF \E i \in DOMAIN rs : rs[i].w < 0 THEN -1 ELSE SumSeq([i \in DOMAIN rs |-> rs[i].w]), FALSE,
           Bads(rs) \cup If1(\E i \in DOMAIN rs : e[2][i][1] = "n" /\ rs[i].f /\ rs[i].w = 32, <<"number without a size in a concatenation", "">>))
    [] e[1] = "rep" ->
         LET k == CVal(e[2], env) a == X(e[3], at, env) IN
         R(IF a.w < 0 \/ k = NoC THEN -1 ELSE k * a.w, FALSE, a.bad \cup If1(k # NoC /\ k <= 0, <<"replication count", ToString(k)>>))
    [] e[1] = "cast" -> X(e[2], at, env)
    [] e[1] = "call" -> R(-1, TRUE, Bads(Xs(e[2], at, env)))

(* Names an expression reads. *)
RECURSIVE Reads(_)
ReadAll(es) == UNION {Reads(es[i]) : i \in DOMAIN es}
Reads(e) ==
  CASE e[1] \in {"n", "str"} -> {}
    [] e[1] = "i" -> {e[2]}
    [] e[1] \in {"b", "p", "up", "dn"} -> Reads(e[2]) \cup Reads(e[3])
    [] e[1] \in {"u", "rep"} -> Reads(e[3])
    [] e[1] = "2" -> Reads(e[3]) \cup Reads(e[4])
    [] e[1] = "?" -> Reads(e[2]) \cup Reads(e[3]) \cup Reads(e[4])
    [] e[1] \in {"cat", "call"} -> ReadAll(e[2])
    [] e[1] = "cast" -> Reads(e[2])

(* Targets: [w, bad, ds]; ds are the bits set: <<name, first, number>>.    *)
(* A memory or a choice at run time sets the whole variable.               *)
RECURSIVE L(_, _, _)
LR(w, bad, ds) == [w |-> w, bad |-> bad, ds |-> ds]
LName(n, at, env) ==
  LET nb == NameBad(n, at, env) IN
  IF nb # {} THEN nb
  ELSE If1(env[n].k = "const", <<"assignment to a constant", n>>) \cup If1(env[n].k = "in", <<"assignment to an input", n>>)
LSel(b, lo, w, at, env, more) ==
  IF b[1] # "i" THEN LR(w, {<<"target", "">>}, <<>>)
  ELSE LET n == b[2] nb == LName(n, at, env) IN
       IF n \notin DOMAIN env THEN LR(w, nb, <<>>)
       ELSE LR(w, more \cup nb \cup SelBad(n, lo, w, env),
               IF env[n].w < 0 \/ w < 0 THEN <<>> ELSE IF lo = NoC THEN << <<n, 0, env[n].w>> >> ELSE << <<n, lo, w>> >>)
L(e, at, env) ==
  CASE e[1] = "i" -> LET nb == LName(e[2], at, env) IN
         IF e[2] \notin DOMAIN env THEN LR(-1, nb, <<>>)
         ELSE LR(env[e[2]].w, nb \cup If1(env[e[2]].mem # 0, <<"memory without an index", e[2]>>),
                 IF env[e[2]].w < 0 THEN <<>> ELSE << <<e[2], 0, env[e[2]].w>> >>)
    [] e[1] = "b" ->
         LET n == IF e[2][1] = "i" THEN e[2][2] ELSE "" ib == X(e[3], at, env).bad k == CVal(e[3], env) IN
         IF n \in DOMAIN env /\ env[n].mem # 0
         THEN LR(env[n].w, ib \cup LName(n, at, env)
                           \cup If1(k # NoC /\ env[n].mem > 0 /\ (k < 0 \/ k >= env[n].mem), <<"memory index out of range", n>>),
                 << <<n, 0, 0>> >>)
         ELSE LSel(e[2], k, 1, at, env, ib)
    [] e[1] = "p" -> LET h == CVal(e[3], env) l == CVal(e[4], env) IN
         LSel(e[2], l, IF h = NoC \/ l = NoC THEN -1 ELSE h - l + 1, at, env, {})
    [] e[1] \in {"up", "dn"} ->
         LET s == CVal(e[3], env) c == CVal(e[4], env) w == IF c = NoC THEN -1 ELSE c IN
         LSel(e[2], IF s = NoC THEN NoC ELSE IF e[1] = "up" THEN s ELSE s - w + 1, w, at, env, X(e[3], at, env).bad)
    [] e[1] = "cat" ->
         LET rs == TLCEval([i \in DOMAIN e[2] |-> L(e[2][i], at, env)]) IN
         LR(IF \E i \in DOMAIN rs : rs[i].w < 0 THEN -1 ELSE SumSeq([i \in DOMAIN rs |-> rs[i].w]), Bads(rs),
            FlatSeq([i \in DOMAIN rs |-> rs[i].ds]))
    [] OTHER -> LR(-1, {<<"target", "">>}, <<>>)

(* Items and statements: [bad, ds, rd]. *)
A(bad, ds, rd) == [bad |-> bad, ds |-> ds, rd |-> rd]
Nothing == A({}, <<>>, {})
Both(a, b) == A(a.bad \cup b.bad, a.ds \o b.ds, a.rd \cup b.rd)
BothAll(rs) == FoldLeft(Both, Nothing, rs)
TargetReads(l) == IF l[1] = "cat" THEN {} ELSE IF l[1] \in {"b", "up", "dn"} THEN Reads(l[3]) ELSE {}
Ex(e, at, env) == A(X(e, at, env).bad, <<>>, Reads(e))
Assign(l, r, at, env) ==
  LET t == TLCEval(L(l, at, env)) v == TLCEval(X(r, at, env)) IN
  A(t.bad \cup v.bad \cup If1(t.w >= 0 /\ v.w >= 0 /\ t.w # v.w /\ ~v.f,
                              <<"assignment of another width", ToString(<<t.ds, t.w, v.w>>)>>),
    t.ds, Reads(r) \cup TargetReads(l))
RECURSIVE St(_, _, _)
St(s, at, env) ==
  CASE s[1] = "blk" -> BothAll(TLCEval([i \in DOMAIN s[2] |-> St(s[2][i], at, env)]))
    [] s[1] = "if" -> Both(Ex(s[2], at, env), Both(St(s[3], at, env), IF s[4] = <<>> THEN Nothing ELSE St(s[4][1], at, env)))
    [] s[1] = "case" ->
         LET sel == X(s[2], at, env) IN
         Both(Ex(s[2], at, env), Both(
           BothAll([i \in DOMAIN s[3] |-> Both(
              BothAll([j \in DOMAIN s[3][i][1] |->
                        Both(Ex(s[3][i][1][j], at, env),
                            A(If1(Clash(sel, X(s[3][i][1][j], at, env)), <<"case of another width", "">>), <<>>, {}))]),
              St(s[3][i][2], at, env))]),
           IF s[4] = <<>> THEN Nothing ELSE St(s[4][1], at, env)))
    [] s[1] = "set" -> Assign(s[2], s[3], at, env)
    [] s[1] = "ast" -> Ex(s[2], at, env)
    [] OTHER -> Nothing

(* Variables which a statement assigns on every path.  A combinational     *)
(* process that leaves one of its variables alone on some path is a latch. *)
RECURSIVE Always(_)
TName(l) == IF l[1] = "i" THEN {l[2]} ELSE {}
Default(s) ==      \* the arms that are taken when no other is
  SelectSeq(s[3], LAMBDA a : \E i \in DOMAIN a[1] : a[1][i][1] = "n" /\ a[1][i][3] = -2)
Always(s) ==
  CASE s[1] = "blk" -> UNION {Always(s[2][i]) : i \in DOMAIN s[2]}
    [] s[1] = "if" -> IF s[4] = <<>> THEN {} ELSE Always(s[3]) \cap Always(s[4][1])
    [] s[1] = "case" -> IF s[4] = <<>> /\ Default(s) = <<>> THEN {}
                        ELSE LET one == IF s[4] # <<>> THEN s[4][1] ELSE Default(s)[1][2] IN
                             {n \in Always(one) : \A i \in DOMAIN s[3] : n \in Always(s[3][i][2])}
    [] s[1] = "set" -> TName(s[2])
    [] OTHER -> {}
Latches(s, r) == {<<"latch", n>> : n \in {r.ds[i][1] : i \in DOMAIN r.ds} \ Always(s)}

(* Connections of an instance. *)
Conn(c, p, who, at, env, parametric) ==      \* c = <<port, expression>>, p: the port
  IF c[2] = <<>> THEN Nothing
  ELSE LET e == c[2][1]
           pw == RangeW(p[3], EmptyFn)
           bad(w, f) == If1(~parametric /\ pw >= 0 /\ w >= 0 /\ w # pw /\ ~f,
                            <<"connection of another width", ToString(<<who, p[1], pw, w>>)>>)
       IN IF p[2] = "out"
          THEN LET t == L(e, at, env) IN A(t.bad \cup bad(t.w, FALSE), t.ds, TargetReads(e))
          ELSE LET v == X(e, at, env) IN A(v.bad \cup bad(v.w, v.f), <<>>, Reads(e))
Inst(it, at, env, iface) ==
  IF it[2] \notin DOMAIN iface THEN A({<<"unknown module", it[2]>>}, <<>>, {})
  ELSE LET ch == iface[it[2]]
           names == {ch.ports[i][1] : i \in DOMAIN ch.ports}
           given == {it[5][i][1] : i \in DOMAIN it[5]}
           port(n) == ch.ports[CHOOSE i \in DOMAIN ch.ports : ch.ports[i][1] = n]
       IN Both(A({<<"no such port", ToString(<<it[2], n>>)>> : n \in given \ names}
                \cup {<<"unconnected port", ToString(<<it[2], n>>)>> : n \in names \ given}
                \cup If1(Cardinality(given) # Len(it[5]), <<"port connected twice", it[3]>>)
                \cup {<<"no such parameter", it[4][i][1]>> : i \in {j \in DOMAIN it[4] : ~\E k \in DOMAIN ch.param : ch.param[k] = it[4][j][1]}},
                <<>>, {}),
              BothAll(TLCEval([i \in DOMAIN it[5] |->
                 IF it[5][i][1] \in names THEN Conn(it[5][i], port(it[5][i][1]), it[3], at, env, ch.param # <<>>) ELSE Nothing])))

Item(m, at, env, iface) ==
  LET it == m.items[at] IN
  CASE it[1] = "net" -> Both(A(If1(RangeW(it[3], env) = 0 \/ (it[4] # <<>> /\ RangeW(it[4], env) = 0), <<"empty range", it[2]>>), <<>>, {}),
                            IF it[5] = <<>> THEN Nothing ELSE Assign(<<"i", it[2]>>, it[5][1], at, env))
    [] it[1] \in {"local", "param"} ->
         LET v == X(it[4], at - 1, env) w == IF it[3] = <<>> THEN -1 ELSE RangeW(it[3], env) c == CVal(it[4], env) IN
         A(v.bad \cup If1(w = 0, <<"empty range", it[2]>>)
           \cup If1(w >= 0 /\ v.w >= 0 /\ w # v.w /\ ~v.f, <<"constant of another width", it[2]>>)
           \cup If1(w > 0 /\ w < 30 /\ c # NoC /\ (c >= 2^w \/ c < -(2^(w - 1))), <<"constant does not fit", it[2]>>), <<>>, {})
    [] it[1] = "assign" -> Assign(it[2], it[3], at, env)
    [] it[1] = "comb" -> LET r == TLCEval(St(it[2], at, env)) IN A(r.bad \cup Latches(it[2], r), r.ds, r.rd)
    [] it[1] = "seq" -> Both(BothAll([i \in DOMAIN it[2] |->
                               Both(Ex(it[2][i], at, env), A(If1(X(it[2][i], at, env).w > 1, <<"edge of a vector", "">>), <<>>, {}))]),
                            St(it[3], at, env))
    [] it[1] = "chg" -> Both(BothAll([i \in DOMAIN it[2] |-> Ex(it[2][i], at, env)]), St(it[3], at, env))
    [] it[1] = "init" -> LET r == St(it[2], at, env) IN A(r.bad, <<>>, r.rd)
    [] it[1] = "inst" -> Inst(it, at, env, iface)
Continuous(it) == it[1] \in {"net", "assign", "inst"}

(* Drivers of a variable: each bit has one continuous driver, or the       *)
(* variable belongs to one process.                                        *)
DriverFaults(n, d, cont, procs, read) ==      \* cont: <<first, number>> of each continuous driver
  LET overlap == \E i, j \in DOMAIN cont : i < j /\ cont[i][1] < cont[j][1] + cont[j][2] /\ cont[j][1] < cont[i][1] + cont[i][2]
      full == procs # {} \/ SumSeq([i \in DOMAIN cont |-> cont[i][2]]) >= d.w
  IN If1(overlap, <<"several drivers", n>>)
     \cup If1(Cardinality(procs) > 1 \/ (procs # {} /\ cont # <<>>), <<"several processes", n>>)
     \cup If1(~full /\ d.mem = 0 /\ d.w >= 0 /\ (d.k = "out" \/ (d.k = "net" /\ read)), <<"not driven", n>>)

Faults(m, iface) ==
  LET env == TLCEval(Env(m))
      rs == TLCEval([k \in DOMAIN m.items |-> Item(m, k, env, iface)])
      names == DeclNames(m)
      insts == SelectSeq(m.items, LAMBDA it : it[1] = "inst")
      inames == {insts[k][3] : k \in DOMAIN insts}
      read == UNION {rs[k].rd : k \in DOMAIN rs}
      Add(f, n, x) == IF n \in DOMAIN f THEN [f EXCEPT ![n] = Append(@, x)] ELSE (n :> <<x>>) @@ f
      cont == TLCEval(FoldLeft(LAMBDA a, k : IF ~Continuous(m.items[k]) THEN a
                  ELSE FoldLeft(LAMBDA b, x : Add(b, x[1], <<x[2], x[3]>>), a, rs[k].ds),
                EmptyFn, [k \in DOMAIN rs |-> k]))
      proc == TLCEval(FoldLeft(LAMBDA a, k : IF Continuous(m.items[k]) THEN a
                  ELSE FoldLeft(LAMBDA b, x : Add(b, x[1], k), a, rs[k].ds),
                EmptyFn, [k \in DOMAIN rs |-> k]))
      Of(f, n) == IF n \in DOMAIN f THEN f[n] ELSE <<>>
  IN UNION {rs[k].bad : k \in DOMAIN rs}
     \cup If1(Cardinality({names[i] : i \in DOMAIN names}) # Len(names),
              <<"declared twice", ToString({names[i] : i \in {j \in DOMAIN names : \E k \in DOMAIN names : k < j /\ names[k] = names[j]}})>>)
     \cup If1(Cardinality(inames) # Len(insts), <<"two instances of one name", ToString(inames)>>)
     \cup {<<"an instance and a variable of one name", n>> : n \in inames \cap DOMAIN env}
     \cup UNION {If1(RangeW(m.ports[i][3], EmptyFn) = 0, <<"empty range", m.ports[i][1]>>) : i \in DOMAIN m.ports}
     \cup UNION {IF env[n].k \in {"const", "inout"} THEN {}
                 ELSE DriverFaults(n, env[n], Of(cont, n), {Of(proc, n)[i] : i \in DOMAIN Of(proc, n)}, n \in read)
                 : n \in DOMAIN env}

----------------------------------------------------------------------------
(* The ports of the module of unit u of program p: a parameter x has the   *)
(* input x_i for the bits that flow into the unit, and the output x_o for  *)
(* those that flow out of it; the result leaves by output__ and its        *)
(* inverted bits enter by input__.                                         *)
RECURSIVE Flow(_, _, _)
Flow(t, fwd, p) ==
  CASE t[1] = "t" -> SumSeq([i \in DOMAIN t[2] |-> Flow(t[2][i], fwd, p)])
    [] t[1] = "a" -> t[3] * Flow(t[2], fwd, p)
    [] t[1] = "st" -> LET f == FieldTypes(t, p) IN SumSeq([i \in DOMAIN f |-> Flow(f[i], fwd, p)])
    [] t[1] = "inv" -> Flow(t[2], ~fwd, p)
    [] OTHER -> IF fwd THEN Width(t, p) ELSE 0
PortsOf(u, p) ==
  LET one(n, t, i, o) == {x \in {<<i, "in", Flow(t, TRUE, p)>>, <<o, "out", Flow(t, FALSE, p)>>} : x[3] > 0}
      pars == UNION {one(0, Conc(u.params[k].t, EmptyFn), u.params[k].n \o "_i", u.params[k].n \o "_o") : k \in DOMAIN u.params}
  IN pars \cup (IF ~Has(u, "rt") THEN {}
                ELSE LET t == Conc(u.rt, EmptyFn) IN
                     {x \in {<<"output__", "out", Flow(t, TRUE, p)>>, <<"input__", "in", Flow(t, FALSE, p)>>} : x[3] > 0})
PortFaults(u, p, ports) ==
  LET have == {<<ports[i][1], ports[i][2], RangeW(ports[i][3], EmptyFn)>> : i \in DOMAIN ports}
      want == PortsOf(u, p)
  IN {<<"missing port", ToString(x)>> : x \in want \ have} \cup {<<"another port", ToString(x)>> : x \in have \ want}
=============================================================================
