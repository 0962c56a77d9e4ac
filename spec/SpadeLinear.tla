----------------------------- MODULE SpadeLinear ----------------------------
(* Linear use of inverted wires: every inverted wire a unit obtains, from a *)
(* parameter, a call, an instance or a port, is used exactly once.  A wire  *)
(* is used by naming the value it is in (let), by moving that value into a  *)
(* tuple, an array, a struct, an argument or a result, and by setting it.   *)
(* Access to a part (.0, .field, [constant]) moves only the wires of that   *)
(* part; wires moved by `let` are from then on owned by the names of its    *)
(* pattern.  The state is the number of uses of each wire so far.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC, Json, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Runs)
VARIABLES pid, done
vars == <<pid, done>>

Has(r, f) == f \in DOMAIN r
Num(x) == x[2]

(* ---- the inverted wires of a type: data, a wire, or parts ---- *)
D == <<"d">>
RECURSIVE Shape(_, _, _)
Shape(t, flipped, p) ==
  CASE t[1] = "inv" -> Shape(t[2], ~flipped, p)
    [] t[1] = "t" -> <<"n", [i \in DOMAIN t[2] |-> Shape(t[2][i], flipped, p)]>>
    [] t[1] = "a" -> <<"n", [i \in 1..Num(t[3]) |-> Shape(t[2], flipped, p)]>>
    [] t[1] = "st" -> <<"n", [i \in DOMAIN p.structs[t[2]].fs |-> Shape(p.structs[t[2]].fs[i][2], flipped, p)]>>
    [] OTHER -> IF flipped THEN <<"l">> ELSE D

(* ---- the state: uses of each wire, and whether a rule was broken ---- *)
St0 == [uses |-> <<>>, bad |-> FALSE, dunno |-> FALSE]
Break(st) == [st EXCEPT !.bad = TRUE]
Undecided(st) == [st EXCEPT !.dunno = TRUE]

RECURSIVE Alloc(_, _)          \* shape -> tree of new wires
AllocAll(shapes, st) ==
  FoldLeft(LAMBDA a, s : LET r == Alloc(s, a.st) IN [v |-> Append(a.v, r.v), st |-> r.st],
           [v |-> <<>>, st |-> st], shapes)
Alloc(s, st) ==
  CASE s[1] = "d" -> [v |-> D, st |-> st]
    [] s[1] = "l" -> [v |-> <<"l", Len(st.uses) + 1>>, st |-> [st EXCEPT !.uses = Append(@, 0)]]
    [] s[1] = "n" -> LET r == AllocAll(s[2], st) IN [v |-> <<"n", r.v>>, st |-> r.st]
New(t, p, st) == Alloc(TLCEval(Shape(t, FALSE, p)), st)

RECURSIVE Wires(_)
Wires(v) == CASE v[1] = "l" -> {v[2]}
              [] v[1] = "n" -> UNION {Wires(v[2][i]) : i \in DOMAIN v[2]}
              [] OTHER -> {}
Linear(v) == Wires(v) # {}
Use(v, st) == LET w == TLCEval(Wires(v)) IN
              IF w = {} THEN st ELSE [st EXCEPT !.uses = [i \in DOMAIN @ |-> IF i \in w THEN @[i] + 1 ELSE @[i]]]

(* A value that has been moved: the same structure with wires of its own. *)
RECURSIVE Fresh(_, _)
Fresh(v, st) ==
  CASE v[1] = "l" -> Alloc(<<"l">>, st)
    [] v[1] = "n" -> LET r == FoldLeft(LAMBDA a, x : LET q == Fresh(x, a.st) IN [v |-> Append(a.v, q.v), st |-> q.st],
                                       [v |-> <<>>, st |-> st], v[2])
                     IN [v |-> <<"n", r.v>>, st |-> r.st]
    [] OTHER -> [v |-> v, st |-> st]
Move(v, st) == IF Linear(v) THEN LET s2 == Use(v, st) IN Fresh(v, s2) ELSE [v |-> v, st |-> st]

Part(v, i) == IF v[1] = "n" /\ i \in DOMAIN v[2] THEN v[2][i] ELSE D

(* ---- names bound by a pattern; every name owns what it is bound to ---- *)
RECURSIVE Bind(_, _, _, _, _)
BindAll(ps, vs, env, st, p) ==
  FoldLeft(LAMBDA a, i : Bind(ps[i], IF i \in DOMAIN vs THEN vs[i] ELSE D, a.env, a.st, p),
           [env |-> env, st |-> st], [i \in DOMAIN ps |-> i])
Bind(q, v, env, st, p) ==
  CASE q.k = "pn" -> [env |-> (q.n :> v) @@ env, st |-> st]
    [] q.k = "pw" -> [env |-> env, st |-> st]            \* its wires can never be used
    [] q.k = "pt" -> BindAll(q.ps, [i \in DOMAIN q.ps |-> Part(v, i)], env, st, p)
    [] q.k = "ps" -> LET names == [i \in DOMAIN p.structs[q.s].fs |-> p.structs[q.s].fs[i][1]]
                         pos(f) == CHOOSE i \in DOMAIN names : names[i] = f
                     IN BindAll([i \in DOMAIN q.fs |-> q.fs[i][2]],
                                [i \in DOMAIN q.fs |-> Part(v, pos(q.fs[i][1]))], env, st, p)
    [] q.k = "pat" -> LET b == Bind(q.p, D, (q.n :> D) @@ env, st, p)       \* both names would own the wires
                      IN IF Linear(v) THEN [b EXCEPT !.st = Break(@)] ELSE b
    [] q.k \in {"pi", "pb"} -> [env |-> env, st |-> st]
    [] OTHER -> BindAll(q.ps, <<>>, env, st, p)          \* enum variants hold only data

(* ---- expressions: the wires of the value, and the new state ---- *)
RECURSIVE Ev(_, _, _, _), Body(_, _, _, _, _)
(* every expression in a place that uses its value *)
EvUse(e, env, st, p) == LET r == Ev(e, env, st, p) IN Move(r.v, r.st)
EvAll(es, env, st, p) ==
  FoldLeft(LAMBDA a, e : LET r == EvUse(e, env, a.st, p) IN [v |-> Append(a.v, r.v), st |-> r.st],
           [v |-> <<>>, st |-> st], es)
(* handed over to another unit, which answers for them from then on *)
Hand(es, env, st, p) == FoldLeft(LAMBDA a, e : LET r == Ev(e, env, a, p) IN Use(r.v, r.st), st, es)
DataOf(es, env, st, p) == [v |-> D, st |-> EvAll(es, env, st, p).st]

Ev(e, env, st, p) ==
  CASE e.k = "var" -> [v |-> IF e.n \in DOMAIN env THEN env[e.n] ELSE D, st |-> st]
    [] e.k \in {"tup", "arr"} -> LET r == EvAll(e.es, env, st, p) IN [v |-> <<"n", r.v>>, st |-> r.st]
    [] e.k = "str" ->
         LET r == EvAll(e.es, env, st, p)
             names == [i \in DOMAIN p.structs[e.s].fs |-> p.structs[e.s].fs[i][1]]
         IN [v |-> IF Has(e, "an")
                   THEN <<"n", [i \in DOMAIN names |-> LET js == {j \in DOMAIN e.an : e.an[j] = names[i]} IN
                                                       IF js = {} THEN D ELSE r.v[CHOOSE j \in js : TRUE]]>>
                   ELSE <<"n", r.v>>, st |-> r.st]
    [] e.k = "tix" -> LET r == Ev(e.e, env, st, p) IN [v |-> Part(r.v, e.i + 1), st |-> r.st]
    [] e.k = "fld" ->
         LET r == Ev(e.e, env, st, p)
             fs == p.structs[e.s].fs
             i == CHOOSE i \in DOMAIN fs : fs[i][1] = e.f
         IN [v |-> Part(r.v, i), st |-> r.st]
    [] e.k = "idx" ->
         LET r == Ev(e.e, env, st, p)
             i == EvUse(e.i, env, r.st, p)
         IN IF ~Linear(r.v) THEN [v |-> D, st |-> i.st]
            ELSE IF e.i.k # "lit" THEN [v |-> D, st |-> Break(i.st)]       \* the element has to be known
            ELSE IF e.i.v + 1 \notin DOMAIN r.v[2] THEN [v |-> D, st |-> Break(i.st)]
            ELSE [v |-> Part(r.v, e.i.v + 1), st |-> i.st]
    [] e.k = "rng" ->                                      \* moves the elements in the range
         LET r == Ev(e.e, env, st, p)
             lo == IF Has(e, "a") THEN Num(e.a) ELSE 0
             hi == IF Has(e, "b") THEN Num(e.b) ELSE IF r.v[1] = "n" THEN Len(r.v[2]) ELSE lo
         IN IF r.v[1] # "n" THEN [v |-> D, st |-> r.st]
            ELSE IF lo > hi \/ hi > Len(r.v[2]) THEN [v |-> D, st |-> Break(r.st)]
            ELSE Move(<<"n", SubSeq(r.v[2], lo + 1, hi)>>, r.st)
    [] e.k = "rep" ->
         LET r == EvUse(e.e, env, st, p)
         IN IF ~Linear(r.v) THEN [v |-> D, st |-> r.st]
            ELSE IF Num(e.n) > 1 THEN [v |-> D, st |-> Break(r.st)] ELSE [v |-> D, st |-> Undecided(r.st)]
    [] e.k = "cast" -> EvUse(e.e, env, st, p)
    [] e.k = "par" -> Ev(e.e, env, st, p)
    [] e.k = "ref" -> LET r == Ev(e.e, env, st, p) IN [v |-> D, st |-> r.st]       \* looking is not using
    [] e.k = "blk" -> LET r == Body(e.ss, e.e, env, st, p) IN r
    [] e.k = "port" -> LET d == New(e.t, p, st)
                           i == New(<<"inv", e.t>>, p, d.st)
                       IN [v |-> <<"n", <<d.v, i.v>>>>, st |-> i.st]
    [] e.k \in {"call", "inst"} -> New(p.units[e.u].rt, p, Hand(e.args, env, st, p))
    [] e.k \in {"if", "gif"} ->
         LET c == EvUse(e.c, env, st, p)
             a == EvUse(e.a, env, c.st, p)
             b == EvUse(e.b, env, a.st, p)
         IN [v |-> D, st |-> IF Linear(a.v) \/ Linear(b.v) THEN Break(b.st) ELSE b.st]   \* wires have one end each
    [] e.k = "match" ->
         LET s == EvUse(e.e, env, st, p)
         IN IF Linear(s.v) THEN [v |-> D, st |-> Break(s.st)]
            ELSE [v |-> D, st |-> FoldLeft(LAMBDA a, arm :
                     LET b == Bind(arm.p, D, env, a, p)
                         g == IF Has(arm, "g") THEN EvUse(arm.g, b.env, b.st, p).st ELSE b.st
                         x == EvUse(arm.e, b.env, g, p)
                     IN IF Linear(x.v) THEN Break(x.st) ELSE x.st, s.st, e.arms)]
    [] e.k = "iflet" ->
         LET s == EvUse(e.e, env, st, p)
             b == Bind(e.p, D, env, s.st, p)
             x == EvUse(e.a, b.env, b.st, p)
             y == EvUse(e.b, env, x.st, p)
         IN [v |-> D, st |-> IF Linear(s.v) \/ Linear(x.v) \/ Linear(y.v) THEN Break(y.st) ELSE y.st]
    [] e.k = "bin" -> DataOf(<<e.l, e.r>>, env, st, p)
    [] e.k = "un" -> DataOf(<<e.e>>, env, st, p)
    [] e.k \in {"enm"} -> DataOf(e.es, env, st, p)
    [] e.k = "std" -> DataOf(e.args, env, st, p)
    [] e.k \in {"lit", "bool", "unit", "nlit", "valid", "ready"} -> [v |-> D, st |-> st]
    [] OTHER -> [v |-> D, st |-> Undecided(st)]

(* ---- statements ---- *)
Do(a, s, p) ==
  CASE s.k = "let" ->
         LET r == EvUse(s.e, a.env, a.st, p) IN Bind(s.p, r.v, a.env, r.st, p)
    [] s.k = "set" ->
         LET l == Ev(s.l, a.env, a.st, p)
             r == Ev(s.e, a.env, l.st, p)
             u == Use(l.v, r.st)
         IN [env |-> a.env, st |-> Use(r.v, u)]
    [] s.k = "assert" -> LET r == EvUse(s.e, a.env, a.st, p) IN [env |-> a.env, st |-> r.st]
    [] s.k = "expr" -> LET r == Ev(s.e, a.env, a.st, p)
                       IN [env |-> a.env, st |-> IF Linear(r.v) THEN Break(r.st) ELSE r.st]
    [] s.k = "reg" ->
         LET es == <<s.ck, s.e>> \o (IF Has(s, "rst") THEN <<s.rst.c, s.rst.v>> ELSE <<>>) \o (IF Has(s, "init") THEN <<s.init>> ELSE <<>>)
             b == Bind(s.p, D, a.env, a.st, p)
             r == EvAll(es, b.env, b.st, p)
         IN [env |-> b.env, st |-> IF \E i \in DOMAIN r.v : Linear(r.v[i]) THEN Break(r.st) ELSE r.st]
    [] s.k \in {"stage", "label"} -> a
    [] OTHER -> [a EXCEPT !.st = Undecided(@)]

Body(ss, e, env, st, p) ==
  LET a == FoldLeft(LAMBDA x, s : Do(x, s, p), [env |-> env, st |-> st], ss)
  IN EvUse(e, a.env, a.st, p)

Empty == [x \in {} |-> D]
UnitVerdict(u, p) ==
  LET prm == FoldLeft(LAMBDA a, q : LET r == New(q.t, p, a.st) IN [env |-> (q.n :> r.v) @@ a.env, st |-> r.st],
                      [env |-> Empty, st |-> St0], u.params)
      r == Body(u.ss, u.e, prm.env, prm.st, p)
      z == Use(r.v, r.st)             \* the caller takes over what is returned
  IN IF z.dunno THEN "any"
     ELSE IF z.bad \/ \E i \in DOMAIN z.uses : z.uses[i] # 1 THEN "err" ELSE "ok"

Verdict(p) ==
  LET vs == {UnitVerdict(p.units[n], p) : n \in DOMAIN p.units}
  IN IF "err" \in vs THEN "err" ELSE IF "any" \in vs THEN "any" ELSE "ok"

Init == pid \in 1..N /\ done = FALSE
Next ==
  /\ ~done
  /\ done' = TRUE
  /\ UNCHANGED pid
  /\ LET v == Verdict(Runs[pid].prog) IN
     IF v = "any" \/ v = Runs[pid].verdict
     THEN (IF v = "any" THEN PrintT("UNDECIDED") ELSE TRUE)
     ELSE PrintT("REJECT " \o ToJson(<<Runs[pid].id, v, Runs[pid].verdict>>))
Spec == Init /\ [][Next]_vars
=============================================================================
