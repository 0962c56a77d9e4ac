----------------------------- MODULE SpadeParse -----------------------------
(* From the characters of an expression to its value: lexical structure     *)
(* (longest match, white space, line comments, nested block comments), the  *)
(* grammar of expressions with its levels of precedence, and evaluation.    *)
EXTENDS WideArith, FiniteSets, Json, IOUtils

(********************************** lexing ***********************************)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
DigitOf == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6
    [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9 [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
    [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] c \in {"f","F"} -> 15]
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Blank == {" ", "\t", "\n", "\r"}
Sym3 == {">>>", ">>.", "<<."}
Sym2 == {"==", "!=", "<=", ">=", ">>", "<<", "+.", "-.", "*.", "||", "&&", "^^", "=>", "->", "..", "::"}

At(s, i) == IF i <= Len(s) THEN s[i] ELSE "\n"
RECURSIVE EndOfWord(_, _), EndOfLine(_, _), EndOfBlock(_, _, _), Text(_, _, _)
EndOfWord(s, i) == IF i <= Len(s) /\ s[i] \in Letters \cup Digits THEN EndOfWord(s, i + 1) ELSE i
EndOfLine(s, i) == IF i > Len(s) \/ s[i] = "\n" THEN i ELSE EndOfLine(s, i + 1)
EndOfBlock(s, i, d) ==        \* after the */ that closes d open comments
  IF d = 0 THEN i
  ELSE IF At(s, i) = "/" /\ At(s, i + 1) = "*" THEN EndOfBlock(s, i + 2, d + 1)
  ELSE IF At(s, i) = "*" /\ At(s, i + 1) = "/" THEN EndOfBlock(s, i + 2, d - 1)
  ELSE EndOfBlock(s, i + 1, d)
Text(s, i, j) == IF i = j THEN "" ELSE s[i] \o Text(s, i + 1, j)

(* An integer: radix, digits with underscores, and the suffix u8, i8, ...   *)
Radix(w) == IF Len(w) > 1 /\ w[1] = "0" /\ w[2] \in {"x", "o", "b"}
            THEN CASE w[2] = "x" -> 16 [] w[2] = "o" -> 8 [] w[2] = "b" -> 2 ELSE 10
Numeral(w) ==
  LET rx == Radix(w)
      body == IF rx = 10 THEN w ELSE SubSeq(w, 3, Len(w))
      sx == {i \in DOMAIN body : body[i] \in {"u", "i", "U", "I"}}
      ds == SelectSeq(IF sx = {} THEN body ELSE SubSeq(body, 1, (CHOOSE i \in sx : TRUE) - 1), LAMBDA c : c # "_")
      val(d, r) == FoldLeft(LAMBDA n, c : n * r + DigitOf[c], 0, d)
  IN [t |-> "num", s |-> "", v |-> val(ds, rx),
      k |-> IF sx = {} THEN "n" ELSE IF body[CHOOSE i \in sx : TRUE] \in {"u", "U"} THEN "u" ELSE "s",
      w |-> IF sx = {} THEN 0 ELSE val(SubSeq(body, 1 + CHOOSE i \in sx : TRUE, Len(body)), 10)]

RECURSIVE Lex(_, _, _)
Lex(s, i, out) ==
  IF i > Len(s) THEN out
  ELSE LET c == s[i] d == At(s, i + 1) e == At(s, i + 2) IN
  IF c \in Blank THEN Lex(s, i + 1, out)
  ELSE IF c = "/" /\ d = "/" THEN Lex(s, EndOfLine(s, i), out)
  ELSE IF c = "/" /\ d = "*" THEN Lex(s, EndOfBlock(s, i + 2, 1), out)
  ELSE IF c \in Letters THEN LET j == EndOfWord(s, i) IN Lex(s, j, Append(out, [t |-> "id", s |-> Text(s, i, j)]))
  ELSE IF c \in Digits THEN LET j == EndOfWord(s, i) IN Lex(s, j, Append(out, Numeral(SubSeq(s, i, j - 1))))
  ELSE IF c \o d \o e \in Sym3 THEN Lex(s, i + 3, Append(out, [t |-> "sym", s |-> c \o d \o e]))
  ELSE IF c \o d \in Sym2 THEN Lex(s, i + 2, Append(out, [t |-> "sym", s |-> c \o d]))
  ELSE Lex(s, i + 1, Append(out, [t |-> "sym", s |-> c]))

(********************************** grammar **********************************)
(*   expr   ::= level1 [ ` path ` expr ]                 (groups right)       *)
(*   levelN ::= levelN op levelN+1 | levelN+1            (groups left)        *)
(*   unary  ::= prefix unary | postfix                                        *)
(*   postfix::= primary { . n | . f | . m(args) | [e] | [a..b] }              *)
LevelOf(s) == CASE s = "||" -> 1 [] s = "&&" -> 2 [] s = "^^" -> 3 [] s \in {"==", "!="} -> 4
                [] s \in {"<", ">", "<=", ">="} -> 5 [] s = "|" -> 6 [] s = "^" -> 7 [] s = "&" -> 8
                [] s \in {"<<", ">>", ">>>", "<<.", ">>."} -> 9 [] s \in {"+", "-", "+.", "-."} -> 10
                [] s \in {"*", "/", "%", "*."} -> 11 [] OTHER -> 0
Prefix1 == {"-", "-.", "!", "~"}
Is(ts, i, s) == i <= Len(ts) /\ ts[i].t # "num" /\ ts[i].s = s

(* Every operator takes the tokens and a position, and gives <<tree, next>>. *)
RECURSIVE PExpr(_, _), PLevel(_, _, _), PMore(_, _, _, _), PUnary(_, _), PPost(_, _, _), PPrim(_, _), PList(_, _, _, _), PArms(_, _, _), PBody(_, _, _)
PExpr(ts, i) ==
  LET l == PLevel(ts, i, 1) IN
  IF Is(ts, l[2], "`") THEN LET r == PExpr(ts, l[2] + 3) IN <<[k |-> "call", f |-> ts[l[2] + 1].s, as |-> <<l[1], r[1]>>], r[2]>>
  ELSE l
PLevel(ts, i, n) ==
  IF n > 11 THEN PUnary(ts, i)
  ELSE LET l == PLevel(ts, i, n + 1) IN PMore(ts, l[2], n, l[1])
PMore(ts, i, n, l) ==
  IF i <= Len(ts) /\ ts[i].t = "sym" /\ LevelOf(ts[i].s) = n
  THEN LET r == PLevel(ts, i + 1, n + 1) IN PMore(ts, r[2], n, [k |-> "bin", op |-> ts[i].s, l |-> l, r |-> r[1]])
  ELSE <<l, i>>
PUnary(ts, i) ==
  IF ts[i].t = "sym" /\ ts[i].s \in Prefix1 THEN LET e == PUnary(ts, i + 1) IN <<[k |-> "un", op |-> ts[i].s, e |-> e[1]], e[2]>>
  ELSE LET e == PPrim(ts, i) IN PPost(ts, e[2], e[1])
PPost(ts, i, e) ==
  IF Is(ts, i, ".") THEN
    IF ts[i + 1].t = "num" THEN PPost(ts, i + 2, [k |-> "tix", e |-> e, i |-> ts[i + 1].v])
    ELSE IF Is(ts, i + 2, "(") THEN LET a == PList(ts, i + 3, ")", <<>>) IN PPost(ts, a[2], [k |-> "call", f |-> ts[i + 1].s, as |-> <<e>> \o a[1]])
    ELSE PPost(ts, i + 2, [k |-> "fld", e |-> e, f |-> ts[i + 1].s])
  ELSE IF Is(ts, i, "[") THEN
    IF Is(ts, i + 1, "..") THEN IF Is(ts, i + 2, "]") THEN PPost(ts, i + 3, [k |-> "rng", e |-> e, a |-> -1, b |-> -1])
                                ELSE PPost(ts, i + 4, [k |-> "rng", e |-> e, a |-> -1, b |-> ts[i + 2].v])
    ELSE IF Is(ts, i + 2, "..") THEN IF Is(ts, i + 3, "]") THEN PPost(ts, i + 4, [k |-> "rng", e |-> e, a |-> ts[i + 1].v, b |-> -1])
                                     ELSE PPost(ts, i + 5, [k |-> "rng", e |-> e, a |-> ts[i + 1].v, b |-> ts[i + 3].v])
    ELSE LET x == PExpr(ts, i + 1) IN PPost(ts, x[2] + 1, [k |-> "idx", e |-> e, i |-> x[1]])
  ELSE <<e, i>>
PPrim(ts, i) ==
  LET c == ts[i] IN
  IF c.t = "num" THEN <<[k |-> "num", v |-> c.v, y |-> c.k, w |-> c.w], i + 1>>
  ELSE IF c.t = "id" THEN
    IF c.s \in {"true", "false"} THEN <<[k |-> "bool", v |-> c.s = "true"], i + 1>>
    ELSE IF c.s = "if" THEN LET x == PExpr(ts, i + 1) a == PExpr(ts, x[2] + 1) b == PExpr(ts, a[2] + 3) IN       \* if x { a } else { b }
                            <<[k |-> "if", c |-> x[1], a |-> a[1], b |-> b[1]], b[2] + 1>>
    ELSE IF c.s = "match" THEN LET x == PExpr(ts, i + 1) a == PArms(ts, x[2] + 1, <<>>) IN <<[k |-> "match", e |-> x[1], arms |-> a[1]], a[2]>>
    ELSE IF Is(ts, i + 1, "(") THEN LET a == PList(ts, i + 2, ")", <<>>) IN <<[k |-> "call", f |-> c.s, as |-> a[1]], a[2]>>
    ELSE <<[k |-> "id", n |-> c.s], i + 1>>
  ELSE IF c.s = "(" THEN LET a == PList(ts, i + 1, ")", <<>>) IN
         <<IF Len(a[1]) = 1 /\ ~a[3] THEN a[1][1] ELSE [k |-> "tup", es |-> a[1]], a[2]>>
  ELSE IF c.s = "[" THEN LET a == PList(ts, i + 1, "]", <<>>) IN <<[k |-> "arr", es |-> a[1]], a[2]>>
  ELSE PBody(ts, i + 1, <<>>)                                                                                   \* { let ..; e }
PBody(ts, i, ls) ==
  IF Is(ts, i, "let") THEN LET e == PExpr(ts, i + 3) IN PBody(ts, e[2] + 1, Append(ls, [n |-> ts[i + 1].s, e |-> e[1]]))
  ELSE LET e == PExpr(ts, i) IN <<IF ls = <<>> THEN e[1] ELSE [k |-> "blk", ls |-> ls, e |-> e[1]], e[2] + 1>>
PList(ts, i, close, out) ==            \* <<items, next, a comma came last>>
  IF Is(ts, i, close) THEN <<out, i + 1, out # <<>> >>
  ELSE LET e == PExpr(ts, i) IN
       IF Is(ts, e[2], ",") THEN PList(ts, e[2] + 1, close, Append(out, e[1]))
       ELSE <<Append(out, e[1]), e[2] + 1, FALSE>>
PArms(ts, i, out) ==                   \* the arms' patterns are integers, bools or a wildcard
  IF Is(ts, i, "}") THEN <<out, i + 1>>
  ELSE LET neg == Is(ts, i, "-")
           j == IF neg THEN i + 1 ELSE i
           p == IF ts[j].t = "num" THEN [k |-> "pi", v |-> IF neg THEN -ts[j].v ELSE ts[j].v]
                ELSE IF ts[j].s = "_" THEN [k |-> "pw"] ELSE [k |-> "pb", v |-> ts[j].s = "true"]
           g == IF Is(ts, j + 1, "if") THEN PExpr(ts, j + 2) ELSE <<[k |-> "bool", v |-> TRUE], j + 1>>
           e == PExpr(ts, g[2] + 1)
           n == IF Is(ts, e[2], ",") THEN e[2] + 1 ELSE e[2]
       IN PArms(ts, n, Append(out, [p |-> p, g |-> g[1], e |-> e[1]]))

(******************************** evaluation *********************************)
(* Values: [k, b] with k = "u", "s", "b" and the bits, [k |-> "n", v] for a   *)
(* number whose type is that of the other operand, [k |-> "t", es].           *)
Bool(x) == [k |-> "b", b |-> IF x THEN <<1>> ELSE <<0>>]
RECURSIVE BitsOf(_, _)
BitsOf(n, w) == IF w = 0 THEN <<>> ELSE BitsOf(n \div 2, w - 1) \o <<n % 2>>
Like(x, y) == IF x.k = "n" THEN [k |-> y.k, b |-> BitsOf(x.v, Len(y.b))] ELSE x
Nat2(x) == IF x.k = "n" THEN x.v ELSE FoldLeft(LAMBDA n, c : 2 * n + c, 0, x.b)
Log2(n) == CHOOSE e \in 0..30 : 2^e = n
BinV(op, l0, r0) ==
  IF op \in {"/", "%"} THEN [k |-> l0.k, b |-> IF op = "/" THEN DivP(l0.b, Log2(r0.v), l0.k) ELSE ModP(l0.b, Log2(r0.v), l0.k)]
  ELSE LET l == Like(l0, r0) r == Like(r0, l0) IN
  CASE op = "||" -> Bool(l.b[1] + r.b[1] > 0)
    [] op = "&&" -> Bool(l.b[1] + r.b[1] = 2)
    [] op = "^^" -> Bool(l.b[1] + r.b[1] = 1)
    [] op = "==" -> Bool(l = r)
    [] op = "!=" -> Bool(l # r)
    [] op = "<" -> Bool(Lt(l.b, r.b, l.k))
    [] op = ">" -> Bool(Lt(r.b, l.b, l.k))
    [] op = "<=" -> Bool(~Lt(r.b, l.b, l.k))
    [] op = ">=" -> Bool(~Lt(l.b, r.b, l.k))
    [] op \in {"&", "|", "^", "+.", "-."} -> [k |-> l.k, b |-> Apply([op |-> op, a |-> l.b, b |-> r.b, k |-> l.k, rw |-> Len(l.b)])]
    [] op = "*." -> [k |-> l.k, b |-> Mul(l.b, r.b, Len(l.b))]
    [] op \in {"<<", ">>", ">>>", "<<.", ">>."} -> [k |-> l.k, b |-> Apply([op |-> IF op = "<<." THEN "<<" ELSE IF op = ">>." THEN ">>" ELSE op, a |-> l.b, b |-> r.b, k |-> l.k, rw |-> Len(l.b)])]
    [] op \in {"+", "-", "*"} -> LET w == IF op = "*" THEN Len(l.b) + Len(r.b) ELSE Len(l.b) + 1 IN
                                 [k |-> l.k, b |-> Apply([op |-> op, a |-> l.b, b |-> r.b, k |-> l.k, rw |-> w])]
UnV(op, x) == IF x.k = "n" THEN [x EXCEPT !.v = -x.v]
              ELSE CASE op = "!" -> Bool(x.b[1] = 0) [] op = "~" -> [x EXCEPT !.b = Inv(x.b)] [] OTHER -> [x EXCEPT !.b = Negate(x.b)]
(* The functions of the test programs. *)
CallV(f, a) ==
  CASE f \in {"dbl", "dbm"} -> [a[1] EXCEPT !.b = Sub(Shl(a[1].b, 1), a[2].b)]
    [] f = "mix" -> [a[1] EXCEPT !.b = Add(Inv(a[1].b), Shl(a[2].b, 2))]
    [] f = "gt" -> Bool(Lt(a[2].b, a[1].b, "u"))
    [] f = "imp" -> Bool(a[1].b[1] = 0 \/ a[2].b[1] = 1)
    [] f = "neg" -> [a[1] EXCEPT !.b = Negate(a[1].b)]
    [] f = "S" -> [k |-> "t", es |-> a]

RECURSIVE Ev(_, _)
Upd(env, n, v) == [m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]]
Ev(e, env) ==
  CASE e.k = "id" -> env[e.n]
    [] e.k = "num" -> IF e.y = "n" THEN [k |-> "n", v |-> e.v] ELSE [k |-> e.y, b |-> BitsOf(e.v, e.w)]
    [] e.k = "bool" -> Bool(e.v)
    [] e.k = "bin" -> BinV(e.op, Ev(e.l, env), Ev(e.r, env))
    [] e.k = "un" -> UnV(e.op, Ev(e.e, env))
    [] e.k = "call" -> CallV(e.f, [i \in DOMAIN e.as |-> Ev(e.as[i], env)])
    [] e.k = "tix" -> Ev(e.e, env).es[e.i + 1]
    [] e.k = "fld" -> Ev(e.e, env).es[IF e.f = "p" THEN 1 ELSE 2]
    [] e.k = "idx" -> Ev(e.e, env).es[Nat2(Ev(e.i, env)) + 1]
    [] e.k = "rng" -> LET v == Ev(e.e, env) IN [v EXCEPT !.es = SubSeq(v.es, IF e.a < 0 THEN 1 ELSE e.a + 1, IF e.b < 0 THEN Len(v.es) ELSE e.b)]
    [] e.k \in {"tup", "arr"} -> [k |-> "t", es |-> [i \in DOMAIN e.es |-> Ev(e.es[i], env)]]
    [] e.k = "if" -> IF Ev(e.c, env).b = <<1>> THEN Ev(e.a, env) ELSE Ev(e.b, env)
    [] e.k = "blk" -> Ev(e.e, FoldLeft(LAMBDA en, l : Upd(en, l.n, Ev(l.e, en)), env, e.ls))
    [] e.k = "match" ->
         LET v == Ev(e.e, env)
             fits(p) == CASE p.k = "pw" -> TRUE [] p.k = "pb" -> v = Bool(p.v) [] p.k = "pi" -> v = Like([k |-> "n", v |-> p.v], v)
             a == {i \in DOMAIN e.arms : fits(e.arms[i].p) /\ Ev(e.arms[i].g, env).b = <<1>>}
         IN Ev(e.arms[CHOOSE i \in a : \A j \in a : i <= j].e, env)

(****************************** conformance **********************************)
Runs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES pid, seen
Env(p, a) == [n \in DOMAIN p.params |-> a[p.params[n]]]
Tree(p) == PExpr(Lex(p.chars, 1, <<>>), 1)[1]
Init == pid \in 1..Len(Runs) /\ seen = FALSE
Next ==
  /\ ~seen
  /\ LET p == Runs[pid] ts == Lex(p.chars, 1, <<>>) t == PExpr(ts, 1)
         bad == {i \in DOMAIN p.rows : p.rows[i].v # Ev(t[1], Env(p, p.rows[i].a)).b}
     IN IF t[2] # Len(ts) + 1 \/ t[1] # p.tree THEN PrintT("TREE " \o ToJson(<<p.id, t[2], Len(ts), t[1]>>)) /\ FALSE
        ELSE IF bad # {} THEN LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
             PrintT("REJECT " \o ToJson(<<p.id, i, Ev(t[1], Env(p, p.rows[i].a)).b, p.rows[i].v>>)) /\ FALSE
        ELSE TRUE
  /\ seen' = TRUE /\ UNCHANGED pid
Spec == Init /\ [][Next]_<<pid, seen>>
=============================================================================
