----------------------------- MODULE SpadeNames -----------------------------
(* Which declaration a path denotes: modules, libraries, `use` aliases and  *)
(* visibility.  A program is a set of items, each with the namespace it is  *)
(* written in, and a set of references; the compiler must accept it exactly *)
(* if no item is declared twice and every reference denotes a visible item  *)
(* of the kind it needs, and the hardware of a call must be that of the     *)
(* unit the reference denotes.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils

Has(r, f) == f \in DOMAIN r
Parent(ns) == IF ns = <<>> THEN <<>> ELSE Front(ns)
Under(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

(* Absolute path -> declaration, the variants of enums included.           *)
Decls(p) ==
  LET its == {p.items[i] : i \in DOMAIN p.items}
      it == [q \in {Append(x.ns, x.n) : x \in its} |-> CHOOSE x \in its : Append(x.ns, x.n) = q]
      vs == UNION {{<<Append(x.ns, x.n), x.vs[i], x>> : i \in DOMAIN x.vs} : x \in {y \in its : y.k = "en"}}
  IN [q \in (DOMAIN it) \cup {Append(v[1], v[2]) : v \in vs} |->
        IF q \in DOMAIN it THEN it[q]
        ELSE LET v == CHOOSE v \in vs : Append(v[1], v[2]) = q IN [v[3] EXCEPT !.k = "var", !.n = v[2]]]
Duplicate(p) == \E i, j \in DOMAIN p.items :
                  i # j /\ p.items[i].ns = p.items[j].ns /\ p.items[i].n = p.items[j].n

(* The library a namespace belongs to: what `lib` denotes there.           *)
Lib(p, ns) ==
  LET bs == {p.libs[i] : i \in DOMAIN p.libs} c == {b \in bs : Under(b, ns)} IN
  CHOOSE b \in c : \A a \in c : Len(a) <= Len(b)

Visible(p, x, from) ==
  CASE x.vis = "pub" -> TRUE
    [] x.vis \in {"", "self"} -> Under(x.ns, from)
    [] x.vis = "super" -> Under(Parent(x.ns), from)
    [] x.vis = "lib" -> Under(Lib(p, x.ns), from)

Fail == <<"fail">>
RECURSIVE Supers(_), Walk(_, _, _, _, _, _), Resolve(_, _, _, _, _)
Supers(q) == IF q # <<>> /\ q[1] = "super" THEN 1 + Supers(Tail(q)) ELSE 0

(* From the declared path `at` along the segments `q`.                     *)
Walk(p, d, at, q, from, seen) ==
  IF q = <<>> THEN at
  ELSE LET nx == Append(at, q[1]) IN
       IF nx \notin DOMAIN d \/ nx \in seen THEN Fail
       ELSE IF ~Visible(p, d[nx], from) THEN Fail
       ELSE IF d[nx].k # "use" THEN Walk(p, d, nx, Tail(q), from, seen)
       ELSE LET t == Resolve(p, d, d[nx].tgt, d[nx].ns, seen \cup {nx}) IN
            IF t = Fail THEN Fail
            ELSE IF t \in DOMAIN d /\ ~Visible(p, d[t], from) THEN Fail    \* an alias widens nothing
            ELSE Walk(p, d, t, Tail(q), from, seen)

Resolve(p, d, q, from, seen) ==
  IF q[1] = "lib" THEN Walk(p, d, Lib(p, from), Tail(q), from, seen)
  ELSE IF q[1] = "self" THEN Walk(p, d, from, Tail(q), from, seen)
  ELSE LET k == Supers(q) IN
       IF k > 0 THEN IF k > Len(from) THEN Fail
                     ELSE Walk(p, d, SubSeq(from, 1, Len(from) - k), SubSeq(q, k + 1, Len(q)), from, seen)
       ELSE Walk(p, d, IF Append(from, q[1]) \in DOMAIN d THEN from ELSE <<>>, q, from, seen)

(* A reference: the path q, written in namespace ns, to something of kind k. *)
(* The innermost names are the unit's own: a parameter hides an item, and   *)
(* what is inside the item.                                                  *)
RefOk(p, d, r) ==
  /\ r.q[1] \notin {r.loc[i] : i \in DOMAIN r.loc}
  /\ LET t == Resolve(p, d, r.q, r.ns, {}) IN
     /\ t # Fail /\ t \in DOMAIN d
     /\ CASE r.k = "call" -> d[t].k = "fn"
          [] r.k = "st" -> d[t].k = "st" /\ d[t].id = r.id
          [] r.k = "var" -> d[t].k = "var" /\ d[t].id = r.id /\ d[t].n = "V"
          [] r.k = "ty" -> d[t].k = "st" /\ d[t].id = r.id
          [] OTHER -> FALSE

(* Every `use` must lead somewhere its namespace may look, used or not.   *)
UseOk(p, d, x) ==
  LET t == Resolve(p, d, x.tgt, x.ns, {Append(x.ns, x.n)}) IN
  t # Fail /\ (t \in DOMAIN d => Visible(p, d[t], x.ns))

Verdict(p) == LET d == Decls(p) IN
  IF /\ ~Duplicate(p)
     /\ \A i \in DOMAIN p.items : p.items[i].k = "use" => UseOk(p, d, p.items[i])
     /\ \A i \in DOMAIN p.refs : RefOk(p, d, p.refs[i])
  THEN "ok" ELSE "err"
(* What the unit with the reference computes.                              *)
Value(p, r) == IF r.k = "call" THEN Decls(p)[Resolve(p, Decls(p), r.q, r.ns, {})].id ELSE r.id

Runs == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES pid, done
vars == <<pid, done>>
Good(r) == LET p == r.prog IN
  /\ r.verdict = Verdict(p)
  /\ r.verdict = "ok" => \A i \in DOMAIN p.refs : r.vals[i] = Value(p, p.refs[i])
Init == pid \in 1..Len(Runs) /\ done = FALSE
Next ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED pid
  /\ LET r == Runs[pid] IN
     IF Good(r) THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<r.id, Verdict(r.prog), r.verdict>>))
Spec == Init /\ [][Next]_vars
=============================================================================
