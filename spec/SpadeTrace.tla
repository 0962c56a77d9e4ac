----------------------------- MODULE SpadeTrace -----------------------------
(* Every recorded execution of compiled hardware must be a behaviour of    *)
(* SpadeSem: one TLC behaviour per program, one step per recorded cycle.   *)
EXTENDS SpadeSem, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Runs)

VARIABLES pid, l, st, ok
vars == <<pid, l, st, ok>>

Top(p) == p.units[p.top]
(* The wires of a port of type t, in encoding order: <<dir, id, type>>.    *)
RECURSIVE Leaves(_, _, _, _)
Leaves(t, id, dir, p) ==
  LET agg(f, rev) ==
        LET q == TLCEval([i \in DOMAIN f |-> Leaves(f[i], id \o <<ToString(i)>>, dir, p)])
        IN FlatSeq(IF rev THEN Reverse(q) ELSE q)
  IN CASE t[1] = "t"  -> agg(t[2], FALSE)
       [] t[1] = "a"  -> agg(Fill(t[3], t[2]), TRUE)
       [] t[1] = "st" -> agg(FieldTypes(t, p), FALSE)
       [] t[1] = "inv" -> Leaves(t[2], id, IF dir = "i" THEN "o" ELSE "i", p)
       [] OTHER -> << <<dir, id, t>> >>
PLeaves(p, par, dir) == SelectSeq(Leaves(Conc(par.t, EmptyFn), <<"^", par.n>>, "i", p),
                                  LAMBDA q : q[1] = dir)

(* What a parameter is bound to: input values and wires to be set. *)
ArgVal(p, par, s) ==
  IF par.t[1] = "ck" THEN <<"c", par.n>>
  ELSE LET ls == PLeaves(p, par, "i")
           w == TLCEval([i \in DOMAIN ls |-> Width(ls[i][3], p)])
           off == TLCEval([i \in DOMAIN ls |-> SumSeq(SubSeq(w, 1, i - 1))])
           inp == FoldLeft(LAMBDA a, i : (ls[i][2] :> IF w[i] = 0 THEN Decode(<<>>, ls[i][3], p)
                      ELSE Decode(SubSeq(s.i[par.n], off[i] + 1, off[i] + w[i]), ls[i][3], p)) @@ a,
                           EmptyFn, [i \in DOMAIN ls |-> i])
       IN Port(Conc(par.t, EmptyFn), <<"^", par.n>>, inp, p)[1]
Args(p, s) == TLCEval([i \in DOMAIN Top(p).params |-> ArgVal(p, Top(p).params[i], s)])

(* Expected bits of every observed output of step s. *)
RECURSIVE HasInv(_, _)
HasInv(t, p) == CASE t[1] = "inv" -> TRUE
                  [] t[1] = "t" -> \E i \in DOMAIN t[2] : HasInv(t[2][i], p)
                  [] t[1] = "a" -> HasInv(t[2], p)
                  [] t[1] = "st" -> LET d == p.structs[t[2]].fs IN \E i \in DOMAIN d : HasInv(d[i][2], p)
                  [] OTHER -> FALSE
Expect(p, r) ==
  LET inv == {i \in DOMAIN Top(p).params : HasInv(Top(p).params[i].t, p)}
      o == IF Has(Top(p), "rt")
           THEN "output" :> Encode(r.v, Conc(Top(p).rt, EmptyFn), p) ELSE EmptyFn
  IN FoldLeft(LAMBDA a, i :
        LET q == Top(p).params[i] ls == PLeaves(p, q, "o") IN
        (q.n :> FlatSeq([k \in DOMAIN ls |-> Encode(FwGet(r.wr, ls[k][2]), ls[k][3], p)])) @@ a,
        o, SetToSeq(inv))

Agrees(p, r, s) ==
  LET x == Expect(p, r) IN
  /\ \A n \in DOMAIN s.o : BitsAgree(x[n], s.o[n])
  /\ Has(s, "as") =>        \* number of assertions that fired in this cycle
       s.as >= r.as[1] /\ s.as <= r.as[1] + r.as[2]

Init == pid \in 1..N /\ l = 1 /\ st = EmptyFn /\ ok = TRUE
Next ==
  /\ ok
  /\ l <= Len(Runs[pid].steps)
  /\ LET p == Runs[pid].prog
         s == Runs[pid].steps[l]
         r == Settle(p, Args(p, s), st)
         good == Agrees(p, r, s)
     IN /\ ok' = good
        /\ l' = l + 1
        /\ st' = Tick(r, st, {s.tick[i] : i \in DOMAIN s.tick})
        /\ IF good THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<Runs[pid].id, l, Expect(p, r), s.o>> \o
                                               IF Has(s, "as") THEN <<s.as, r.as>> ELSE <<>>))
  /\ UNCHANGED pid
Spec == Init /\ [][Next]_vars
=============================================================================
