----------------------------- MODULE SpadeStatic ----------------------------
(* Static semantics: which programs the compiler has to accept.  Every     *)
(* recorded verdict of the compiler (one TLC behaviour per program) must   *)
(* be the one the specification gives.                                     *)
EXTENDS SpadeTypes, IOUtils

Runs == JsonDeserialize(IOEnv.TRACE_FILE)
N == Len(Runs)
VARIABLES pid, done
vars == <<pid, done>>

(* Whether the magnitude bs (no leading zeros) with this sign is a value of   *)
(* the integer type of kind k and width w, for any width.                     *)
FitsBits(k, w, neg, bs) ==
  \/ bs = <<>>
  \/ k = "u" /\ ~neg /\ Len(bs) <= w
  \/ k = "s" /\ ~neg /\ Len(bs) < w
  \/ k = "s" /\ neg /\ (Len(bs) < w \/ (Len(bs) = w /\ \A i \in 2..Len(bs) : bs[i] = 0))
FitsNum(k, w, v) == IF k = "u" THEN v >= 0 /\ (w >= 31 \/ v < 2^w)
                    ELSE v = 0 \/ (w > 0 /\ (w > 31 \/ (v >= -(2^(w - 1)) /\ v < 2^(w - 1))))

(* Every division in a type level number has a divisor other than zero.       *)
RECURSIVE NumOk(_, _), CondOk(_, _)
NumOk(x, ts) == CASE x[1] \in {"#", "tv"} -> TRUE
                  [] x[1] \in {"neg", "bits", "ibits"} -> NumOk(x[2], ts)
                  [] OTHER -> NumOk(x[2], ts) /\ NumOk(x[3], ts) /\ (x[1] \in {"/", "%"} => Num(x[3], ts) # 0)
CondOk(x, ts) == CASE x[1] = "!" -> CondOk(x[2], ts)
                   [] x[1] \in {"&&", "||", "^^", "b==", "b!="} -> CondOk(x[2], ts) /\ CondOk(x[3], ts)
                   [] OTHER -> NumOk(x[2], ts) /\ NumOk(x[3], ts)
ConstGeneric(q) ==
  /\ \A i \in DOMAIN q.conds : CondOk(q.conds[i], q.ts) /\ CondOf(q.conds[i], q.ts)
  /\ \A i \in DOMAIN q.eqs : NumOk(q.eqs[i][1], q.ts) /\ Num(q.eqs[i][1], q.ts) = Num(q.eqs[i][2], q.ts)
  /\ \A i \in DOMAIN q.fits : FitsNum(q.fits[i][1], Num(q.fits[i][2], q.ts), Num(q.fits[i][3], q.ts))

(* "ok", "err" or "any" *)
Verdict(r) ==
  CASE r.q.k = "match" -> IF Exhaustive(Conc(r.q.t, [x \in {"T"} |-> <<"tv", "T">>]), r.q.arms, r.prog) THEN "ok" ELSE "err"
    [] r.q.k = "irrefutable" ->
         IF Exhaustive(Conc(r.q.t, [x \in {"T"} |-> <<"tv", "T">>]), <<[p |-> r.q.p]>>, r.prog) THEN "ok" ELSE "err"
    [] r.q.k = "fits" -> IF FitsBits(r.q.kind, r.q.width, r.q.neg, r.q.bits) THEN "ok" ELSE "err"
    [] r.q.k = "range" -> IF r.q.a <= r.q.b /\ r.q.b <= r.q.n /\ r.q.len = r.q.b - r.q.a THEN "ok" ELSE "err"
    [] r.q.k = "cgen" -> IF ConstGeneric(r.q) THEN "ok" ELSE "err"
    [] r.q.k = "program" -> Accepts(r.prog)

Init == pid \in 1..N /\ done = FALSE
Next ==
  /\ ~done
  /\ done' = TRUE
  /\ UNCHANGED pid
  /\ LET v == Verdict(Runs[pid]) IN
     IF v = "any" \/ v = Runs[pid].verdict THEN TRUE
     ELSE PrintT("REJECT " \o ToJson(<<Runs[pid].id, v, Runs[pid].verdict>>))
Spec == Init /\ [][Next]_vars
=============================================================================
