----------------------------- MODULE WaveTrace -----------------------------
(* Recorded texts of signals and answers of the test bench interface, each *)
(* of which must be the one SpadeWave defines.  One state per record.      *)
EXTENDS SpadeWave, IOUtils
Data == JsonDeserialize(IOEnv.TRACE_FILE)
Recs == Data.recs
P == Data.progs
VARIABLES i, done

(* wave: the text of a signal that holds part path of a value of type t    *)
(* with bits b (<<>>: not yet defined), for one of the alternatives alts;  *)
(* s are the bits the signal was seen to have.                             *)
AltBits(r, a) == LET t == Conc(a.t, EmptyFn) x == Part(t, a.path, P[r.p]) IN
  IF a.b = <<>> THEN Fill(Width(x[1], P[r.p]), 2)
  ELSE IF a.path = <<>> THEN a.b ELSE PartBits(t, a.path, a.b, P[r.p])
AltText(r, a, m) == Text(Part(Conc(a.t, EmptyFn), a.path, P[r.p])[1], AltBits(r, a), P[r.p], m)
AltOk(r, a, m) == r.got = AltText(r, a, m) /\ (Has(r, "s") => r.s = AltBits(r, a))
WaveBad(r) ==
  IF \E j \in DOMAIN r.alts : AltOk(r, r.alts[j], FALSE) THEN <<>>
  ELSE <<[j \in DOMAIN r.alts |-> AltText(r, r.alts[j], FALSE)],
         IF \E j \in DOMAIN r.alts : AltOk(r, r.alts[j], TRUE) THEN "array-order" ELSE "text">>

(* The answer to an access of the test bench. *)
Ok(r) == Has(r.got, "ok")
AccessBad(r) ==
  LET p == P[r.p]
      t == Conc(r.t, EmptyFn)
      a == Access(t, r.path, r.op = "set", r.o, p)
      g == r.got
  IN
  IF Has(g, "panic") THEN <<IF a.ok THEN <<a.from, a.to>> ELSE "error", "panic">>
  ELSE IF ~a.ok THEN (IF Ok(r) THEN <<"error", "accepted">> ELSE <<>>)
  ELSE LET fits == CASE r.op \in {"read", "val"} -> TRUE
                     [] OTHER -> IF Has(r.e, "txt") THEN WideFits(r.e, a.t) ELSE Fits(r.e, a.t, p)
       IN
  IF ~fits THEN (IF Ok(r) THEN <<"type error", "accepted">> ELSE <<>>)
  ELSE IF ~Ok(r) THEN <<<<a.from, a.to>>, "rejected">>
  ELSE LET enc == IF Has(r.e, "txt") THEN <<>> ELSE Encode(Val(r.e, a.t, p), a.t, p)
           EncOk(b) == IF Has(r.e, "txt") THEN WideOk(r.e, a.t, b) ELSE b = enc
           range == <<a.from, a.to>>
           port == IF r.o THEN (IF r.op = "set" THEN "input__" ELSE "output__")
                   ELSE r.arg \o (IF r.op = "set" THEN "_i" ELSE "_o")
           seen == SubSeq(r.b, a.from + 1, a.to)
           text(m) == Text(a.t, seen, p, m)
           TextBad == IF g.text = text(FALSE) THEN <<>>
                      ELSE <<text(FALSE), IF g.text = text(TRUE) THEN "array-order" ELSE "text">>
       IN
  CASE r.op = "set"  -> IF <<g.from, g.to, g.full, g.name>> = <<a.from, a.to, a.full, port>> /\ EncOk(g.bits) THEN <<>>
                        ELSE <<<<a.from, a.to, a.full, port, enc>>, "set">>
    [] r.op = "read" -> IF <<g.from, g.to, g.full, g.name>> = <<a.from, a.to, a.full, port>> THEN <<>>
                        ELSE <<<<a.from, a.to, a.full, port>>, "read">>
    [] r.op = "val"  -> TextBad
    [] r.op = "cmp"  -> IF ~EncOk(g.exp) \/ g.got # seen \/ g.match # SameBits(g.exp, seen)
                        THEN <<<<enc, seen, SameBits(g.exp, seen)>>, "compare">> ELSE TextBad
(* A whole argument.  An argument with backward bits cannot be written at once. *)
ArgBad(r) ==
  LET p == P[r.p]
      t == Conc(r.t, EmptyFn)
      fits == IF Has(r.e, "txt") THEN WideFits(r.e, t) ELSE Fits(r.e, t, p)
      g == r.got
  IN IF Has(g, "panic") THEN <<"no panic", "panic">>
     ELSE IF ~fits THEN (IF Ok(r) THEN <<"type error", "accepted">> ELSE <<>>)
     ELSE IF ~Ok(r) THEN <<"accepted", "rejected">>
     ELSE IF g.name = r.arg \o "_i" /\ (IF Has(r.e, "txt") THEN WideOk(r.e, t, g.bits)
                                        ELSE g.bits = Encode(Val(r.e, t, p), t, p)) THEN <<>>
     ELSE <<IF Has(r.e, "txt") THEN r.e.txt ELSE Encode(Val(r.e, t, p), t, p), "arg">>

Bad(r) == CASE r.k = "wave" -> WaveBad(r)
            [] r.k = "none" -> IF Has(r.got, "err") THEN <<>> ELSE <<"error", "accepted">>
            [] r.k = "bench" -> IF r.op = "arg" THEN ArgBad(r) ELSE AccessBad(r)

Init == i \in 1..Len(Recs) /\ done = FALSE
Next == /\ ~done
        /\ LET x == Bad(Recs[i]) IN
           IF x = <<>> THEN TRUE ELSE PrintT("REJECT " \o ToJson(<<Recs[i].id, x[2], x[1]>>))
        /\ done' = TRUE /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, done>>
=============================================================================
