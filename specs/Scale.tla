-------------------------------- MODULE Scale -------------------------------
(* Data sets stored as 16 bit integers with a scale per record (corrmode    *)
(* 'j').  A record of integers comes back, in order and with its preamble   *)
(* and flags, to within one step of M/32767, where M is the largest         *)
(* component of the record; zeros come back as zeros.  Observed values are  *)
(* in 64ths, rounded.                                                       *)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE MaxOf(_, _)
MaxOf(s, m) == IF s = <<>> THEN m ELSE MaxOf(Tail(s), IF Abs(Head(s)) > m THEN Abs(Head(s)) ELSE m)

(* One step, the rounding of floats, and the rounding of the observation. *)
Slack(M) == (64 * M) \div 32767 + M \div 65536 + 2

Near(got, want, M) == got > -2000000000 /\ Abs(got - 64 * want) <= (IF M = 0 THEN 0 ELSE Slack(M))

Init0 == [recs |-> <<>>, pos |-> 0, open |-> FALSE]

Do(S, e) ==
  CASE e.op = "write" -> [S EXCEPT !.recs = Append(@, [p |-> e.p, d |-> e.d, f |-> e.f])]
    [] e.op = "open" -> [S EXCEPT !.pos = 0]
    [] e.op = "rewind" -> [S EXCEPT !.pos = 0]
    [] e.op = "read" -> [S EXCEPT !.pos = IF @ < Len(S.recs) THEN @ + 1 ELSE @]
    [] OTHER -> S

Clause(S, e) ==
  IF "err" \in DOMAIN e.o THEN "it raised"
  ELSE IF e.op # "read" THEN (IF e.op \in {"write", "open", "rewind"} THEN "" ELSE "the operation returns")
  ELSE IF S.pos >= Len(S.recs) THEN (IF e.o.k = "eof" THEN "" ELSE "end of the data set")
  ELSE IF e.o.k # "rec" THEN "next record"
  ELSE LET r == S.recs[S.pos + 1]  M == MaxOf(r.d, 0) IN
       IF e.o.p # r.p THEN "preamble of the next record"
       ELSE IF e.o.f # r.f THEN "flags of the record"
       ELSE IF Len(e.o.d) # Len(r.d) THEN "number of channels"
       ELSE IF \E x \in 1..Len(r.d) : ~Near(e.o.d[x], r.d[x], M) THEN "data to within one step"
       ELSE ""
=============================================================================
