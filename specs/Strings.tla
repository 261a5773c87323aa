------------------------------- MODULE Strings ------------------------------
(* Channel, source and parameter strings: aipy.scripting.parse_chans,       *)
(* parse_srcs, parse_prms.  An event carries the structure that its text    *)
(* was written from; Due gives what parsing must return.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SeqSet(s) == {s[x] : x \in 1..Len(s)}

(***************************************************************************)
(* Channels: a term is <<c>>, <<lo, hi>> or <<lo, hi, step>>, ends         *)
(* included.                                                               *)
(***************************************************************************)
TermChans(t) ==
  LET lo == t[1]
      hi == IF Len(t) = 1 THEN t[1] ELSE t[2]
      st == IF Len(t) = 3 THEN t[3] ELSE 1
      n  == IF hi < lo THEN 0 ELSE (hi - lo) \div st + 1
  IN [x \in 1..n |-> lo + (x - 1) * st]

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

Lists(terms, all, nchan) == IF all THEN <<[x \in 1..nchan |-> x - 1]>>
                            ELSE [x \in 1..Len(terms) |-> TermChans(terms[x])]
Chans(terms, all, nchan) == Cat(Lists(terms, all, nchan))

(***************************************************************************)
(* Sources: all of them, those above a flux, or a list of names and        *)
(* positions; positions as seconds of arc.                                 *)
(***************************************************************************)
Secs(p) == (IF p.neg THEN -1 ELSE 1) * (p.d * 3600 + p.m * 60 + p.s)
SrcItem(x) == IF x.k = "name" THEN [k |-> "name", name |-> x.name]
              ELSE [k |-> "pos", name |-> x.name, ra |-> 15 * Secs(x.ra), dec |-> Secs(x.dec)]
Srcs(e) == [cats |-> e.cats,
            cut  |-> IF e.kind = "cut" THEN e.cut ELSE <<>>,
            srcs |-> IF e.kind = "list" THEN [x \in 1..Len(e.items) |-> SrcItem(e.items[x])] ELSE <<>>,
            none |-> e.kind # "list"]

(***************************************************************************)
(* Parameters: a specification is [objs, prms, vals, sigs], the last two   *)
(* empty when not given.  Values go with the objects, or with the          *)
(* parameters, or are common to all.                                       *)
(***************************************************************************)
Fits(v, o, p) == \/ Len(v) <= 1
                 \/ Len(o) > 1 /\ Len(p) = 1 /\ Len(v) = Len(o)
                 \/ Len(o) = 1 /\ Len(p) > 1 /\ Len(v) = Len(p)
Valid(s) == Fits(s.vals, s.objs, s.prms) /\ Fits(s.sigs, s.objs, s.prms)
At(v, s, x, y) == CASE v = <<>> -> "None"
                    [] Len(v) = 1 -> v[1]
                    [] Len(s.objs) > 1 -> v[x]
                    [] OTHER -> v[y]
(* What one specification says, as a sequence of assignments. *)
Says(s) == Cat([x \in 1..Len(s.objs) |->
             [y \in 1..Len(s.prms) |-> [o |-> s.objs[x], p |-> s.prms[y],
                                        v |-> <<At(s.vals, s, x, y), At(s.sigs, s, x, y)>>]]])
Put(f, k, v) == (k :> v) @@ f
RECURSIVE Assign(_, _)
Assign(f, q) == IF q = <<>> THEN f
  ELSE LET a == Head(q)  old == IF a.o \in DOMAIN f THEN f[a.o] ELSE << >>
       IN Assign(Put(f, a.o, Put(old, a.p, a.v)), Tail(q))
Prms(specs) == Assign(<< >>, Cat([x \in 1..Len(specs) |-> Says(specs[x])]))

(***************************************************************************)
Err == [err |-> TRUE]
Due(e) ==
  CASE e.op = "chans" -> IF e.bad THEN Err
                         ELSE IF e.concat THEN [list |-> Chans(e.terms, e.all, e.nchan)]
                         ELSE [list |-> Lists(e.terms, e.all, e.nchan)]
    [] e.op = "srcs" -> Srcs(e)
    [] e.op = "prms" -> IF \A x \in 1..Len(e.specs) : Valid(e.specs[x]) THEN [prms |-> Prms(e.specs)] ELSE Err
    [] OTHER -> [never |-> TRUE]

Clause(e, due) ==
  IF "never" \in DOMAIN due THEN "parsing returns"
  ELSE LET o == e.o IN
  IF "err" \in DOMAIN o THEN IF due = Err THEN "" ELSE "the text is accepted"
  ELSE IF due = Err THEN "the text is refused"
  ELSE IF o = due THEN ""
  ELSE CASE e.op = "chans" -> "channels of the text"
         [] e.op = "srcs" -> "sources of the text"
         [] OTHER -> "parameters, values and errors of the text"
=============================================================================
