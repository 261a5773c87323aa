------------------------------ MODULE UVPipeMC ------------------------------
(* Every clone of every small data set: ho.init_from_uv(hi, over, excl) and *)
(* ho.pipe(hi), where for every record mfunc decides to hand it on, to      *)
(* change it or to drop it.  What the output must hold is said from the     *)
(* input alone.                                                             *)
EXTENDS UV

CONSTANTS MaxRec, Names, Sels

VARIABLES S, phase, over, excl, did
vars == <<S, phase, over, excl, did>>

Opt == 0..2                      \* 0: not set before this record
W(S0) == S0.hs["w"]

(* The input: per record, for every name, whether it is set and to what. *)
Init == /\ S = Do(Do(Do(Init0, [op |-> "new", h |-> "w", f |-> "in"]).s,
                     [op |-> "addvar", h |-> "w", n |-> "x"]).s,
                  [op |-> "set", h |-> "w", n |-> "history", v |-> "h", num |-> 0, bad |-> FALSE]).s
        /\ phase = "write" /\ over = Empty /\ excl = {} /\ did = <<>>

RECURSIVE Sets(_, _, _)
Sets(s, h, q) == IF q = <<>> THEN s
  ELSE LET n == Head(q)[1]  v == Head(q)[2]
           s1 == Do(s, [op |-> "addvar", h |-> h, n |-> n]).s
       IN Sets(IF v = 0 THEN s ELSE Do(s1, [op |-> "set", h |-> h, n |-> n, v |-> ToString(v), num |-> v, bad |-> FALSE]).s,
               h, Tail(q))

RECURSIVE SeqOf(_)
SeqOf(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SeqOf(s \ {x})

NRec == Len(S.hs["w"].new.recs)

Write == /\ phase = "write" /\ NRec < MaxRec
         /\ \E a \in [Names -> Opt], t \in 0..1, j \in 0..1 :
              LET s1 == Sets(S, "w", [k \in 1..Cardinality(Names) |-> <<SeqOf(Names)[k], a[SeqOf(Names)[k]]>>])
              IN S' = Do(s1, [op |-> "write", h |-> "w", none |-> FALSE, t |-> t, i |-> 0, j |-> j, uvw |-> "u",
                              uu |-> 0, d |-> ToString(NRec), f |-> "0", auto |-> [time |-> ToString(t)]]).s
         /\ UNCHANGED <<phase, over, excl, did>>

Clone == /\ phase = "write" /\ NRec > 0
         /\ \E sel \in Sels, ov \in SUBSET Names, ex \in SUBSET (Names \cup {"history"}) :
              LET s1 == Do(S, [op |-> "close", h |-> "w"]).s
                  s2 == Do(s1, [op |-> "old", h |-> "i", f |-> "in"]).s
                  s3 == IF sel = "all" THEN s2
                        ELSE Do(s2, [op |-> "select", h |-> "i", kd |-> sel, a |-> 2, b |-> 1, inc |-> TRUE]).s
                  s4 == Do(s3, [op |-> "new", h |-> "o", f |-> "out"]).s
                  o  == [n \in ov |-> [v |-> "9", num |-> 9]]
              IN /\ S' = Do(s4, [op |-> "initfrom", h |-> "o", hi |-> "i", excl |-> SeqOf(ex), over |-> o]).s
                 /\ over' = o /\ excl' = ex
         /\ phase' = "clone" /\ UNCHANGED did

Begin == /\ phase = "clone"
         /\ LET r == Do(S, [op |-> "pipe", h |-> "o", hi |-> "i", hist |-> "+"])
            IN /\ S' = r.s
               /\ phase' = IF r.res.k = "ok" THEN "pipe" ELSE "refused"
         /\ UNCHANGED <<over, excl, did>>

More == ReadNext(S, S.hs["i"]).res.k = "rec"

Step == /\ phase = "pipe" /\ More
        /\ \E what \in {"same", "drop", "change"} :
             LET rec == ReadNext(S, S.hs["i"]).res
                 out == CASE what = "drop" -> [none |-> TRUE]
                          [] what = "same" -> [none |-> FALSE, t |-> rec.t, i |-> rec.i, j |-> rec.j, uvw |-> rec.uvw,
                                               uu |-> 0, d |-> rec.d, f |-> rec.f, auto |-> [time |-> ToString(rec.t)]]
                          [] OTHER -> [none |-> FALSE, t |-> 7, i |-> 1, j |-> 2, uvw |-> "z",
                                       uu |-> 0, d |-> "new" \o rec.d, f |-> "1", auto |-> [time |-> "7"]]
                 ov == {n \in DOMAIN over : n \in S.hs["o"].types}
             IN /\ \E st \in {<<>>} \cup {<<[n |-> n, v |-> "5", num |-> 5]>> : n \in ov} :
                     /\ S' = Do(S, [op |-> "mfunc", h |-> "o", hi |-> "i", sets |-> st, out |-> out]).s
                     /\ did' = Append(did, [what |-> what, sets |-> st])
        /\ UNCHANGED <<phase, over, excl>>

End == /\ phase = "pipe" /\ ~More
       /\ S' = Do(Do(S, [op |-> "piped", h |-> "o", hi |-> "i"]).s, [op |-> "close", h |-> "o"]).s
       /\ phase' = "done" /\ UNCHANGED <<over, excl, did>>

Next == Write \/ Clone \/ Begin \/ Step \/ End
Spec == Init /\ [][Next]_vars

(***************************************************************************)
In == S.files["in"]
Out == S.files["out"]

(* Numbers of the selected records of the input. *)
Chosen == LET h == S.hs["i"]
              n == Len(In.recs)
              ok(k) == Selected(h.sel, In.recs[k], k)
              TimesBefore(k) == Cardinality({m \in 2..k : ok(m) /\ ok(k) /\
                                    \E p \in 1..(m - 1) : ok(p) /\ In.recs[p].t # In.recs[m].t
                                                          /\ \A q \in (p + 1)..(m - 1) : ~ok(q)})
          IN SelectSeq([k \in 1..n |-> k], LAMBDA k : ok(k) /\ (TimesBefore(k) - h.ph) % h.dec = 0)

Kept == SelectSeq([k \in 1..Len(Chosen) |-> k], LAMBDA k : did[k].what # "drop")

Val(rec, n) == IF n \in DOMAIN rec.vars THEN rec.vars[n].v ELSE "!"

(* The value of a variable of the output at the record made of the k-th
   chosen one: the input's, except where it was overridden. *)
LastSet(n, k) == LET c == {m \in 1..k : did[m].sets # <<>> /\ did[m].sets[1].n = n}
                 IN IF c = {} THEN "9" ELSE "5"
Due(n, k) == IF n \in excl \/ n \notin In.names THEN "!"
             ELSE IF n \in DOMAIN over THEN LastSet(n, k)
             ELSE Val(In.recs[Chosen[k]], n)

Whole == phase = "done" => Len(did) = Len(Chosen)

Records ==
  phase = "done" =>
    /\ Len(Out.recs) = Len(Kept)
    /\ \A k \in 1..Len(Kept) :
         LET src == In.recs[Chosen[Kept[k]]]  dst == Out.recs[k]  w == did[Kept[k]].what
         IN /\ dst.d = (IF w = "same" THEN src.d ELSE "new" \o src.d)
            /\ w = "same" => <<dst.t, dst.i, dst.j, dst.uvw, dst.f>> = <<src.t, src.i, src.j, src.uvw, src.f>>
            /\ w = "change" => <<dst.t, dst.i, dst.j, dst.uvw, dst.f>> = <<7, 1, 2, "z", "1">>
            /\ \A n \in Names : Val(dst, n) = Due(n, Kept[k])

Items ==
  phase = "done" => DOMAIN Out.items = DOMAIN In.items \ excl /\ Out.items["history"] = "h+"

Refused == phase = "refused" => "history" \in excl

InputUnchanged == phase \in {"clone", "pipe", "done"} => In.items = [history |-> "h"] /\ Len(In.recs) = Len(S.files["in"].recs)

(* Clone identity: nothing overridden, nothing excluded, everything selected
   and handed on as it is gives the same records. *)
Identity ==
  (phase = "done" /\ over = Empty /\ excl = {} /\ S.hs["i"].sel = <<>> /\ S.hs["i"].dec = 1
     /\ \A k \in 1..Len(did) : did[k].what = "same") => Out.recs = In.recs
=============================================================================
