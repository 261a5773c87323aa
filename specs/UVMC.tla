-------------------------------- MODULE UVMC --------------------------------
(* Exhaustive exploration of UV.tla with small constants.  Ghost variables *)
(* keep what was done through each handle and what each handle returned;   *)
(* the invariants say, without the machine, what the results must be.      *)
EXTENDS UV, SequencesExt

CONSTANTS Files, WH, RH,         \* data sets, writing handles, reading handles
          Names, Vals,           \* variables and their values
          Ants,                  \* antennas
          MaxRec, MaxSet, MaxSel, MaxHandles, MaxAdds,
          SelKinds

VARIABLES S, log, out, cnt
vars == <<S, log, out, cnt>>

(* log[f]: everything done to the data set, in order; out[h]: numbers of the
   records that h returned since it was opened or rewound, with the
   selection in force, or FALSE when the selection changed under way. *)

Init == S = Init0 /\ log = Empty /\ out = Empty /\ cnt = [set |-> 0, hs |-> 0, adds |-> 0]

LogOf(f) == IF f \in DOMAIN log THEN log[f] ELSE <<>>

NewH == /\ cnt.hs < MaxHandles
        /\ \E h \in WH \ DOMAIN S.hs, f \in Files :
             /\ ~Busy(S, f)
             /\ LET e == [op |-> "new", h |-> h, f |-> f]  r == Do(S, e)
                IN S' = r.s /\ log' = IF r.res.k = "ok" THEN Put(log, f, <<>>) ELSE log
             /\ cnt' = [cnt EXCEPT !.hs = @ + 1] /\ UNCHANGED out

AppendH == /\ cnt.hs < MaxHandles
           /\ \E h \in WH \ DOMAIN S.hs, f \in DOMAIN S.files :
                /\ ~Busy(S, f) /\ \A x \in DOMAIN S.hs : S.hs[x].file # f
                /\ S' = Do(S, [op |-> "append", h |-> h, f |-> f]).s
                /\ cnt' = [cnt EXCEPT !.hs = @ + 1] /\ UNCHANGED <<log, out>>

OldH == /\ cnt.hs < MaxHandles
        /\ \E h \in RH \ DOMAIN S.hs, f \in Files :
             /\ ~Busy(S, f)
             /\ LET r == Do(S, [op |-> "old", h |-> h, f |-> f])
                IN S' = r.s /\ out' = IF r.res.k = "opened" THEN Put(out, h, [ok |-> TRUE, recs |-> <<>>]) ELSE out
             /\ cnt' = [cnt EXCEPT !.hs = @ + 1] /\ UNCHANGED log

CloseH == \E h \in DOMAIN S.hs :
            /\ S' = Do(S, [op |-> "close", h |-> h]).s
            /\ out' = Del(out, {h}) /\ UNCHANGED <<log, cnt>>

Writers == {h \in DOMAIN S.hs : S.hs[h].mode = "w"}
Readers == {h \in DOMAIN S.hs : S.hs[h].mode = "r"}

AddVarH == /\ cnt.adds < MaxAdds
           /\ \E h \in Writers, n \in Names :
                S' = Do(S, [op |-> "addvar", h |-> h, n |-> n]).s
           /\ cnt' = [cnt EXCEPT !.adds = @ + 1] /\ UNCHANGED <<log, out>>

SetH2 == /\ cnt.set < MaxSet
         /\ \E h \in Writers, n \in Names, v \in Vals, bad \in {TRUE, FALSE} :
              /\ bad => v = CHOOSE x \in Vals : TRUE
              /\ LET e == [op |-> "set", h |-> h, n |-> n, v |-> ToString(v), num |-> v, bad |-> bad]
                     r == Do(S, e)
                 IN /\ S' = r.s
                    /\ log' = IF r.res.k = "ok"
                              THEN Put(log, S.hs[h].file, Append(LogOf(S.hs[h].file), <<n, ToString(v)>>))
                              ELSE log
         /\ cnt' = [cnt EXCEPT !.set = @ + 1] /\ UNCHANGED out

Total == IF DOMAIN log = {} THEN 0 ELSE
   LET Cnt(f) == Len(SelectSeq(log[f], LAMBDA x : x[1] = "rec"))
       RECURSIVE Sum(_)
       Sum(fs) == IF fs = {} THEN 0 ELSE LET f == CHOOSE f \in fs : TRUE IN Cnt(f) + Sum(fs \ {f})
   IN Sum(DOMAIN log)

WriteE(h, t, i, j) ==
  [op |-> "write", h |-> h, none |-> FALSE, t |-> t, i |-> i, j |-> j, uvw |-> "u", uu |-> i + j,
   d |-> ToString(Total), f |-> "0", auto |-> [time |-> ToString(t)]]

WriteH == /\ Total < MaxRec
          /\ \E h \in Writers, t \in 0..1, i \in Ants, j \in Ants :
               /\ i <= j
               /\ LET e == WriteE(h, t, i, j) IN
                  /\ S' = Do(S, e).s
                  /\ log' = Put(log, S.hs[h].file, Append(Append(LogOf(S.hs[h].file), <<"time", ToString(t)>>),
                                                           <<"rec", e.d>>))
          /\ UNCHANGED <<out, cnt>>

ReadH == \E h \in DOMAIN S.hs :
           LET r == Do(S, [op |-> "read", h |-> h])
           IN /\ S' = r.s
              /\ out' = IF h \in DOMAIN out /\ r.res.k = "rec"
                        THEN [out EXCEPT ![h].recs = Append(@, r.res.d)] ELSE out
              /\ UNCHANGED <<log, cnt>>

RewindH == \E h \in Readers :
             /\ S' = Do(S, [op |-> "rewind", h |-> h]).s
             /\ out' = [out EXCEPT ![h] = [ok |-> TRUE, recs |-> <<>>]]
             /\ UNCHANGED <<log, cnt>>

NSel(h) == LET s == S.hs[h].sel
               RECURSIVE Cnt(_)
               Cnt(q) == IF q = <<>> THEN 0 ELSE 1 + Len(Head(q).ops) + Cnt(Tail(q))
           IN Cnt(s)

SelArgs(k) == CASE k = "antennae" -> {<<0, 1>>, <<-1, 1>>, <<3000, 0>>}
                [] k = "time" -> {<<0, 1>>, <<1, 1>>}
                [] k = "decimate" -> {<<0, 0>>, <<2, 0>>, <<2, 1>>}
                [] k = "visibility" -> {<<1, 1>>, <<2, 9>>}
                [] k = "increment" -> {<<2, 0>>}
                [] k = "on" -> {<<1, 0>>}
                [] OTHER -> {<<0, 0>>}

SelectH == \E h \in Readers, k \in SelKinds :
             /\ NSel(h) < MaxSel \/ k = "clear"
             /\ \E a \in SelArgs(k), inc \in {TRUE, FALSE} :
                  /\ (k \in {"and", "or", "clear", "decimate", "increment"}) => inc
                  /\ S' = Do(S, [op |-> "select", h |-> h, kd |-> k, a |-> a[1], b |-> a[2], inc |-> inc]).s
             /\ out' = [out EXCEPT ![h].ok = (S.hs[h].pos = 0 /\ ~S.hs[h].eof /\ ~S.hs[h].bad)]
             /\ UNCHANGED <<log, cnt>>

Next == NewH \/ AppendH \/ OldH \/ CloseH \/ AddVarH \/ SetH2 \/ WriteH \/ ReadH \/ RewindH \/ SelectH

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What a data set must hold, from its log alone.                          *)
(***************************************************************************)
RecNos(L) == SelectSeq([x \in 1..Len(L) |-> IF L[x][1] = "rec" THEN x ELSE 0], LAMBDA x : x > 0)
Latest(L, n, p) == LET c == {x \in 1..p : L[x][1] = n}
                   IN IF c = {} THEN "!" ELSE L[CHOOSE x \in c : \A y \in c : y <= x][2]
Holds(F, L) ==
  LET ps == RecNos(L)
  IN /\ Len(F.recs) = Len(ps)
     /\ \A k \in 1..Len(ps) :
          /\ F.recs[k].d = L[ps[k]][2]
          /\ \A n \in Names \cup {"time"} :
               (IF n \in DOMAIN F.recs[k].vars THEN F.recs[k].vars[n].v ELSE "!") = Latest(L, n, ps[k])

DiskIsLog == \A f \in DOMAIN S.files : ~Busy(S, f) => Holds(S.files[f], LogOf(f))
WriterIsLog == \A h \in Writers : Holds(S.hs[h].new, LogOf(S.hs[h].file))

(* What a reading handle must have returned: the selected records in the
   order they were written, thinned to one time in dec. *)
RECURSIVE TimesSeen(_, _)
TimesSeen(q, k) == IF k = 0 THEN 0
                   ELSE TimesSeen(q, k - 1) + (IF k = 1 \/ q[k].t # q[k - 1].t THEN 1 ELSE 0)
Expect(h) ==
  LET recs == S.files[h.file].recs
      num == [k \in 1..Len(recs) |-> [r |-> recs[k], n |-> k, t |-> recs[k].t]]
      chosen == SelectSeq(num, LAMBDA x : Selected(h.sel, x.r, x.n))
      thin == SelectSeq([k \in 1..Len(chosen) |-> [d |-> chosen[k].r.d, c |-> TimesSeen(chosen, k) - 1]],
                        LAMBDA x : (x.c - h.ph) % h.dec = 0)
  IN [k \in 1..Len(thin) |-> thin[k].d]

ReadsAreSelection ==
  \A h \in Readers : out[h].ok =>
     /\ IsPrefix(out[h].recs, Expect(S.hs[h]))
     /\ (S.hs[h].eof => out[h].recs = Expect(S.hs[h]))

(* Records that are on disk stay there, in front. *)
AppendOnly == [][\A f \in DOMAIN S.files :
                    f \in DOMAIN S'.files /\ IsPrefix(S.files[f].recs, S'.files[f].recs)]_vars

(* No operation on one handle changes another, or a data set that it is not
   open on for writing. *)
Independent ==
  [][/\ Cardinality({h \in DOMAIN S.hs \cap DOMAIN S'.hs : S.hs[h] # S'.hs[h]}) <= 1
     /\ Cardinality((DOMAIN S.hs \ DOMAIN S'.hs) \cup (DOMAIN S'.hs \ DOMAIN S.hs)) <= 1
     /\ \A f \in DOMAIN S.files : S'.files[f] # S.files[f] =>
          \E h \in Writers : S.hs[h].file = f /\ h \notin DOMAIN S'.hs]_vars

View == <<S, log, out, cnt>>
=============================================================================
