--------------------------------- MODULE UV ---------------------------------
(***************************************************************************)
(* Miriad UV data sets as a user of aipy.miriad.UV sees them: data sets on *)
(* disk, handles that write them, handles that read them back, selection,  *)
(* decimation, variables, header items, and cloning through pipe().        *)
(*                                                                         *)
(* The specification is functional: Do(S, e) gives, for the state S and    *)
(* the operation e, the next state and the result that the operation must  *)
(* have.  The same operators are explored exhaustively (UVMC), generate    *)
(* behaviours that are replayed into the code (UVGen), and judge the       *)
(* traces recorded from the code (UVTrace).                                *)
(*                                                                         *)
(* Values are opaque text tokens; a value also carries an integer `num'    *)
(* that selections look at.  Times are integer ticks of 1/16 day.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Empty == << >>                                   \* the function with no domain

Put(f, k, v) == (k :> v) @@ f
Del(f, K)    == [x \in (DOMAIN f) \ K |-> f[x]]
Restrict(f, K) == [x \in (DOMAIN f) \cap K |-> f[x]]

(* Names of header items; all other names must be declared variables. *)
ItemNames == {"history", "ngains", "nfeeds", "ntau", "nsols", "interval",
              "leakage", "freq0", "freqs", "bandpass", "nspect0", "nchan0", "stopt", "duration"}

(* Variables that write() stores by itself, from the preamble and the data. *)
AutoVars == {"coord", "time", "baseline", "nchan"}

Init0 == [files |-> Empty, hs |-> Empty]

(***************************************************************************)
(* A file is [recs, tail, items, types]: recs is the sequence of records,  *)
(* each with the values that all variables had when it was written; tail   *)
(* is the values at the end of the file (variables may be written after    *)
(* the last record).                                                       *)
(***************************************************************************)
NewFile == [recs |-> <<>>, tail |-> Empty, items |-> Empty, names |-> {}]

(***************************************************************************)
(* Selections: a sequence of clauses, folded from the left with and/or.    *)
(***************************************************************************)
EmptyClause == [and |-> TRUE, ops |-> <<>>]

Kind(k) == CASE k \in {"antennae", "auto"} -> "ants"
             [] k \in {"time", "tod"}      -> "time"
             [] OTHER                      -> k

RangeKinds == {"dra", "ddec", "ra", "dec", "ha", "elevation", "dazim", "delev"}

SelErr(k, a, b) ==
  CASE k \in {"time", "tod"} \cup RangeKinds -> a >= b
    [] k \in {"uvnrange", "uvrange", "pointing"} -> a >= b \/ a < 0
    [] k = "frequency"  -> a >= b \/ a <= 0
    [] k = "amplitude"  -> a < 0 \/ b <= a
    [] k = "bin"        -> a < 1 \/ b < a
    [] k = "window"     -> a < 1 \/ a > 16
    [] k = "visibility" -> a > b \/ a < 1
    [] k = "increment"  -> a < 1
    [] k = "decimate"   -> a < 1
    [] k = "antennae"   -> a < -1 \/ b < -1 \/ a > 2047 \/ b > 2047
    [] OTHER            -> FALSE

ApplySel(sel, k, a, b, inc) ==
  CASE k = "clear" -> <<>>
    [] k \in {"and", "or"} /\ sel = <<>> -> sel
    [] k \in {"and", "or"} -> Append(sel, [and |-> (k = "and"), ops |-> <<>>])
    [] k = "unknown" -> IF sel = <<>> THEN <<EmptyClause>> ELSE sel
    [] OTHER ->
         LET s0 == IF sel = <<>> THEN <<EmptyClause>> ELSE sel
             n  == Len(s0)
         IN  [s0 EXCEPT ![n].ops = Append(@, [k |-> k, a |-> a, b |-> b, inc |-> inc])]

(* One amplitude range for a clause. *)
HasOp(c, k) == \E x \in 1..Len(c.ops) : c.ops[x].k = k
Again(sel, k) == k = "amplitude" /\ sel # <<>> /\ HasOp(sel[Len(sel)], k)

(* A rejected selection leaves an open first clause behind, which selects
   everything, as no clause at all does. *)
FailSel(sel) == IF sel = <<>> THEN <<EmptyClause>> ELSE sel

Num(rec, name, dflt) == IF name \in DOMAIN rec.vars THEN rec.vars[name].num ELSE dflt
NumIn(x, a, b) == a <= x /\ x <= b

(* A quantity that each antenna has: whether one of them is within a range.
   A data set without it has none. *)
SomeIn(rec, name, a, b) == name \in DOMAIN rec.vars /\ \E x \in 1..Len(rec.vars[name].num) : NumIn(rec.vars[name].num[x], a, b)
(* The largest of the errors, two of each antenna, that a record has. *)
Pointing(rec) == LET p == rec.vars["axisrms"].num
                     v == {p[2 * rec.i + 1], p[2 * rec.i + 2], p[2 * rec.j + 1], p[2 * rec.j + 2]}
                 IN CHOOSE x \in v : \A y \in v : y <= x
(* The frequency of the first channel of spectral window w. *)
Freq(rec, w) == LET fs == rec.vars["sfreq"].num IN IF w <= Len(fs) THEN fs[w] ELSE 0

Matches(op, rec, n, w) ==
  LET a == op.a  b == op.b
  IN CASE op.k = "auto"     -> rec.i = rec.j
       [] op.k = "antennae" -> CASE a = -1 /\ b = -1 -> TRUE
                                 [] a = -1 -> b \in {rec.i, rec.j}
                                 [] b = -1 -> a \in {rec.i, rec.j}
                                 [] OTHER  -> {a, b} = {rec.i, rec.j}
       [] op.k = "visibility" -> NumIn(n, a, b)
       [] op.k = "time"       -> NumIn(rec.t, a, b)
       [] op.k = "tod"        -> NumIn(rec.t % 16, a, b)
       [] op.k = "uvnrange"   -> NumIn(rec.uu, a * a, b * b)
       [] op.k = "uvrange"    -> LET f == Freq(rec, w) IN NumIn(rec.uu * f * f, a * a, b * b)
       [] op.k = "frequency"  -> NumIn(Freq(rec, w), a, b)
       [] op.k = "pointing"   -> NumIn(Pointing(rec), a, b)
       [] op.k \in {"dazim", "delev"} -> SomeIn(rec, op.k, a, b)
       [] op.k = "increment"  -> (n - 1) % a = 0
       [] op.k = "polarization" -> Num(rec, "pol", 1) = a
       [] op.k = "on"         -> Num(rec, "on", 0) = a
       [] op.k = "ha"         -> NumIn(Num(rec, "lst", 0) - Num(rec, "obsra", 0), a, b)
       [] op.k = "elevation"  -> NumIn(Num(rec, "antel", 0), a, b)
       [] op.k = "lst"        -> LET x == Num(rec, "lst", 0)
                                 IN IF a < b THEN NumIn(x, a, b) ELSE a <= x \/ x <= b
       [] OTHER               -> NumIn(Num(rec, op.k, 0), a, b)     \* dra ddec ra dec

(* What the operations of one kind in a clause say of a record: nothing
   mentioned is the opposite of the first, and the last that matches wins. *)
RECURSIVE Verdict(_, _, _, _, _)
Verdict(ops, rec, n, w, acc) ==
  IF ops = <<>> THEN acc
  ELSE Verdict(Tail(ops), rec, n, w, IF Matches(Head(ops), rec, n, w) THEN Head(ops).inc ELSE acc)

KindSel(ops, kd, rec, n, w) ==
  LET mine == SelectSeq(ops, LAMBDA o : Kind(o.k) = kd)
  IN  mine = <<>> \/ Verdict(mine, rec, n, w, ~Head(mine).inc)

(* Amplitudes and windows say which channels of a record are wanted, not
   which records. *)
KindsOf(ops) == {Kind(ops[x].k) : x \in 1..Len(ops)} \ {"amplitude", "window"}
ClauseSel(c, rec, n, w) == \A kd \in KindsOf(c.ops) : KindSel(c.ops, kd, rec, n, w)

RECURSIVE Toggle(_, _)
Toggle(ops, W) == IF ops = <<>> THEN W
                  ELSE Toggle(Tail(ops), IF Head(ops).inc THEN W \cup {Head(ops).a} ELSE W \ {Head(ops).a})
Windows(c) == LET mine == SelectSeq(c.ops, LAMBDA o : o.k = "window")
              IN IF mine = <<>> THEN {} ELSE Toggle(mine, IF Head(mine).inc THEN {} ELSE 1..16)
Least(W) == CHOOSE x \in W : \A y \in W : x <= y
Window(c, w) == IF HasOp(c, "window") /\ Windows(c) # {} THEN Least(Windows(c)) ELSE w

RECURSIVE FoldSel(_, _, _, _, _)
FoldSel(sel, rec, n, w, prev) ==
  IF sel = <<>> THEN prev
  ELSE LET c == Head(sel)
           skip == (~prev /\ c.and) \/ (prev /\ ~c.and)
           v == Window(c, w)
       IN FoldSel(Tail(sel), rec, n, IF skip THEN w ELSE v, IF skip THEN prev ELSE ClauseSel(c, rec, n, v))

Selected(sel, rec, n) == FoldSel(sel, rec, n, 1, TRUE)

(* The amplitude ranges of the clauses that a record meets. *)
RECURSIVE FoldAmps(_, _, _, _, _)
FoldAmps(sel, rec, n, w, prev) ==
  IF sel = <<>> THEN <<>>
  ELSE LET c == Head(sel)
           skip == (~prev /\ c.and) \/ (prev /\ ~c.and)
           v == Window(c, w)
           ok == ClauseSel(c, rec, n, v)
       IN IF skip THEN FoldAmps(Tail(sel), rec, n, w, prev)
          ELSE (IF ok THEN SelectSeq(c.ops, LAMBDA o : o.k = "amplitude") ELSE <<>>) \o FoldAmps(Tail(sel), rec, n, v, ok)
HasAmps(sel) == \E c \in 1..Len(sel) : HasOp(sel[c], "amplitude")
Amps(sel, rec, n) == IF HasAmps(sel) THEN FoldAmps(sel, rec, n, 1, TRUE) ELSE <<>>

(* Windows are given in one clause, next to each other, and not with "or". *)
WinClauses(sel) == {c \in 1..Len(sel) : HasOp(sel[c], "window")}
BadWindows(sel) ==
  WinClauses(sel) # {} /\
    (\/ Cardinality(WinClauses(sel)) > 1
     \/ \E c \in 1..Len(sel) : ~sel[c].and
     \/ \E c \in WinClauses(sel) : LET W == Windows(sel[c]) IN W = {} \/ \E x \in W : x # Least(W) /\ x - 1 \notin W)
TheWindows(sel) == IF WinClauses(sel) = {} THEN {} ELSE Windows(sel[CHOOSE c \in WinClauses(sel) : TRUE])
RECURSIVE ChanSum(_)
ChanSum(q) == IF q = <<>> THEN 0 ELSE Head(q) + ChanSum(Tail(q))
(* the channels of a record in some windows *)
Channels(rec, W) ==
  LET ns == rec.vars["nschan"].num
      lo == ChanSum(SubSeq(ns, 1, Least(W) - 1))
      hi == ChanSum(SubSeq(ns, 1, Least(W) - 1 + Cardinality(W)))
  IN IF W = {} THEN [x \in 1..Len(rec.ch) |-> x] ELSE [x \in 1..(hi - lo) |-> lo + x]
InAmp(op, z) == LET m == z[1] * z[1] + z[2] * z[2] IN NumIn(m, op.a * op.a, op.b * op.b)
Flagged(rec, amps, x) == rec.fl[x] = 1 \/ (amps # <<>> /\ (InAmp(amps[1], rec.ch[x]) # amps[1].inc))

(* Variables without which a selection cannot be evaluated: they must have
   a value at the first record that is looked at.  A data set that has no
   variable pol is of polarization 1; one that has it must have set it. *)
NeedsOf(k) == CASE k \in {"on", "ra", "dec", "lst"} -> {k}
                [] k = "ha" -> {"lst", "obsra"}
                [] k = "elevation" -> {"antel"}
                [] k = "bin" -> {"bin"}
                [] k = "pointing" -> {"axisrms"}
                [] k = "window" -> {"nschan"}
                [] k \in {"uvrange", "frequency"} -> {"nschan", "sfreq", "sdf"}
                [] OTHER -> {}
WantsOf(k) == CASE k = "polarization" -> {"pol"} [] k \in {"dazim", "delev"} -> {k} [] OTHER -> {}
Wants(sel) == UNION {UNION {WantsOf(sel[c].ops[o].k) : o \in 1..Len(sel[c].ops)} : c \in 1..Len(sel)}
Needs(sel) == UNION {UNION {NeedsOf(sel[c].ops[o].k) : o \in 1..Len(sel[c].ops)} : c \in 1..Len(sel)}

(***************************************************************************)
(* Reading.  A read handle is [mode "r", file, pos, sel, dec, ph, cnt,     *)
(* curt, cur, eof, bad, tracked]: pos records were scanned, record cur     *)
(* gives the values of the variables (0: unknown), cnt counts changes of   *)
(* time among the selected records since the start, and seen are the       *)
(* names that had a value in an earlier pass: rewinding does not take the  *)
(* values away, so a variable that has none yet may still have an old one. *)
(***************************************************************************)
ReadHandle(f) == [mode |-> "r", file |-> f, pos |-> 0, sel |-> <<>>, dec |-> 1, ph |-> 0,
                  cnt |-> -1, curt |-> -1, cur |-> 1, eof |-> FALSE, bad |-> FALSE,
                  tracked |-> {}, seen |-> {}]

(* A record that is selected, but not with one amplitude range at most and
   with windows that it has. *)
Beyond(sel, rec) == \E x \in TheWindows(sel) : x > Len(rec.vars["nschan"].num)
Unreadable(sel, rec, n) == \/ Len(Amps(sel, rec, n)) > 1
                           \/ (WinClauses(sel) # {} /\ Beyond(sel, rec) /\ Selected(sel, rec, n))

RECURSIVE Scan(_, _, _, _, _)
Scan(h, recs, k, cnt, curt) ==
  IF k > Len(recs) THEN [found |-> FALSE, k |-> 0, cnt |-> cnt, curt |-> curt]
  ELSE IF Unreadable(h.sel, recs[k], k) THEN [found |-> TRUE, k |-> k, cnt |-> cnt, curt |-> curt]
  ELSE IF ~Selected(h.sel, recs[k], k) THEN Scan(h, recs, k + 1, cnt, curt)
  ELSE LET c == IF recs[k].t # curt THEN cnt + 1 ELSE cnt
       IN IF (c - h.ph) % h.dec = 0
          THEN [found |-> TRUE, k |-> k, cnt |-> c, curt |-> recs[k].t]
          ELSE Scan(h, recs, k + 1, c, recs[k].t)

(* What is read of a record when channels are selected. *)
ChosenOf(sel, rec, n) ==
  LET W == TheWindows(sel)  amps == Amps(sel, rec, n)
      C == IF W = {} THEN [x \in 1..Len(rec.ch) |-> x] ELSE Channels(rec, W)
  IN IF W = {} /\ amps = <<>> THEN Empty
     ELSE [ch |-> [x \in 1..Len(C) |-> rec.ch[C[x]]],
           fl |-> [x \in 1..Len(C) |-> IF Flagged(rec, amps, C[x]) THEN 1 ELSE 0]]
RecResult(rec, seen) == [k |-> "rec", t |-> rec.t, i |-> rec.i, j |-> rec.j, uvw |-> rec.uvw,
                         d |-> rec.d, f |-> rec.f, vars |-> rec.vars, old |-> seen]
Eof == [k |-> "eof"]
Err == [k |-> "err"]
Ok  == [k |-> "ok"]
AnyRes == [k |-> "any"]

(* Next record of handle h, given as [h, res]. *)
ReadNext(S, h) ==
  LET recs == S.files[h.file].recs
      names == S.files[h.file].names
      need == Needs(h.sel) \cup (Wants(h.sel) \cap names)
      miss == IF h.pos >= Len(recs) THEN {} ELSE need \ DOMAIN recs[h.pos + 1].vars
      r    == Scan(h, recs, h.pos + 1, h.cnt, h.curt)
      W    == TheWindows(h.sel)
      freq == \E c \in 1..Len(h.sel) : HasOp(h.sel[c], "frequency") \/ HasOp(h.sel[c], "uvrange")
      Stop(res) == [h |-> [h EXCEPT !.bad = TRUE, !.cur = 0], res |-> res]
  IN IF h.bad THEN [h |-> h, res |-> AnyRes]
     ELSE IF h.eof THEN [h |-> h, res |-> Eof]
     ELSE IF miss # {}
          THEN [h |-> [h EXCEPT !.bad = TRUE, !.cur = 0],
                res |-> IF miss \cap h.seen = {} THEN Err ELSE AnyRes]
     ELSE IF h.pos < Len(recs) /\ BadWindows(h.sel) THEN Stop(Err)
     ELSE IF freq /\ h.pos < Len(recs) /\ W # {} /\ Beyond(h.sel, recs[h.pos + 1]) THEN Stop(AnyRes)
     ELSE IF ~r.found THEN [h |-> [h EXCEPT !.eof = TRUE, !.cur = 0], res |-> Eof]
     ELSE IF Unreadable(h.sel, recs[r.k], r.k) THEN Stop(Err)
     ELSE [h |-> [h EXCEPT !.pos = r.k, !.cnt = r.cnt, !.curt = r.curt, !.cur = r.k],
           res |-> ChosenOf(h.sel, recs[r.k], r.k) @@ RecResult(recs[r.k], h.seen)]

(***************************************************************************)
(* Writing.  A write handle is [mode "w", file, types, vars, ...]: the     *)
(* file appears on disk, complete, when the handle is closed.              *)
(***************************************************************************)
WriteHandle(f, file) == [mode |-> "w", file |-> f, new |-> file, types |-> {},
                         vars |-> file.tail, held |-> {}]

SetVar(h, n, v, num) == [h EXCEPT !.vars = Put(@, n, [v |-> v, num |-> num]),
                                  !.new.names = @ \cup {n},
                                  !.held = @ \cup {n}]

(* e gives the preamble (t, i, j, uvw, uu), the data and flags, and the
   values that the variables in AutoVars get. *)
WriteRec(h, e) ==
  LET auto == [n \in DOMAIN e.auto |-> [v |-> e.auto[n], num |-> 0]]
      vs   == auto @@ h.vars
      rec  == [t |-> e.t, i |-> e.i, j |-> e.j, uvw |-> e.uvw, uu |-> e.uu,
               d |-> e.d, f |-> e.f, vars |-> vs] @@ (IF "ch" \in DOMAIN e THEN [ch |-> e.ch, fl |-> e.fl] ELSE Empty)
  IN [h EXCEPT !.vars = vs, !.new.recs = Append(@, rec),
               !.new.names = @ \cup DOMAIN auto, !.held = @ \cup DOMAIN auto]

Closed(h) == [h.new EXCEPT !.tail = h.vars]

R(S, res) == [s |-> S, res |-> res]
SetH(S, id, h) == [S EXCEPT !.hs = Put(@, id, h)]

(***************************************************************************)
(* The operations.                                                         *)
(***************************************************************************)
Busy(S, f) == \E x \in DOMAIN S.hs : S.hs[x].mode = "w" /\ S.hs[x].file = f

DoNew(S, e) ==
  IF e.f \in DOMAIN S.files \/ Busy(S, e.f) THEN R(S, Err)
  ELSE R(SetH(S, e.h, WriteHandle(e.f, NewFile)), Ok)

DoAppend(S, e) ==
  IF e.f \notin DOMAIN S.files THEN R(S, Err)
  ELSE R(SetH(S, e.h, WriteHandle(e.f, S.files[e.f])), Ok)

DoOld(S, e) ==
  IF e.f \notin DOMAIN S.files THEN R(S, Err)
  ELSE IF S.files[e.f].recs = <<>> THEN R(S, Err)
  ELSE R(SetH(S, e.h, ReadHandle(e.f)),
         [k |-> "opened", vars |-> S.files[e.f].recs[1].vars,
          names |-> S.files[e.f].names])

DoClose(S, e) ==
  LET h == S.hs[e.h]
      hs == Del(S.hs, {e.h})
  IN IF h.mode = "w"
     THEN R([files |-> Put(S.files, h.file, Closed(h)), hs |-> hs], Ok)
     ELSE R([S EXCEPT !.hs = hs], Ok)

DoAddVar(S, e) == R(SetH(S, e.h, [S.hs[e.h] EXCEPT !.types = @ \cup {e.n}]), Ok)

(* uv[n] = v.  e.bad: the value does not fit the type, or the name is too
   long, so that the assignment must raise and change nothing. *)
DoSet(S, e) ==
  LET h == S.hs[e.h] IN
  IF e.bad THEN R(S, Err)
  ELSE IF h.mode = "w"
  THEN IF e.n \in h.types THEN R(SetH(S, e.h, SetVar(h, e.n, e.v, e.num)), Ok)
       ELSE IF e.n \in ItemNames
            THEN R(SetH(S, e.h, [h EXCEPT !.new.items = Put(@, e.n, e.v)]), Ok)
       ELSE R(S, Err)
  ELSE IF e.n \in ItemNames
       THEN R([S EXCEPT !.files[h.file].items = Put(@, e.n, e.v)], Ok)
  ELSE R(S, Err)                     \* variables of a data set being read

(* uv[n] *)
DoGet(S, e) ==
  LET h == S.hs[e.h]
      vs == IF h.mode = "w" THEN Restrict(h.vars, h.held)
            ELSE IF h.cur = 0 THEN Empty ELSE S.files[h.file].recs[h.cur].vars
      it == IF h.mode = "w" THEN h.new.items ELSE S.files[h.file].items
      ns == IF h.mode = "w" THEN h.types ELSE S.files[h.file].names
  IN IF e.n \in ItemNames /\ e.n \notin ns
     THEN R(S, IF e.n \in DOMAIN it THEN [k |-> "val", v |-> it[e.n]] ELSE Err)
     ELSE IF h.mode = "r" /\ h.cur = 0 THEN R(S, AnyRes)
     ELSE IF e.n \in ns /\ e.n \in DOMAIN vs THEN R(S, [k |-> "val", v |-> vs[e.n].v])
     ELSE IF h.mode = "r" /\ e.n \in h.seen THEN R(S, AnyRes)
     ELSE R(S, Err)

DoItems(S, e) == R(S, [k |-> "names", names |->
    DOMAIN (IF S.hs[e.h].mode = "w" THEN S.hs[e.h].new.items
            ELSE S.files[S.hs[e.h].file].items)])

DoVars(S, e) == R(S, [k |-> "names", names |->
    IF S.hs[e.h].mode = "w" THEN S.hs[e.h].types ELSE S.files[S.hs[e.h].file].names])

DoWrite(S, e) ==
  IF S.hs[e.h].mode = "r" THEN R(S, Err)
  ELSE IF e.none THEN R(S, Ok)                   \* write(p, None) writes nothing
  ELSE R(SetH(S, e.h, WriteRec(S.hs[e.h], e)), Ok)

DoRead(S, e) ==
  IF S.hs[e.h].mode = "w" THEN R(S, Err)
  ELSE LET r == ReadNext(S, S.hs[e.h]) IN R(SetH(S, e.h, r.h), r.res)

DoRewind(S, e) ==
  LET h == S.hs[e.h]
      F == S.files[h.file]
      past == IF h.eof \/ h.bad THEN F.names
              ELSE IF h.pos = 0 THEN {} ELSE DOMAIN F.recs[h.pos].vars
  IN
  R(SetH(S, e.h, [h EXCEPT !.seen = @ \cup past,
                             !.pos = 0, !.cnt = -1, !.curt = -1, !.cur = 0,
                             !.eof = FALSE, !.bad = FALSE]), Ok)

DoSelect(S, e) ==
  LET h == S.hs[e.h] IN
  IF SelErr(e.kd, e.a, e.b) \/ Again(h.sel, e.kd)
  THEN R(IF e.kd = "decimate" THEN S ELSE SetH(S, e.h, [h EXCEPT !.sel = FailSel(@)]), Err)
  ELSE IF e.kd = "decimate" THEN R(SetH(S, e.h, [h EXCEPT !.dec = e.a, !.ph = e.b]), Ok)
  ELSE R(SetH(S, e.h, [h EXCEPT !.sel = ApplySel(@, e.kd, e.a, e.b, e.inc)]), Ok)

(***************************************************************************)
(* Cloning: ho.init_from_uv(hi, override, exclude), then ho.pipe(hi).      *)
(* e.over gives the overriding values, [v, num] by name; e.excl a sequence *)
(* of names.                                                               *)
(***************************************************************************)
SeqSet(s) == {s[x] : x \in 1..Len(s)}

DoInitFrom(S, e) ==
  LET hi == S.hs[e.hi]  ho == S.hs[e.h]
      F  == S.files[hi.file]
      ex == SeqSet(e.excl)
      vs == F.recs[hi.cur].vars
      names == F.names \ ex
      ov == Restrict(e.over, names)
      copied == Restrict(vs, names \ DOMAIN ov)
      items == [n \in (DOMAIN F.items) \ ex |->
                  IF n \in DOMAIN e.over THEN e.over[n].v ELSE F.items[n]]
  IN R([S EXCEPT !.hs = [x \in DOMAIN S.hs |->
           IF x = e.h THEN [ho EXCEPT !.types = names,
                               !.vars = ov @@ (copied @@ ho.vars),
                               !.held = @ \cup DOMAIN ov \cup DOMAIN copied,
                               !.new.names = @ \cup DOMAIN ov \cup DOMAIN copied,
                               !.new.items = items @@ ho.new.items]
           ELSE IF x = e.hi THEN [hi EXCEPT !.tracked = @ \cup (names \ DOMAIN ov)]
           ELSE S.hs[x]]], Ok)

(* pipe() begins by appending to the history of the output. *)
DoPipe(S, e) ==
  LET ho == S.hs[e.h]
  IN IF "history" \in DOMAIN ho.new.items
     THEN R(SetH(S, e.h, [ho EXCEPT !.new.items =
              Put(@, "history", ho.new.items["history"] \o e.hist)]), Ok)
     ELSE R(S, Err)

(* One record passes through mfunc: the next record of hi is handed over;
   mfunc sets variables of ho (e.sets), and returns a record or None. *)
RECURSIVE SetAll(_, _)
SetAll(h, sets) == IF sets = <<>> THEN h
                   ELSE SetAll(SetVar(h, Head(sets).n, Head(sets).v, Head(sets).num), Tail(sets))

DoMfunc(S, e) ==
  LET r  == ReadNext(S, S.hs[e.hi])
      hi == r.h
      h1 == SetAll(S.hs[e.h], e.sets)
      copied == Restrict(S.files[hi.file].recs[hi.cur].vars, hi.tracked \ AutoVars)
      h2 == [h1 EXCEPT !.vars = copied @@ @, !.new.names = @ \cup DOMAIN copied,
                       !.held = @ \cup DOMAIN copied]
      h3 == IF e.out.none THEN h2 ELSE WriteRec(h2, e.out)
  IN IF r.res.k # "rec" THEN R(S, r.res)
     ELSE R([S EXCEPT !.hs = [x \in DOMAIN S.hs |->
                IF x = e.h THEN h3 ELSE IF x = e.hi THEN hi ELSE S.hs[x]]], r.res)

(* pipe() returns when hi has no more records. *)
DoPiped(S, e) ==
  LET r == ReadNext(S, S.hs[e.hi])
  IN IF r.res.k = "eof" THEN R(SetH(S, e.hi, r.h), Ok)
     ELSE R(S, [k |-> "more"])

(* The data set is looked at as a whole, in a separate process or through a
   fresh handle: e.o gives everything in it. *)
Known(S, e) == e.h \in DOMAIN S.hs /\ ("hi" \in DOMAIN e => e.hi \in DOMAIN S.hs)

Do(S, e) ==
  CASE e.op = "died"   -> R(S, [k |-> "never"])
    [] e.op \notin {"new", "append", "old"} /\ ~Known(S, e) -> R(S, Err)
    [] e.op = "new"    -> DoNew(S, e)
    [] e.op = "append" -> DoAppend(S, e)
    [] e.op = "old"    -> DoOld(S, e)
    [] e.op = "close"  -> DoClose(S, e)
    [] e.op = "addvar" -> DoAddVar(S, e)
    [] e.op = "set"    -> DoSet(S, e)
    [] e.op = "get"    -> DoGet(S, e)
    [] e.op = "items"  -> DoItems(S, e)
    [] e.op = "vars"   -> DoVars(S, e)
    [] e.op = "write"  -> DoWrite(S, e)
    [] e.op = "read"   -> DoRead(S, e)
    [] e.op = "rewind" -> DoRewind(S, e)
    [] e.op = "select" -> DoSelect(S, e)
    [] e.op = "initfrom" -> DoInitFrom(S, e)
    [] e.op = "pipe"   -> DoPipe(S, e)
    [] e.op = "mfunc"  -> DoMfunc(S, e)
    [] e.op = "piped"  -> DoPiped(S, e)
    [] OTHER           -> R(S, [k |-> "never"])     \* e.g. "died"

(***************************************************************************)
(* Judging an observed result o against the result r that is due.          *)
(* o.vars gives the observed values of some variables ("!" : no value).    *)
(***************************************************************************)
VarsAgree(o, want, old) ==
  \A n \in DOMAIN o : IF n \in DOMAIN want THEN o[n] = want[n].v
                      ELSE n \in old \/ o[n] = "!"

(* "" when o is what r requires, else the name of the clause it breaks. *)
Clause(r, o) ==
  IF r.k = "any" THEN ""
  ELSE IF r.k = "never" THEN "the operation returns"
  ELSE IF r.k = "more" THEN "pipe hands over every selected record"
  ELSE IF r.k # o.k THEN "result is " \o r.k
  ELSE CASE r.k = "rec" ->
              IF <<r.t, r.i, r.j, r.uvw>> # <<o.t, o.i, o.j, o.uvw>> THEN "preamble of the next record"
              ELSE IF "ch" \in DOMAIN r /\ r.ch # o.ch THEN "the channels that were selected"
              ELSE IF "ch" \in DOMAIN r /\ r.fl # o.fl THEN "flags of channels by amplitude"
              ELSE IF "ch" \notin DOMAIN r /\ r.d # o.d THEN "data of the record"
              ELSE IF "ch" \notin DOMAIN r /\ r.f # o.f THEN "flags of the record"
              ELSE IF ~VarsAgree(o.vars, r.vars, r.old) THEN "variables as they were when the record was written"
              ELSE ""
         [] r.k = "opened" ->
              IF ~VarsAgree(o.vars, r.vars, {}) THEN "variables of the first record"
              ELSE IF (SeqSet(o.names) \ {"corr", "tscale"}) # r.names THEN "names of the variables"
              ELSE ""
         [] r.k = "val" -> IF o.v = r.v THEN "" ELSE "value last set"
         [] r.k = "names" -> IF (SeqSet(o.names) \ {"corr", "tscale", "obstype", "vartable"}) = r.names
                             THEN "" ELSE "names"
         [] OTHER -> ""
=============================================================================
