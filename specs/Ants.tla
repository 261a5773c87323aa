-------------------------------- MODULE Ants --------------------------------
(* Baseline numbers, polarization codes, antenna strings, and what they     *)
(* select from data sets: aipy.miriad.ij2bl/bl2ij/str2pol,                  *)
(* aipy.scripting.parse_ants/uv_selector, aipy.miriad.read_files.           *)
EXTENDS UV

(***************************************************************************)
(* Baseline numbers: two antennas, unordered, as one integer.              *)
(***************************************************************************)
MaxAnt == 2046
Ij2Bl(i, j) ==
  LET a == IF i < j THEN i ELSE j   b == IF i < j THEN j ELSE i
  IN IF b < 255 THEN 256 * (a + 1) + b + 1 ELSE 65536 + 2048 * (a + 1) + b + 1
Bl2Ij(c) == IF c > 65536 THEN <<(c - 65536) \div 2048 - 1, (c % 2048) - 1>>
            ELSE <<c \div 256 - 1, (c % 256) - 1>>

PolCodes == [I |-> 1, Q |-> 2, U |-> 3, V |-> 4, rr |-> -1, ll |-> -2, rl |-> -3, lr |-> -4,
             xx |-> -5, yy |-> -6, xy |-> -7, yx |-> -8]

(***************************************************************************)
(* An antenna string is a sequence of terms: [k |-> "all"|"auto"|"cross"], *)
(* or [k |-> "bl", ls, rs]: sequences of antennas [n, neg, pol], the       *)
(* second empty when a lone antenna stands for all its baselines.          *)
(***************************************************************************)
Swap(p) == CASE p = "xx" -> "xx" [] p = "yy" -> "yy" [] p = "xy" -> "yx" [] OTHER -> "xy"
Pols(l, r) == CASE l = "" /\ r = "" -> <<"">>
                [] l = "" -> <<"x" \o r, "y" \o r>>
                [] r = "" -> <<l \o "x", l \o "y">>
                [] OTHER  -> <<l \o r>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

PairEntries(a, b) ==
  LET ps == Pols(a.pol, b.pol)
      lo == IF a.n <= b.n THEN a.n ELSE b.n
      hi == IF a.n <= b.n THEN b.n ELSE a.n
  IN [x \in 1..Len(ps) |-> [k |-> "bl", i |-> lo, j |-> hi, inc |-> ~(a.neg \/ b.neg),
                            pol |-> IF a.n > b.n /\ ps[x] # "" THEN Swap(ps[x]) ELSE ps[x]]]

TermEntries(tm, nants) ==
  CASE tm.k = "auto"  -> <<[k |-> "auto", i |-> 0, j |-> 0, inc |-> TRUE,  pol |-> ""]>>
    [] tm.k = "cross" -> <<[k |-> "auto", i |-> 0, j |-> 0, inc |-> FALSE, pol |-> ""]>>
    [] OTHER ->
       LET rs == IF tm.rs = <<>> THEN [x \in 1..nants |-> [n |-> x - 1, neg |-> FALSE, pol |-> ""]] ELSE tm.rs
       IN Cat([l \in 1..Len(tm.ls) |-> Cat([r \in 1..Len(rs) |-> PairEntries(tm.ls[l], rs[r])])])

RECURSIVE ParseFrom(_, _, _)
ParseFrom(tms, nants, acc) ==
  IF tms = <<>> THEN acc
  ELSE ParseFrom(Tail(tms), nants, IF Head(tms).k = "all" THEN <<>> ELSE acc \o TermEntries(Head(tms), nants))
Parse(tms, nants) == ParseFrom(tms, nants, <<>>)

(***************************************************************************)
(* What a list of entries selects: included baselines are added, excluded  *)
(* ones taken away, from left to right, beginning with nothing when the    *)
(* first is included and with everything when it is excluded.  pols is the *)
(* set of polarizations asked for besides, {} for all of them.             *)
(***************************************************************************)
Hit(e, rec) == IF e.k = "auto" THEN rec.i = rec.j ELSE {e.i, e.j} = {rec.i, rec.j}

PolOk(e, pols, rec) ==
  LET want == IF e.pol # "" THEN {PolCodes[e.pol]} ELSE {PolCodes[p] : p \in pols}
  IN want = {} \/ rec.vars["pol"].num \in want

RECURSIVE Wanted(_, _, _, _)
Wanted(es, pols, rec, acc) ==
  IF es = <<>> THEN acc
  ELSE LET e == Head(es) IN
       Wanted(Tail(es), pols, rec,
              IF e.inc THEN acc \/ (Hit(e, rec) /\ PolOk(e, pols, rec))
              ELSE acc /\ ~Hit(e, rec) /\ PolOk(e, pols, rec))

InSel(es, pols, rec) ==
  IF es = <<>> THEN pols = {} \/ rec.vars["pol"].num \in {PolCodes[p] : p \in pols}
  ELSE Wanted(es, pols, rec, ~es[1].inc)

(* The selections that uv_selector makes for a list of entries. *)
RECURSIVE AddPols(_, _)
AddPols(sel, ps) == IF ps = <<>> THEN sel
                    ELSE AddPols(ApplySel(sel, "polarization", PolCodes[Head(ps)], 0, TRUE), Tail(ps))
RECURSIVE BuildFrom(_, _, _, _)
BuildFrom(sel, es, ps, first) ==
  IF es = <<>> THEN sel
  ELSE LET e == Head(es)
           s1 == IF first THEN sel ELSE ApplySel(sel, IF e.inc THEN "or" ELSE "and", 0, 0, TRUE)
           s2 == IF e.k = "auto" THEN ApplySel(s1, "auto", 0, 0, e.inc)
                 ELSE ApplySel(s1, "antennae", e.i, e.j, e.inc)
           s3 == AddPols(s2, IF e.pol # "" THEN <<e.pol>> ELSE ps)
       IN BuildFrom(s3, Tail(es), ps, FALSE)
Build(es, ps) == IF es = <<>> THEN AddPols(<<>>, ps) ELSE BuildFrom(<<>>, es, ps, TRUE)

(***************************************************************************)
(* Data sets as sequences of records [t, i, j, pol, d, f, lst].            *)
(***************************************************************************)
AsRec(r) == [t |-> r.t, i |-> r.i, j |-> r.j, uu |-> 0, vars |-> [pol |-> [v |-> "", num |-> r.pol]]]

RECURSIVE TimesIn(_, _)
TimesIn(q, k) == IF k = 0 THEN 0
                 ELSE TimesIn(q, k - 1) + (IF k = 1 \/ q[k].t # q[k - 1].t THEN 1 ELSE 0)

Thin(q, dec, ph) ==
  LET idx == [k \in 1..Len(q) |-> [r |-> q[k], c |-> TimesIn(q, k) - 1]]
      s == SelectSeq(idx, LAMBDA x : dec <= 1 \/ (x.c - ph) % dec = 0)
  IN [k \in 1..Len(s) |-> s[k].r]

FromFile(recs, es, pols, dec, ph) ==
  Thin(SelectSeq(recs, LAMBDA r : InSel(es, pols, AsRec(r))), dec, ph)

RECURSIVE Dedup(_)
Dedup(q) == IF Len(q) <= 1 THEN q
            ELSE LET rest == Dedup(SubSeq(q, 1, Len(q) - 1))
                 IN IF q[Len(q)].t = q[Len(q) - 1].t THEN rest ELSE Append(rest, q[Len(q)])

SeqOf(f, s) == [x \in 1..Len(s) |-> f[s[x]]]

(* Judging: the result due of an event, given the data sets F. *)
Due(F, e) ==
  CASE e.op = "ij2bl" -> [bl |-> Ij2Bl(e.i, e.j)]
    [] e.op = "bl2ij" -> [ij |-> Bl2Ij(e.bl)]
    [] e.op = "pols"  -> [code |-> PolCodes]
    [] e.op = "parse" ->
         LET es == Parse(e.terms, e.nants)
         IN [list |-> [x \in 1..Len(es) |->
              [bl |-> IF es[x].k = "auto" THEN -1 ELSE Ij2Bl(es[x].i, es[x].j), inc |-> es[x].inc, pol |-> es[x].pol]]]
    [] e.op = "uvsel" ->
         LET q == FromFile(F[e.f], Parse(e.terms, e.nants), SeqSet(e.pols), 1, 0)
         IN [recs |-> [x \in 1..Len(q) |-> q[x].d]]
    [] e.op = "readfiles" ->
         LET es == Parse(e.terms, e.nants)
             all == Cat([x \in 1..Len(e.fs) |-> FromFile(F[e.fs[x]], es, SeqSet(e.pols), e.dec, e.ph)])
             ts == Dedup(all)
             keys == {<<all[x].i, all[x].j, all[x].pol>> : x \in 1..Len(all)}
         IN [times |-> [x \in 1..Len(ts) |-> ts[x].t],
             lsts |-> [x \in 1..Len(ts) |-> ts[x].lst],
             groups |-> {<<key, LET m == SelectSeq(all, LAMBDA r : <<r.i, r.j, r.pol>> = key)
                                IN [x \in 1..Len(m) |-> <<m[x].d, m[x].f>>]>> : key \in keys},
             freqs |-> e.freqs]
    [] OTHER -> [never |-> TRUE]

Grade(due, e) ==
  IF "never" \in DOMAIN due THEN "the operation returns"
  ELSE IF "err" \in DOMAIN e.o THEN "it raised"
  ELSE CASE e.op = "ij2bl" -> IF e.o.bl = due.bl THEN "" ELSE "baseline number of a pair"
         [] e.op = "bl2ij" -> IF e.o.ij = due.ij THEN "" ELSE "pair of a baseline number"
         [] e.op = "pols" -> IF e.o.code = due.code /\ \A x \in DOMAIN PolCodes : e.o.back[x] = x THEN ""
                             ELSE "codes of the polarizations"
         [] e.op = "parse" -> IF e.o.list = due.list THEN "" ELSE "baselines that the string names"
         [] e.op = "uvsel" -> IF e.o.recs = due.recs THEN "" ELSE "records that the string selects"
         [] e.op = "readfiles" ->
              IF e.o.times # due.times THEN "times of the records"
              ELSE IF e.o.lsts # due.lsts THEN "lst of the first record of each time"
              ELSE IF Len(e.o.groups) # Cardinality(due.groups) THEN "a group for each baseline and polarization"
              ELSE IF SeqSet(e.o.groups) # due.groups THEN "all and only the selected records, in order"
              ELSE IF e.o.freqs # due.freqs THEN "frequencies"
              ELSE ""
         [] OTHER -> ""
=============================================================================
