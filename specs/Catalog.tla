------------------------------ MODULE Catalog -------------------------------
(* Source catalogues: the published text files (aipy._src), queries through  *)
(* aipy.src and aipy.cal, catalogues of objects.  Fluxes in mJy, frequencies *)
(* in MHz, right ascensions in tenths of a second, declinations in tenths of *)
(* a second of arc.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Builtin

SeqSet(s) == {s[x] : x \in 1..Len(s)}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Join(_, _)
Join(s, by) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o by \o Join(Tail(s), by)
RECURSIVE Ten(_)
Ten(k) == IF k <= 0 THEN 1 ELSE 10 * Ten(k - 1)

(***************************************************************************)
(* The formats.  Columns count from 1; 0 says that there is none.  mjy:    *)
(* the flux column is in mJy, otherwise in Jy.                             *)
(***************************************************************************)
Tab(ra, dec, name, flux, mjy, mf, index, cells) ==
  [ra |-> ra, dec |-> dec, name |-> name, flux |-> flux, mjy |-> mjy, mf |-> mf, index |-> index, cells |-> cells]
Formats ==
  [nvss     |-> Tab(4, 5, 3, 8, TRUE, 1400, 0, 4),   vlss    |-> Tab(4, 5, 3, 6, FALSE, 74, 0, 4),
   wenss    |-> Tab(5, 6, 3, 10, TRUE, 330, 0, 4),    gbsix   |-> Tab(1, 2, 19, 9, TRUE, 4850, 0, 4),
   three_c  |-> Tab(1, 2, 3, 10, FALSE, 159, 0, 4),  three_cr |-> Tab(1, 2, 3, 8, FALSE, 178, 0, 4),
   four_c   |-> Tab(1, 2, 3, 6, FALSE, 178, 0, 4),   six_c   |-> Tab(1, 2, 0, 5, FALSE, 151, 0, 4),
   seven_c  |-> Tab(1, 2, 0, 6, FALSE, 151, 0, 4),   parkes  |-> Tab(1, 2, 12, 10, FALSE, 2700, 0, 4),
   txs      |-> Tab(1, 2, 3, 8, FALSE, 365, 11, 4),  paper   |-> Tab(2, 3, 4, 5, FALSE, 150, 0, 3),
   mrt      |-> Tab(2, 3, 1, 4, FALSE, 150, 0, 0)]
Known == DOMAIN Formats \cup {"culgoora", "helm", "misc"}

(* A cell: a number (in thousandths), a position, a text, or blank. *)
IsNum(c) == c.k = "num"
Dir(c) == Join(c.p, ":")
Pow(name, ra, dec, jys, mf, index) ==
  [name |-> name, ra |-> ra.u, dec |-> dec.u, jys |-> jys, mf |-> mf, law |-> "pow", index |-> <<index>>]

(* Rows that hold no source: comments, headings, rules, truncated rows. *)
Holds(r, cells) == r.first = "digit" /\ Len(r.cells) > cells

(* A row of a table, as a sequence of no or one source. *)
Row(f, r) ==
  LET c == r.cells IN
  IF ~Holds(r, f.cells) THEN <<>>
  ELSE IF ~IsNum(c[f.flux]) THEN <<>>
  ELSE LET nm == IF f.name = 0 THEN Dir(c[f.ra]) \o "_" \o Dir(c[f.dec]) ELSE c[f.name].s
           jy == IF f.mjy THEN c[f.flux].v \div 1000 ELSE c[f.flux].v
           ix == IF f.index = 0 THEN 0 ELSE IF IsNum(c[f.index]) THEN c[f.index].v \div 1000 ELSE 0
       IN <<Pow(nm, c[f.ra], c[f.dec], jy, f.mf, ix)>>

(* Culgoora: fluxes at 160 and at 80 MHz, either possibly missing or an
   upper limit, and the index between them. *)
CulRow(r) ==
  LET c == r.cells IN
  IF ~Holds(r, 4) THEN <<>>
  ELSE LET flagged == ~IsNum(c[11]) /\ IsNum(c[8]) /\ IsNum(c[10])
           has160 == IsNum(c[8]) /\ ~(flagged /\ c[7].s = "<")
           has080 == IsNum(c[10]) /\ ~(flagged /\ c[9].s = "<")
       IN IF IsNum(c[11]) THEN <<Pow(c[3].s, c[1], c[2], c[8].v, 160, c[11].v \div 1000)>>
          ELSE IF has160 THEN <<Pow(c[3].s, c[1], c[2], c[8].v, 160, 0)>>
          ELSE IF has080 THEN <<Pow(c[3].s, c[1], c[2], c[10].v, 80, 0)>>
          ELSE <<>>
CulMeta(r) ==
  LET c == r.cells
      flagged == ~IsNum(c[11]) /\ IsNum(c[8]) /\ IsNum(c[10])
      has160 == IsNum(c[8]) /\ ~(flagged /\ c[7].s = "<")
      has080 == IsNum(c[10]) /\ ~(flagged /\ c[9].s = "<")
      V(x, ok) == IF ok THEN <<x.v>> ELSE <<>>
  IN IF ~Holds(r, 4) THEN <<>>
     ELSE LET v080 == V(c[10], has080)
              v160 == V(c[8], has160)
              vind == V(c[11], IsNum(c[11]))
          IN <<[name |-> c[3].s, v |-> <<v080, v160, vind>>]>>

(* Helmboldt et al.: a source with fitted A, B (, C, D) follows
   log S = A + B X + C exp(D X), X = log(f / 74 MHz); one without has its
   flux at 74 MHz and its index above 300 MHz, or -99. *)
HelmRow(h) ==
  IF h.abcd = <<>>
  THEN [name |-> h.name, ra |-> h.ra.u, dec |-> h.dec.u, jys |-> h.f74 * 100, mf |-> 74, law |-> "pow",
        index |-> IF h.alpha = <<>> THEN << -99 >> ELSE h.alpha]
  ELSE [name |-> h.name, ra |-> h.ra.u, dec |-> h.dec.u, jys |-> 1000 * Ten(h.abcd[1]), mf |-> 74, law |-> "helm",
        index |-> Tail(h.abcd)]

(* A catalogue learned from its own full listing: fluxes at some frequencies. *)
Sources(c, file) ==
  CASE file.k = "learned" -> file.srcs
    [] c = "helm" -> [x \in 1..Len(file.rows) |-> HelmRow(file.rows[x])]
    [] c = "culgoora" -> Cat([x \in 1..Len(file.rows) |-> CulRow(file.rows[x])])
    [] OTHER -> Cat([x \in 1..Len(file.rows) |-> Row(Formats[c], file.rows[x])])

(* Sources by name; of two of a name the later counts. *)
RECURSIVE ByName(_)
ByName(q) == IF q = <<>> THEN << >> ELSE LET n == Len(q) IN (q[n].name :> q[n]) @@ ByName(SubSeq(q, 1, n - 1))

(***************************************************************************)
(* Fluxes above a cutoff (mJy) at a frequency (MHz).                       *)
(***************************************************************************)
At(tab, f) == tab[CHOOSE x \in 1..Len(tab) : tab[x][1] = f][2]
Above(s, cut, f) ==
  CASE s.law = "tab" -> At(s.tab, f) > cut
    [] s.law = "pow" ->
         LET i == s.index[1] IN
         CASE i = 0 -> s.jys > cut
           [] i = 1 -> s.jys * f > cut * s.mf
           [] i = -1 -> s.jys * s.mf > cut * f
           [] OTHER -> IF f = s.mf THEN s.jys > cut ELSE FALSE   \* -99, above mf
    [] OTHER ->
         LET P(x) == IF Len(s.index) >= x THEN s.index[x] ELSE 0
             \* f is 74 or 740 MHz, and then D = 0
             up == IF f = 740 THEN P(1) ELSE 0
             e  == up + P(2) + 3
         IN IF e >= 0 THEN (s.jys \div 1000) * Ten(e) > cut
            ELSE (s.jys \div 1000) > cut * Ten(0 - e)

(***************************************************************************)
(* Queries.  W.files says which files are there, W.loaded which            *)
(* catalogues have been read.                                              *)
(***************************************************************************)
W0 == [files |-> << >>, loaded |-> {}]
Absent(W, c) == c \in Known /\ c \notin DOMAIN W.files /\ c \notin W.loaded
Content(W, c) == ByName(Sources(c, W.files[c]))

Pick(M, q) == IF q.named THEN [k \in {x \in DOMAIN M : x \in SeqSet(q.names)} |-> M[k]]
              ELSE IF q.cut = <<>> THEN M
              ELSE [k \in {x \in DOMAIN M : Above(M[x], q.cut[1], q.cut[2])} |-> M[k]]
RECURSIVE Merge(_, _, _)
Merge(W, cs, q) == IF cs = <<>> THEN << >>
                   ELSE LET n == Len(cs)  rest == Merge(W, SubSeq(cs, 1, n - 1), q) IN
                        IF cs[n] \in Known THEN Pick(Content(W, cs[n]), q) @@ rest ELSE rest
Refused(W, q) == \E c \in SeqSet(q.cats) : Absent(W, c)
(* The objects that were asked for come last. *)
Answer(W, q) == ByName(q.objs) @@ Merge(W, q.cats, q)

(* Those that were read before a query came to one that is absent. *)
RECURSIVE ReadBy(_, _)
ReadBy(W, cs) == IF cs = <<>> \/ Absent(W, Head(cs)) THEN {}
                 ELSE ({Head(cs)} \cap Known) \cup ReadBy(W, Tail(cs))

Do(W, e) ==
  CASE e.op = "install" -> [W EXCEPT !.files = (e.cat :> e.file) @@ @]
    [] e.op = "query" -> [W EXCEPT !.loaded = @ \cup ReadBy(W, e.q.cats)]
    [] OTHER -> W

(***************************************************************************)
(* Judgement of observations.                                              *)
(***************************************************************************)
Seen(s) == [name |-> s.name, ra |-> s.ra, dec |-> s.dec, jys |-> s.jys, mf |-> s.mf, index |-> s.index]
SeenAll(M) == {Seen(M[k]) : k \in DOMAIN M}
Due(W, e) ==
  CASE e.op = "query" -> IF Refused(W, e.q) THEN {} ELSE SeenAll(Answer(W, e.q))
    [] e.op = "list" -> {}
    [] OTHER -> {}

QueryClause(W, e) ==
  LET o == e.o  due == Due(W, e) IN
  IF "err" \in DOMAIN o THEN IF Refused(W, e.q) THEN "" ELSE "a query of readable catalogues is answered"
  ELSE IF Refused(W, e.q) THEN "a catalogue that cannot be read is no empty one"
  ELSE IF {o.srcs[x].key : x \in 1..Len(o.srcs)} # {s.name : s \in due} THEN "the sources of the query"
  ELSE IF {o.srcs[x].src : x \in 1..Len(o.srcs)} # due THEN "position, flux, frequency and index of the sources"
  ELSE ""

(* e.have is the catalogue as last seen: a sequence of sources. *)
ListClause(e) ==
  LET M == ByName(e.have)
      names == e.names
  IN IF \E x \in 1..Len(names) : names[x] \notin DOMAIN M
     THEN IF "err" \in DOMAIN e.o THEN "" ELSE "a source that is not there is refused"
     ELSE IF "err" \in DOMAIN e.o THEN "sources that are there are listed"
     ELSE IF e.o.got # [x \in 1..Len(names) |-> Seen(M[names[x]])] THEN "the listing has the sources asked for, in order"
     ELSE IF e.o.mf # [x \in 1..Len(names) |-> M[names[x]].mf] THEN "an attribute of each source, in order"
     ELSE IF SeqSet(e.o.all) # {Seen(M[k]) : k \in DOMAIN M} \/ Len(e.o.all) # Cardinality(DOMAIN M) THEN "all sources are listed"
     ELSE ""

Clause(W, e) ==
  CASE e.op = "install" -> ""
    [] e.op = "query" -> QueryClause(W, e)
    [] e.op = "list" -> ListClause(e)
    [] e.op = "meta" ->
         LET rows == W.files["culgoora"].rows
             due == Cat([x \in 1..Len(rows) |-> CulMeta(rows[x])])
             M == ByName(due)
         IN IF "err" \in DOMAIN e.o THEN "measurements are available"
            ELSE IF SeqSet(e.o.meta) # {M[k] : k \in DOMAIN M} THEN "the measurements of the file"
            ELSE ""
    [] e.op = "add" ->
         LET due == ByName(e.objs) @@ ByName(e.have) IN
         IF "err" \in DOMAIN e.o THEN "sources can be added"
         ELSE IF SeqSet(e.o.all) # SeenAll(due) \/ Len(e.o.all) # Cardinality(DOMAIN due) THEN "added sources join the others, or take their place"
         ELSE ""
    [] e.op = "builtin" ->
         LET due == {b \in BuiltinSources : e.names = <<>> \/ b.name \in SeqSet(e.names)}
         IN IF "err" \in DOMAIN e.o THEN "the sources of the package are there"
            ELSE IF Len(e.o.srcs) # Cardinality(due) \/ {e.o.srcs[x].name : x \in 1..Len(e.o.srcs)} # {b.name : b \in due} THEN "the names of the sources of the package"
            ELSE IF SeqSet(e.o.srcs) # due THEN "the sources of the package"
            ELSE ""
    [] e.op = "passed" -> IF "err" \notin DOMAIN e.o /\ e.o.srcs = e.srcs /\ e.o.cut = e.cut /\ e.o.cats = e.cats /\ e.o.same THEN ""
                          ELSE "a calibration module gets the query and gives the answer"
    [] OTHER -> "the query returns"
=============================================================================
