----------------------------- MODULE CatalogMC ------------------------------
(* Three catalogues with every choice of rows, installed in any order, and  *)
(* every query before, between and after.                                   *)
EXTENDS Catalog
CONSTANTS MaxRows, MaxQueries, AllTogether
VARIABLES W, plan, said
vars == <<W, plan, said>>

U(n) == [k |-> "num", v |-> n]
P(h) == [k |-> "pos", p |-> <<h, "00", "00.0">>, u |-> 0]
X(s) == [k |-> "txt", s |-> s]
Blank == [k |-> "blank"]
VRow(first, n, v) == [first |-> first, cells |-> <<U(1), U(2), X(n), P("01"), P("02"), U(v)>>]
TRow(n, v, i) == [first |-> "digit", cells |-> <<P("01"), P("02"), X(n), U(0), U(0), U(0), U(0), U(v), U(0), U(0), i>>]
CRow(fa, a, fb, b, i) == [first |-> "digit", cells |-> <<P("01"), P("02"), X("a"), U(0), U(0), U(0), X(fa), a, X(fb), b, i>>]

RowsOf(c) ==
  CASE c = "vlss" -> {VRow(k[1], k[2], k[3]) : k \in {"digit", "hash", "other"} \X {"a", "b"} \X {5, 20}}
    [] c = "txs" -> {TRow(k[1], k[2], k[3]) : k \in {"a", "c"} \X {10, 40} \X {U(1000), U(-1000), Blank}}
    [] OTHER -> {CRow(k[1], k[2], k[3], k[4], k[5]) : k \in {"<", " "} \X {U(10), Blank} \X {"<", " "} \X {U(30), Blank} \X {U(0 - 1000), Blank}}
Sane(c, r) == c # "culgoora" \/ IF IsNum(r.cells[11]) THEN IsNum(r.cells[8]) ELSE CulRow(r) # <<>>
Files(c) == UNION {[1..k -> {r \in RowsOf(c) : Sane(c, r)}] : k \in 1..(IF c = "vlss" THEN MaxRows ELSE 1)}
Cats == {"vlss", "txs", "culgoora"}

Q(named, names, cut, cats) == [named |-> named, names |-> names, cut |-> cut, cats |-> cats, objs |-> <<>>]
Lists == {<<>>, <<"vlss">>, <<"txs">>, <<"culgoora">>, <<"vlss", "txs">>, <<"txs", "vlss">>, <<"nothing", "culgoora", "vlss">>,
          <<"vlss", "txs", "culgoora">>}
Cuts == {<<9, 365>>, <<9, 730>>, <<15, 365>>, <<35, 80>>, <<1, 4850>>}
Queries == {Q(FALSE, <<>>, <<>>, l) : l \in Lists} \cup {Q(FALSE, <<>>, c, l) : c \in Cuts, l \in Lists}
           \cup {Q(TRUE, n, <<>>, l) : n \in {<<"a">>, <<"c", "a">>, <<"z">>}, l \in Lists}

FixedC == <<CRow(" ", U(10), "<", U(30), Blank)>>
FixedV == <<VRow("digit", "a", 20)>>
FixedT == <<TRow("a", 10, U(1000))>>
Init == W = W0 /\ said = <<>> /\ \E v \in Files("vlss"), t \in Files("txs"), g \in Files("culgoora") :
          /\ plan = [c \in Cats |-> CASE c = "vlss" -> v [] c = "txs" -> t [] OTHER -> g]
          /\ AllTogether \/ g = FixedC \/ (v = FixedV /\ t = FixedT)
Install == \E c \in Cats \ DOMAIN W.files :
             W' = Do(W, [op |-> "install", cat |-> c, file |-> [k |-> "file", rows |-> plan[c]]]) /\ UNCHANGED <<plan, said>>
Ask == /\ Len(said) < MaxQueries
       /\ \E q \in {x \in Queries : ~x.named /\ x.cut = <<>>} :
            /\ W' = Do(W, [op |-> "query", q |-> q])
            /\ said' = Append(said, [q |-> q, refused |-> Refused(W, q), a |-> IF Refused(W, q) THEN << >> ELSE Answer(W, q)])
            /\ UNCHANGED plan
Next == Install \/ Ask
Spec == Init /\ [][Next]_vars

Ok == {q \in Queries : ~Refused(W, q)}
(* A catalogue that is not there is never taken for an empty one, and what
   was asked before does not matter. *)
NotThere == \A q \in Queries : Refused(W, q) <=> \E x \in 1..Len(q.cats) : q.cats[x] \in Cats /\ q.cats[x] \notin DOMAIN W.files
Same == \A x \in 1..Len(said) : said[x].refused \/ Answer(W, said[x].q) = said[x].a
Loaded == W.loaded \subseteq DOMAIN W.files
(* Nothing comes from elsewhere; nothing is lost; the later catalogue counts. *)
Truth(q) == \A k \in DOMAIN Answer(W, q) : \E c \in SeqSet(q.cats) \cap Cats : k \in DOMAIN Content(W, c) /\ Answer(W, q)[k] = Content(W, c)[k]
Whole(q) == ~q.named /\ q.cut = <<>> => \A c \in SeqSet(q.cats) \cap Cats : DOMAIN Content(W, c) \subseteq DOMAIN Answer(W, q)
Later(q) == \A k \in DOMAIN Answer(W, q) : \A c \in SeqSet(q.cats) \cap Cats :
              LET M == Pick(Content(W, c), q)  a == Answer(W, q)[k] IN
              k \in DOMAIN M /\ M[k] # a =>
                \E x, y \in 1..Len(q.cats) : x < y /\ q.cats[x] = c /\ q.cats[y] \in Cats /\ k \in DOMAIN Content(W, q.cats[y]) /\ Content(W, q.cats[y])[k] = a
Right == \A q \in Ok : Truth(q) /\ Whole(q) /\ Later(q)
(* Higher cutoffs give fewer sources; what is above is above, by the law of
   its spectrum, evaluated exactly. *)
Fewer == \A q \in Ok, r \in Ok : ~q.named /\ ~r.named /\ q.cats = r.cats /\ Len(q.cats) = 1 /\ q.cut # <<>>
             /\ (r.cut = <<>> \/ (r.cut # <<>> /\ r.cut[2] = q.cut[2] /\ r.cut[1] <= q.cut[1]))
           => DOMAIN Answer(W, q) \subseteq DOMAIN Answer(W, r)
Named == \A q \in Ok : q.named => DOMAIN Answer(W, q) = SeqSet(q.names) \cap UNION {DOMAIN Content(W, c) : c \in SeqSet(q.cats) \cap Cats}
(* Comments and headings hold nothing; a source of the table is there. *)
Parsed == "vlss" \in DOMAIN W.files =>
            DOMAIN Content(W, "vlss") = {plan["vlss"][x].cells[3].s : x \in {y \in 1..Len(plan["vlss"]) : plan["vlss"][y].first = "digit"}}
(* Of two fluxes and flags, an unflagged measurement is taken; the index only
   comes with the flux at 160 MHz. *)
Culgoora == "culgoora" \in DOMAIN W.files =>
   LET c == plan["culgoora"][1].cells  s == Content(W, "culgoora")["a"] IN
   /\ s.mf = 80 => ~IsNum(c[8]) \/ (c[7].s = "<" /\ IsNum(c[10]))
   /\ s.mf = 160 => IsNum(c[8]) /\ s.jys = 10
   /\ s.mf = 80 => s.jys = 30 /\ s.index = <<0>>
   /\ (s.mf = 160 /\ s.index = <<0>> /\ IsNum(c[10])) => c[7].s # "<"
=============================================================================
