------------------------------ MODULE StringsMC -----------------------------
(* Every small channel text and every small parameter text. *)
EXTENDS Strings
CONSTANTS MaxTerms, Top, MaxSpecs

VARIABLES terms, specs
vars == <<terms, specs>>
Terms == {<<a>> : a \in 0..Top} \cup {<<a, b>> : a, b \in 0..Top}
         \cup {<<a, b, s>> : a, b \in 0..Top, s \in 1..2}
ObjLists == {<<"a">>, <<"b">>, <<"a", "b">>}
PrmLists == {<<"p">>, <<"q">>, <<"p", "q">>}
ValLists == {<<>>, <<"1">>, <<"2", "3">>}
Specs == {[objs |-> o, prms |-> p, vals |-> v, sigs |-> s] : o \in ObjLists, p \in PrmLists, v \in ValLists, s \in ValLists}

Init == terms = <<>> /\ specs = <<>>
Next == \/ Len(terms) < MaxTerms /\ specs = <<>> /\ \E t \in Terms : terms' = Append(terms, t) /\ UNCHANGED specs
        \/ Len(specs) < MaxSpecs /\ terms = <<>> /\ \E s \in Specs : Valid(s) /\ specs' = Append(specs, s) /\ UNCHANGED terms
Spec == Init /\ [][Next]_vars

Covers(t, c) == CASE Len(t) = 1 -> c = t[1]
                  [] Len(t) = 2 -> t[1] <= c /\ c <= t[2]
                  [] OTHER -> t[1] <= c /\ c <= t[2] /\ (c - t[1]) % t[3] = 0
(* Every channel as often as there are terms that cover it, and each term's
   channels in order. *)
ChansCover ==
  LET cs == Chans(terms, FALSE, 0)
  IN \A c \in 0..Top : Cardinality({x \in 1..Len(cs) : cs[x] = c}) = Cardinality({x \in 1..Len(terms) : Covers(terms[x], c)})
TermsOrdered == \A x \in 1..Len(terms) : LET t == TermChans(terms[x]) IN \A y \in 1..(Len(t) - 1) : t[y] < t[y + 1]
AllIsAll == Chans(terms, TRUE, 3) = <<0, 1, 2>>

(* The last specification that speaks of a parameter of an object decides. *)
Speaks(s, o, p) == o \in SeqSet(s.objs) /\ p \in SeqSet(s.prms)
Pos(q, v) == CHOOSE x \in 1..Len(q) : q[x] = v
Val(v, s, o, p) == IF v = <<>> THEN "None" ELSE IF Len(v) = 1 THEN v[1]
                   ELSE IF Len(s.objs) > 1 THEN v[Pos(s.objs, o)] ELSE v[Pos(s.prms, p)]
PrmsLast ==
  LET r == Prms(specs) IN
  \A o \in {"a", "b"}, p \in {"p", "q"} :
    LET sp == {x \in 1..Len(specs) : Speaks(specs[x], o, p)}
    IN IF sp = {} THEN o \notin DOMAIN r \/ p \notin DOMAIN r[o]
       ELSE LET s == specs[CHOOSE x \in sp : \A y \in sp : y <= x]
            IN r[o][p] = <<Val(s.vals, s, o, p), Val(s.sigs, s, o, p)>>
=============================================================================
