------------------------------- MODULE AntsMC -------------------------------
(* Exhaustive: baseline numbers are one to one over all antennas of a range *)
(* and the extremes, and what uv_selector asks of the data set (Build, with *)
(* the selection of UV.tla) is what the antenna string means (InSel).       *)
EXTENDS Ants
CONSTANTS NA, MaxTerms
Range == (0..NA) \cup {126, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 2045, 2046}

Atoms == {[n |-> n, neg |-> g, pol |-> p] : n \in 0..1, g \in {TRUE, FALSE}, p \in {"", "x"}}
Singles == {[k |-> "bl", ls |-> <<a>>, rs |-> r] : a \in Atoms, r \in {<<>>} \cup {<<b>> : b \in Atoms}}
Plain(tm) == \A a \in SeqSet(tm.ls) \cup SeqSet(tm.rs) : ~a.neg \/ \A b \in SeqSet(tm.ls) \cup SeqSet(tm.rs) : b.pol = ""
Terms == {[k |-> "all"], [k |-> "auto"], [k |-> "cross"]} \cup {tm \in Singles : Plain(tm)}

VARIABLES mode, i, j, tms, pols
vars == <<mode, i, j, tms, pols>>
Init == \/ mode = "bl" /\ i \in Range /\ j \in Range /\ tms = <<>> /\ pols = <<>>
        \/ mode = "sel" /\ i = 0 /\ j = 0 /\ tms = <<>> /\ pols \in {<<>>, <<"xx">>, <<"xx", "yy">>}
Next == mode = "sel" /\ Len(tms) < MaxTerms /\ \E tm \in Terms : tms' = Append(tms, tm) /\ UNCHANGED <<mode, i, j, pols>>
Spec == Init /\ [][Next]_vars

RoundTrip == mode = "bl" => /\ Bl2Ij(Ij2Bl(i, j)) = (IF i < j THEN <<i, j>> ELSE <<j, i>>)
                            /\ Ij2Bl(i, j) = Ij2Bl(j, i)
World == {[t |-> 0, i |-> a, j |-> b, uu |-> 0, vars |-> [pol |-> [v |-> "", num |-> p]]] :
            a \in 0..1, b \in 1..2, p \in -8..-5}
SelMeans == mode = "sel" =>
  LET es == Parse(tms, 3) IN
  \A r \in World : InSel(es, SeqSet(pols), r) = Selected(Build(es, pols), r, 1)
(* "all" is everything, and a name in either order is the same baseline. *)
AllIsAll == mode = "sel" /\ tms # <<>> /\ tms[Len(tms)].k = "all" /\ pols = <<>> => \A r \in World : InSel(Parse(tms, 3), {}, r)
EitherOrder == mode = "sel" =>
  \A a \in Atoms, b \in Atoms, r \in World :
    InSel(Parse(<<[k |-> "bl", ls |-> <<a>>, rs |-> <<b>>]>>, 3), {}, r)
      = InSel(Parse(<<[k |-> "bl", ls |-> <<b>>, rs |-> <<a>>]>>, 3), {}, r)
PolOneToOne == \A p, q \in DOMAIN PolCodes : PolCodes[p] = PolCodes[q] => p = q
=============================================================================
