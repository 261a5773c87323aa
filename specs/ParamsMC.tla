----------------------------- MODULE ParamsMC -------------------------------
(* Every history of sets on two antennas that share a beam, a polarized     *)
(* antenna and a source, alone or through their groups; and every small     *)
(* tree of parameters.                                                       *)
EXTENDS Params
CONSTANTS MaxSets, Vals, Depth

VARIABLES S, log, tree
vars == <<S, log, tree>>
N(t) == Num(t)
L(ts) == [k |-> "l", v |-> ts]
AntP(s) == ("phsoff" \o s :> L(<<"0", "0">>)) @@ ("amp" \o s :> N("0"))
Start ==
  [obj |-> ("b" :> [kind |-> "gauss", bm |-> "", p |-> ("bm_xwidth" :> N("0"))])
        @@ ("a0" :> [kind |-> "ant", bm |-> "b", p |-> AntP("")])
        @@ ("a1" :> [kind |-> "pant", bm |-> "b", p |-> AntP("_x") @@ AntP("_y")])
        @@ ("s" :> [kind |-> "special", bm |-> "", p |-> ("jys" :> N("0")) @@ ("index" :> N("0"))]),
   grp |-> ("aa" :> <<[k |-> "0", v |-> "a0"], [k |-> "1", v |-> "a1"]>>) @@ ("cat" :> <<[k |-> "Sun", v |-> "s"]>>),
   snap |-> Empty]

Scal == {"dly", "off_x", "amp", "amp_y", "jys", "bm_xwidth", "nonsense"}
OneD == UNION {[{k} -> {N(v) : v \in Vals}] : k \in Scal}
        \cup UNION {[{k} -> {L(<<v, "9">>) : v \in Vals}] : k \in {"phsoff", "phsoff_x"}}
Pairs == {a @@ b : a \in {d \in OneD : "amp" \in DOMAIN d}, b \in {d \in OneD : "bm_xwidth" \in DOMAIN d}}
DD == OneD \cup Pairs

Trees0 == {N("a"), N("b"), L(<<>>), L(<<"a">>), L(<<"b", "a">>)}
Branch(ts) == {[k |-> "d", v |-> <<>>]} \cup {[k |-> "d", v |-> <<[k |-> "p", v |-> t]>>] : t \in ts}
              \cup {[k |-> "d", v |-> <<[k |-> "p", v |-> t], [k |-> "q", v |-> u]>>] : t \in ts, u \in ts}
Trees1 == Branch(Trees0)
Trees2 == Branch(Trees0 \cup Branch({N("a"), L(<<"a">>)}))
Init == S = Start /\ log = <<>> /\ tree \in (IF Depth = 1 THEN Trees1 ELSE Trees2)

First == CHOOSE t \in Trees1 : t.v = <<>>
SetOne == \E id \in {"a0", "a1", "b", "s"}, d \in DD : S' = Set(S, id, d) /\ log' = Append(log, [who |-> id, d |-> d])
SetAll == \E g \in {"aa", "cat"}, d \in DD, ns \in SUBSET {"0", "1", "Sun", "nobody"} \ {{}} :
            /\ Cardinality(ns) <= 2
            /\ S' = SetG(S, S.grp[g], [n \in ns |-> d])
            /\ log' = log \o (IF g = "cat" THEN (IF "Sun" \in ns THEN <<[who |-> "s", d |-> d]>> ELSE <<>>)
                              ELSE (IF "0" \in ns THEN <<[who |-> "a0", d |-> d]>> ELSE <<>>)
                                   \o (IF "1" \in ns THEN <<[who |-> "a1", d |-> d]>> ELSE <<>>))
Next == tree = First /\ Len(log) < MaxSets /\ (SetOne \/ SetAll) /\ UNCHANGED tree
Spec == Init /\ [][Next]_vars

(* What a parameter shows was last set, through the object or through one
   that shares its beam; it is as it began otherwise. *)
Has(id) == CASE id = "a0" -> {"dly", "off", "amp", "bm_xwidth"} [] id = "a1" -> {"dly_x", "off_x", "amp_x", "dly_y", "off_y", "amp_y", "bm_xwidth"}
             [] id = "s" -> {"jys", "index"} [] id = "b" -> {"bm_xwidth"}
Reaches(w, id, k) == w = id \/ (k = "bm_xwidth" /\ w # "s" /\ id # "s")
Poly(k) == CASE k \in {"dly", "off"} -> "phsoff" [] k \in {"dly_x", "off_x"} -> "phsoff_x" [] k \in {"dly_y", "off_y"} -> "phsoff_y" [] OTHER -> ""
Names(d, k) == k \in DOMAIN d \/ Poly(k) \in DOMAIN d
Of(d, k) == IF k \in DOMAIN d THEN d[k] ELSE N(d[Poly(k)].v[IF k \in {"dly", "dly_x", "dly_y"} THEN 1 ELSE 2])
LastSet ==
  \A id \in DOMAIN S.obj : \A k \in Has(id) :
    LET H == {x \in 1..Len(log) : Reaches(log[x].who, id, k) /\ Names(log[x].d, k)}
        v == Get(S, id, <<k>>)[k]
    IN IF H = {} THEN v = N("0") ELSE v = Of(log[CHOOSE x \in H : \A y \in H : y <= x].d, k)
NothingMore == \A id \in DOMAIN S.obj : "nonsense" \notin DOMAIN Get(S, id, <<"*">>) /\ Has(id) \subseteq DOMAIN Get(S, id, <<"*">>)
(* Setting what was returned restores. *)
Restores ==
  \A d \in OneD : LET T == Set(S, "a0", d) IN Shows(Set(T, "a0", Shows(S, "a0")), "a0") = Shows(S, "a0")
GroupIsEach == LET G == GetG(S, "aa", <<[k |-> "*", v |-> <<"*">>]>>)
               IN DOMAIN G = {"0", "1"} /\ G["0"] = Shows(S, "a0") /\ G["1"] = Shows(S, "a1")

(* Trees: substitution is by place when every number is different. *)
RECURSIVE Size(_)
Size(t) == IF t.k # "d" THEN Len(t.v) ELSE LET n == Len(t.v) IN IF n = 0 THEN 0 ELSE IF n = 1 THEN Size(t.v[1].v) ELSE Size(t.v[1].v) + Size(t.v[2].v)
TreeLaws == /\ Len(Leaves(tree)) = Size(tree)
            /\ SameTree(tree, tree)
            /\ Subst(tree, Empty) = tree
            /\ LET m == ("a" :> "c") IN Count(Leaves(Subst(tree, m)), "c") = Count(Leaves(tree), "a")
            /\ \A t \in Trees1 : SameTree(t, tree) => SameBag(Leaves(t), Leaves(tree))
=============================================================================
