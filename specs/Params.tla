------------------------------- MODULE Params -------------------------------
(* Parameters of sources, catalogues, beams, antennas and arrays (aipy.fit,  *)
(* aipy.pol, aipy._src.helm): get_params, set_params, flatten_prms and       *)
(* reconstruct_prms.                                                         *)
(*                                                                           *)
(* A value is [k |-> "s", v |-> <<token>>] (a number) or [k |-> "l",         *)
(* v |-> tokens] (a list); a tree of parameters is a value or                *)
(* [k |-> "d", v |-> <<[k |-> key, v |-> tree], ...>>].                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SeqSet(s) == {s[x] : x \in 1..Len(s)}
Map(ps) == [k \in {ps[x].k : x \in 1..Len(ps)} |-> ps[CHOOSE x \in 1..Len(ps) : ps[x].k = k].v]
Empty == [k \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f
Only(f, K) == [k \in DOMAIN f \cap K |-> f[k]]
Num(t) == [k |-> "s", v |-> <<t>>]

(***************************************************************************)
(* Objects.  What an object stores, and what it shows.                     *)
(***************************************************************************)
Body == {"jys", "index", "a1", "a2", "th", "dra", "ddec"}
Stored(kind, p) ==
  CASE kind = "fixed" -> Body \cup {"ra", "dec", "mfreq"}
    [] kind = "helm" -> Body \cup {"ra", "dec"}
    [] kind = "special" -> Body
    [] kind = "gauss" -> {"bm_xwidth", "bm_ywidth"}
    [] kind = "poly" -> {"bm_poly"}
    [] OTHER -> DOMAIN p                        \* flat beams, alm beams, antennas: as created
Suffixes == {"", "_x", "_y"}
Last2(v, n) == Num(v.v[Len(v.v) - n])
Derived(p) ==
  LET P == {s \in Suffixes : ("phsoff" \o s) \in DOMAIN p}
      D == {"dly" \o s : s \in P} \cup {"off" \o s : s \in P}
  IN [d \in D |-> LET s == CHOOSE s \in P : d \in {"dly" \o s, "off" \o s}
                      v == p["phsoff" \o s]
                  IN IF d = "dly" \o s THEN Last2(v, 1) ELSE Last2(v, 0)]

IsAnt(o) == o.kind \in {"ant", "pant"}
Shows(S, id) ==
  LET o == S.obj[id]
  IN IF IsAnt(o) THEN o.p @@ Derived(o.p) @@ S.obj[o.bm].p ELSE o.p
Get(S, id, q) == IF "*" \in SeqSet(q) THEN Shows(S, id) ELSE Only(Shows(S, id), SeqSet(q))

(* Setting: names that the object does not have are ignored.  A delay or an
   offset is a coefficient of the phase offset. *)
SetCoef(p, s, n, d, name) ==
  IF (name \o s) \notin DOMAIN d \/ ("phsoff" \o s) \notin DOMAIN p THEN p
  ELSE LET v == p["phsoff" \o s] IN [p EXCEPT !["phsoff" \o s] = [v EXCEPT !.v[Len(v.v) - n] = d[name \o s].v[1]]]
RECURSIVE Coefs(_, _, _)
Coefs(p, d, ss) == IF ss = {} THEN p
  ELSE LET s == CHOOSE s \in ss : TRUE
       IN Coefs(SetCoef(SetCoef(p, s, 1, d, "dly"), s, 0, d, "off"), d, ss \ {s})
Own(p, d) == Only(d, DOMAIN p) @@ Coefs(p, d, Suffixes)
Set(S, id, d) ==
  LET o == S.obj[id]
      T == IF IsAnt(o) THEN [S EXCEPT !.obj[o.bm].p = Own(@, d)] ELSE S
  IN [T EXCEPT !.obj[id].p = Own(@, d)]

(* Groups: a catalogue (names) or an array (numbers as text), in order. *)
Member(S, g, n) == S.grp[g][CHOOSE x \in 1..Len(S.grp[g]) : S.grp[g][x].k = n].v
Members(S, g) == {S.grp[g][x].k : x \in 1..Len(S.grp[g])}
GetG(S, g, q) ==
  LET Q == Map(q)
      M == Members(S, g) \cap (IF "*" \in DOMAIN Q THEN Members(S, g) ELSE DOMAIN Q)
  IN [n \in M |-> Get(S, Member(S, g, n), IF n \in DOMAIN Q THEN Q[n] ELSE Q["*"])]
RECURSIVE SetG(_, _, _)
SetG(S, ms, D) == IF ms = <<>> THEN S
  ELSE SetG(IF Head(ms).k \in DOMAIN D THEN Set(S, Head(ms).v, D[Head(ms).k]) ELSE S, Tail(ms), D)

(***************************************************************************)
(* Trees, their flattening and rebuilding.                                 *)
(***************************************************************************)
RECURSIVE Leaves(_), Subst(_, _), Cats(_)
Cats(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cats(Tail(ss))
Leaves(t) == IF t.k = "d" THEN Cats([x \in 1..Len(t.v) |-> Leaves(t.v[x].v)]) ELSE t.v
SubTok(m, x) == IF x \in DOMAIN m THEN m[x] ELSE x
Subst(t, m) == IF t.k = "d" THEN [t EXCEPT !.v = [x \in 1..Len(t.v) |-> [k |-> t.v[x].k, v |-> Subst(t.v[x].v, m)]]]
               ELSE [t EXCEPT !.v = [x \in 1..Len(t.v) |-> SubTok(m, t.v[x])]]
Count(s, v) == Cardinality({x \in 1..Len(s) : s[x] = v})
SameBag(a, b) == Len(a) = Len(b) /\ \A v \in SeqSet(a) : Count(a, v) = Count(b, v)
RECURSIVE SameTree(_, _)
SameTree(a, b) ==
  /\ a.k = b.k
  /\ Len(a.v) = Len(b.v)
  /\ IF a.k = "d" THEN \A x \in 1..Len(a.v) : \E y \in 1..Len(b.v) : a.v[x].k = b.v[y].k /\ SameTree(a.v[x].v, b.v[y].v)
     ELSE a.v = b.v
SubMap(e) == Map(e.sub)

(***************************************************************************)
S0 == [obj |-> Empty, grp |-> Empty, snap |-> Empty]
SubP(f, m) == [n \in DOMAIN f |-> Subst(f[n], m)]

Do(S, e) ==
  CASE e.op = "new" -> [S EXCEPT !.obj = Put(@, e.id, [kind |-> e.kind, bm |-> e.bm, p |-> Only(Map(e.p), Stored(e.kind, Map(e.p)))])]
    [] e.op = "grp" -> [S EXCEPT !.grp = Put(@, e.id, e.m)]
    [] e.op = "get" -> [S EXCEPT !.snap = Put(@, e.h, [one |-> Get(S, e.id, e.q)])]
    [] e.op = "gget" -> [S EXCEPT !.snap = Put(@, e.h, GetG(S, e.id, e.q))]
    [] e.op = "spoil" -> [S EXCEPT !.snap = Only(@, DOMAIN @ \ {e.h})]
    [] e.op = "set" -> Set(S, e.id, Map(e.d))
    [] e.op = "gset" -> SetG(S, S.grp[e.id], LET D == Map(e.d) IN [n \in DOMAIN D |-> Map(D[n])])
    [] e.op = "fit" -> Set(S, e.id, SubP(Get(S, e.id, e.q), SubMap(e)))
    [] e.op = "gfit" -> LET G == GetG(S, e.id, e.q) IN SetG(S, S.grp[e.id], [n \in DOMAIN G |-> SubP(G[n], SubMap(e))])
    [] OTHER -> S

AsMap(o) == LET m == Map(o) IN [n \in DOMAIN m |-> m[n]]
AsMaps(o) == LET m == Map(o) IN [n \in DOMAIN m |-> Map(m[n])]
(* "" when the result is allowed, else the clause that it breaks. *)
Clause(S, e) ==
  IF e.op \in {"crash", "hang", "died"} THEN "operations return"
  ELSE IF "err" \in DOMAIN e.o THEN "the operation is accepted"
  ELSE CASE e.op = "get" -> IF AsMap(e.o.m) = Get(S, e.id, e.q) THEN "" ELSE "parameters are as last set"
         [] e.op = "gget" -> IF AsMaps(e.o.m) = GetG(S, e.id, e.q) THEN "" ELSE "parameters of the group are as last set"
         [] e.op = "again" -> IF e.h \notin DOMAIN S.snap \/ AsMaps(e.o.m) = S.snap[e.h] THEN "" ELSE "returned parameters do not change"
         [] e.op = "flat" -> IF ~SameBag(e.o.flat, Leaves(e.tree)) THEN "the list has every number once"
                             ELSE IF ~SameTree(e.o.back, e.tree) THEN "rebuilding gives the parameters"
                             ELSE IF ~SameTree(e.o.sub, Subst(e.tree, SubMap(e))) THEN "each number goes back to its place"
                             ELSE ""
         [] OTHER -> ""
=============================================================================
