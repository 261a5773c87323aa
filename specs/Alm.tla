--------------------------------- MODULE Alm ---------------------------------
(***************************************************************************)
(* Spherical harmonic coefficients (aipy/healpix.py: Alm), the maps made    *)
(* from them and beams described by them (aipy/amp.py: BeamAlm).            *)
(*                                                                          *)
(* A set of coefficients is a function of (l, m).  Its list is in order of  *)
(* m, then l.  A real map made from coefficients and turned back gives the  *)
(* same coefficients where both have them, zero elsewhere; the value of a   *)
(* map at each place is known exactly for l < 2, m = 0 (in units of the     *)
(* monopole), and with it the response of a beam that has no other terms.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
H == INSTANCE Healpix

LMs(lmax, mmax) == { <<l, m>> \in (0..lmax) \X (0..mmax) : m <= l }
Size(lmax, mmax) == ((mmax + 1) * (lmax + 1)) - ((mmax * (mmax + 1)) \div 2)
Index(lmax, l, m) == ((m * ((2 * lmax) + 1 - m)) \div 2) + l
Order(lmax, mmax) == [k \in 1..Size(lmax, mmax) |-> CHOOSE x \in LMs(lmax, mmax) : Index(lmax, x[1], x[2]) = k - 1]
C0 == <<0, 0>>
Zeros(lmax, mmax) == [x \in LMs(lmax, mmax) |-> C0]
List(a) == [k \in 1..Size(a.lmax, a.mmax) |-> a.c[Order(a.lmax, a.mmax)[k]]]
Unlist(lmax, mmax, s) == [x \in LMs(lmax, mmax) |-> s[Index(lmax, x[1], x[2]) + 1]]

W0 == << >>
Put(s, id, what) == IF id > Len(s) THEN Append(s, what) ELSE [s EXCEPT ![id] = what]
Refused(S, e) == CASE e.op = "setdata" -> Len(e.vals) # Size(S[e.id].lmax, S[e.id].mmax)
                   [] e.op = "new" -> e.lmax < e.mmax
                   [] OTHER -> FALSE
\* what a map made from a keeps for coefficients up to l, m
Kept(a, lmax, mmax) == [lmax |-> lmax, mmax |-> mmax,
  c |-> [x \in LMs(lmax, mmax) |-> IF x \in DOMAIN a.c THEN a.c[x] ELSE C0]]
Do(S, e) ==
  IF Refused(S, e) THEN S ELSE
  CASE e.op = "new" -> Put(S, e.id, [lmax |-> e.lmax, mmax |-> e.mmax, c |-> Zeros(e.lmax, e.mmax)])
    [] e.op = "set" -> [S EXCEPT ![e.id].c[<<e.l, e.m>>] = e.v]
    [] e.op = "setdata" -> [S EXCEPT ![e.id].c = Unlist(S[e.id].lmax, S[e.id].mmax, e.vals)]
    [] e.op = "zero" -> [S EXCEPT ![e.id].c = Zeros(S[e.id].lmax, S[e.id].mmax)]
    [] e.op \in {"trip", "maptrip"} -> Put(S, e.to, Kept(S[e.id], e.lmax, e.mmax))
    [] OTHER -> S

RECURSIVE PolyAt(_, _, _)
PolyAt(s, f, k) == IF k > Len(s) THEN 0 ELSE s[k] + (f * PolyAt(s, f, k + 1))
Due(S, e) ==
  CASE e.op = "get" -> [v |-> S[e.id].c[<<e.l, e.m>>]]
    [] e.op = "indices" -> [lm |-> Order(S[e.id].lmax, S[e.id].mmax), size |-> Size(S[e.id].lmax, S[e.id].mmax),
                            lmax |-> S[e.id].lmax, mmax |-> S[e.id].mmax]
    [] e.op = "value" -> [v |-> [k \in 1..Len(e.px) |-> (e.a0 * 3 * e.n * e.n) + (e.a1 * H!Centres[e.n][e.px[k]].z)]]
    \* e.terms[k] is the factor of frequency to the power k-1
    [] e.op = "beam" -> [v |-> [k \in 1..Len(e.freqs) |-> [d \in 1..e.dirs |-> PolyAt(e.terms, e.freqs[k], 1)]]]
    [] e.op = "maptrip" -> [sch |-> "RING"]
    [] OTHER -> [ok |-> TRUE]
Seen(o) == [lmax |-> o.lmax, mmax |-> o.mmax, c |-> Unlist(o.lmax, o.mmax, o.c)]
Clause(S, e) ==
  IF e.op = "died" THEN "the library crashed or did not return"
  ELSE IF Refused(S, e) /\ "err" \notin DOMAIN e.o THEN "an impossible operation was accepted"
  ELSE IF ~Refused(S, e) /\ "err" \in DOMAIN e.o THEN "a possible operation was refused"
  ELSE IF ~Refused(S, e) /\ (DOMAIN e.o # DOMAIN Due(S, e) \/ e.o # Due(S, e)) THEN "wrong values"
  ELSE LET N == Do(S, e)
       IN IF Len(e.a) # Len(N) THEN "wrong number of sets"
          ELSE IF \E i \in DOMAIN e.a : Len(e.a[i].c) # Size(e.a[i].lmax, e.a[i].mmax) THEN "a set of impossible size"
          ELSE IF \E i \in DOMAIN e.a : Seen(e.a[i]) # N[i] THEN "other coefficients"
          ELSE ""
=============================================================================
