------------------------------ MODULE ScriptsMC ------------------------------
(* All histories of scripts run on two small data sets, up to so many data    *)
(* sets and stored models.                                                    *)
EXTENDS Scripts
CONSTANTS Most
VARIABLES W, last, err
vars == <<W, last, err>>

Rec(t, i, j, p, d, f) == [t |-> t, i |-> i, j |-> j, p |-> p, u |-> <<i, j, t>>, g |-> t, d |-> d, f |-> f]
R(x) == <<x, 0>>
I(x) == <<0, x>>
A == [nchan |-> 4, nschan |-> 4, sdf |-> 2, sfreq |-> 8, hist |-> <<"made">>, bp |-> << >>, recs |->
      << Rec(0, 0, 0, -5, <<R(24), R(24), R(48), R(24)>>, <<0, 0, 0, 1>>),
         Rec(0, 0, 1, -5, <<R(24), I(-48), R(96), R(0)>>, <<0, 0, 0, 0>>),
         Rec(0, 0, 1, -6, <<I(24), I(24), I(24), I(48)>>, <<0, 1, 1, 0>>),
         Rec(1, 0, 0, -5, <<R(24), R(24), R(24), R(24)>>, <<0, 0, 0, 0>>),
         Rec(1, 0, 1, -5, <<R(72), I(48), R(24), R(24)>>, <<0, 0, 0, 1>>),
         Rec(1, 0, 1, -6, <<I(24), I(72), I(96), I(-48)>>, <<0, 1, 0, 0>>) >>]
\* the same of another time, and another order of the baselines
B == [A EXCEPT !.recs = [k \in 1..6 |-> LET r == A.recs[((k + 1) % 6) + 1] IN [r EXCEPT !.t = @ + 4, !.d = [c \in 1..4 |-> r.d[5 - c]]]]]

Files == { <<n>> : n \in DOMAIN W.dir \cup {"none"} } \cup { <<"a", "b">>, <<"b", "none">>, <<"b", "a">> }
Run(sc, o, files) == [op |-> "run", sc |-> sc, o |-> o, files |-> files, tab |-> << >>]
Combines == { [n |-> n, careful |-> c, dont |-> d, unify |-> u] : n \in {1, 2, 4}, c \in BOOLEAN, d \in BOOLEAN, u \in BOOLEAN }
Flags == [ch: {<< >>, <<0>>, <<1, 3>>}, reflag: BOOLEAN, share: BOOLEAN]
Stats == [ant: {"all"}, ch: {<< >>, <<2>>}, df: BOOLEAN, dt: {FALSE}, q: {<<2, 1>>}, comb: BOOLEAN, thr: {1, 2}, to: {"", "m"}, from: {"", "m"}]
Xtalk == { [in |-> FALSE, out |-> FALSE, rep |-> FALSE, c0 |-> 0], [in |-> TRUE, out |-> FALSE, rep |-> FALSE, c0 |-> 0], [in |-> FALSE, out |-> TRUE, rep |-> FALSE, c0 |-> 0] }
HasIn(w, n) == n \in DOMAIN w.dir /\ w.dir[n].recs # << >>
Has(n) == HasIn(W, n)
Divides(o, f) == \A k \in 1..Len(f) : Has(f[k]) => W.dir[f[k]].nchan % o.n = 0
Fit(f) == \A k \in 1..Len(f) : Has(f[k]) => /\ \E r \in ToSet(W.dir[f[k]].recs) : r.i # r.j
                                            /\ LET t == Time(W.dir[f[k]]) IN t \in DOMAIN W.npz => \A x \in DOMAIN W.npz[t] : Len(W.npz[t][x]) = W.dir[f[k]].nchan
\* the specification divides only multiples: talk of talk would not be
Plain(f) == \A k \in 1..Len(f) : f[k] \in {"a", "b", "aP", "aA", "ad", "aa", "ar", "aR", "none"}
Unified(o, f) == ~o.unify \/ \A k \in 1..Len(f) : Has(f[k]) => \A n \in 1..Len(f) : Has(f[n]) => W.dir[f[k]].nchan = W.dir[f[n]].nchan
Channels(o, f) == \A k \in 1..Len(f) : Has(f[k]) => \A c \in ToSet(o.ch) : c < W.dir[f[k]].nchan
Events ==
  UNION { { Run("pull_pol", [pols |-> p], f) : p \in {<<-5>>, <<-6, -5>>, <<-8>>} } \cup { Run("pull_ants", [ants |-> x], f) : x \in {<<0>>, <<0, 1>>, <<1>>} }
          \cup { Run("combine_freqs", o, f) : o \in { x \in Combines : Plain(f) /\ Divides(x, f) /\ Unified(x, f) } }
          \cup { Run("apply_bp", [s |-> 2], f) }
          \cup { Run("xrfi", o, f) : o \in { x \in Flags : Channels(x, f) } }
          \cup { Run("xtalk3", o, f) : o \in { x \in Xtalk : Plain(f) /\ Fit(f) } }
          \cup { Run("xrfi_simple", o, f) : o \in { x \in Stats : /\ ((x.to # "" \/ x.from # "") => (x.comb /\ ~x.df /\ x.ch = << >>))
                                                               /\ (x.to = "" \/ x.from = "")
                                                               /\ (x.thr = 1 \/ x.comb)
                                                               /\ (x.from # "" => x.from \in DOMAIN W.msk)
                                                               /\ (x.from # "" => \A k \in 1..Len(f) : Has(f[k]) => W.dir[f[k]].nchan = 4)
                                                               /\ Channels(x, f) /\ (\A k \in 1..Len(f) : Has(f[k]) => W.dir[f[k]].nchan >= 3) } }
        : f \in Files }
  \cup { Run("uv_addsub", [sub |-> s], <<x, y>>) : s \in BOOLEAN, x \in DOMAIN W.dir, y \in { n \in DOMAIN W.dir : \A x \in DOMAIN W.dir : TRUE } }
Paired(e) == e.sc = "uv_addsub" => LET x == W.dir[e.files[1]]  y == W.dir[e.files[2]] IN x.nchan = y.nchan /\ Len(x.recs) <= Len(y.recs)

Init == W = [W0 EXCEPT !.dir = ("a" :> A) @@ ("b" :> B)] /\ last = [op |-> "make"] /\ err = FALSE
Size2(w) == Cardinality(DOMAIN w.dir) + Cardinality(DOMAIN w.npz) + Cardinality(DOMAIN w.msk)
Next == /\ Size2(W) < Most
        /\ \E e \in Events : /\ Paired(e)
             /\ LET r == Result(W, e, TRUE) IN W' = r.W /\ err' = r.err /\ last' = e
Spec == Init /\ [][Next]_vars
\* what happened before does not matter for what can happen
View == W

Sets == { W.dir[n] : n \in DOMAIN W.dir }
TypeOK == \A ds \in Sets : \A k \in 1..Len(ds.recs) : Len(ds.recs[k].d) = ds.nchan /\ Len(ds.recs[k].f) = ds.nchan
\* nothing that is there is ever changed or lost, failure or not
Kept(v, w, e, bad) == \A n \in DOMAIN v.dir : n \in DOMAIN w.dir /\ w.dir[n] = v.dir[n]
New(v, w, e, bad) == DOMAIN w.dir \ DOMAIN v.dir
\* what is new is named after a file that v given
Named(v, w, e, bad) == \A n \in New(v, w, e, bad) : \E k \in 1..Len(e.files) : n = e.files[k] \o Suffix(e)
\* the band stays the same, whatever is combined
Band == \A ds \in Sets : ds.nchan * ds.sdf = 8 /\ ds.sfreq = 8
\* records are those that were there, in their order
Of(r) == [r EXCEPT !.d = << >>, !.f = << >>]
RECURSIVE IsSub(_, _)
IsSub(a, b) == a = << >> \/ (b # << >> /\ IF Of(Head(a)) = Of(Head(b)) THEN IsSub(Tail(a), Tail(b)) ELSE IsSub(a, Tail(b)))
Subset(v, w, e, bad) == (e.sc \notin {"combine_freqs"}) => \A n \in New(v, w, e, bad) : IsSub(w.dir[n].recs, v.dir[e.files[CHOOSE k \in 1..Len(e.files) : n = e.files[k] \o Suffix(e)]].recs)
\* joining files joins all of their records
Joined(v, w, e, bad) == (e.sc = "combine_freqs") => \A n \in New(v, w, e, bad) :
            IF e.o.unify THEN Len(w.dir[n].recs) \in 1..12 ELSE Len(w.dir[n].recs) = Len(v.dir[e.files[CHOOSE k \in 1..Len(e.files) : n = e.files[k] \o Suffix(e)]].recs)
\* what is flagged by these is zero
Blanked(v, w, e, bad) == (e.sc \in {"xrfi", "xrfi_simple", "uv_addsub"}) => \A n \in New(v, w, e, bad) : \A r \in ToSet(w.dir[n].recs) : \A c \in Chans(r) : r.f[c] = 1 => r.d[c] = Zero
\* flags only go with reflag
Flagged(v, w, e, bad) == ((e.sc \in {"uv_addsub", "xtalk3", "apply_bp"} \/ (e.sc = "xrfi" /\ ~e.o.reflag) \/ (e.sc = "xrfi_simple" /\ ~e.o.comb)))
             => \A n \in New(v, w, e, bad) : LET a == v.dir[e.files[CHOOSE k \in 1..Len(e.files) : n = e.files[k] \o Suffix(e)]] IN
                               \A k \in 1..Len(a.recs) : \A c \in Chans(a.recs[k]) : a.recs[k].f[c] = 1 => w.dir[n].recs[k].f[c] = 1
\* nothing is left of what is the same at all times
NoTalk(v, w, e, bad) == (e.sc = "xtalk3" /\ ~e.o.in) => \A n \in New(v, w, e, bad) : LET x == Talk(w.dir[n]) IN \A k \in DOMAIN x : \A c \in 1..Len(x[k]) : x[k][c] = Zero
\* careful flags most, dont flags least
Orders == \A ds \in {A, B} : \A n \in {1, 2} : \A c, d \in BOOLEAN :
  LET of(x, y) == Combine(ds, [n |-> n, careful |-> x, dont |-> y, unify |-> FALSE], TRUE)
      F(x, k) == { q \in 1..n : x.recs[k].f[q] = 1 }
  IN \A k \in 1..Len(ds.recs) : F(of(FALSE, TRUE), k) \subseteq F(of(c, d), k) /\ F(of(c, d), k) \subseteq F(of(TRUE, d), k)
\* a failure makes nothing that is not asked for
Failed(v, w, e, bad) == bad => \A k \in 1..Len(e.files) : HasIn(v, e.files[k]) \/ e.files[k] \o Suffix(e) \notin New(v, w, e, bad)
Step == /\ Kept(W, W', last', err') /\ Named(W, W', last', err') /\ Subset(W, W', last', err') /\ Joined(W, W', last', err') /\ Blanked(W, W', last', err')
        /\ Flagged(W, W', last', err') /\ NoTalk(W, W', last', err') /\ Failed(W, W', last', err')
Steps == [][Step]_vars
=============================================================================
