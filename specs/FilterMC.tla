------------------------------ MODULE FilterMC ------------------------------
(* The filter of filter_src.py on all small data: what it takes and leaves,   *)
(* and that runs of the specification accept what is due and refuse it with    *)
(* one thing wrong.                                                           *)
EXTENDS Filter
CONSTANTS Chs, Times1, Most1, Vals, Widths, RateWidths
SomeVals == {<<0, 0>>, <<3, -1>>}
SomeRates == {-1, 1, 2}
MoreRates == {-1, 1, 2, 3}
VARIABLES rows, dw, drw, W, e
vars == <<rows, dw, drw, W, e>>

Scale(v) == <<v[1] * 64, v[2] * 64>>
Rows(n, nt) == [1..nt -> [1..n -> Vals]]
Up64(x) == [t \in 1..Len(x) |-> [c \in 1..Len(x[1]) |-> Scale(x[t][c])]]
All == UNION { Rows(x[1], x[2]) : x \in { x \in Chs \X Times1 : x[1] * x[2] <= Most1 } }
\* phases of a source that turn by a quarter with every channel and time
Pow(x) == CASE x % 4 = 0 -> <<8192, 0>> [] x % 4 = 1 -> <<0, 8192>> [] x % 4 = 2 -> <<-8192, 0>> [] OTHER -> <<0, -8192>>
Tab(n, nt) == [k \in 1..nt |-> [k |-> <<k, -5, 0, 1>>, down |-> FALSE, to |-> [c \in 1..n |-> Pow(c + k)], un |-> [c \in 1..n |-> Pow(-c - k)]]]
Set(x) == [nchan |-> Len(x[1]), nschan |-> Len(x[1]), sdf |-> 1, sfreq |-> 1, hist |-> <<"made">>, bp |-> << >>,
           recs |-> [k \in 1..(2 * Len(x)) |-> LET t == (k + 1) \div 2 IN
              [t |-> t, i |-> 0, j |-> 1, p |-> IF k % 2 = 1 THEN -5 ELSE -6, u |-> <<0, 0, 0>>, g |-> t, d |-> x[t], f |-> [c \in 1..Len(x[1]) |-> 0]]]]
Ev(x, w, rw, s, ext) == [op |-> "run", sc |-> "filter_src", files |-> <<"a">>, rc |-> 0, tab |-> Tab(Len(x[1]), Len(x)),
                         o |-> [src |-> s, pols |-> <<-5>>, dw |-> w, drw |-> rw, pb |-> FALSE, extract |-> ext, cl |-> FALSE]]
Ran(w, ev) == LET t == Turn(w, ev, 1, << >>)
                  new == [n \in { Into(ev, t.todo[k]) : k \in 1..Len(t.todo) } |->
                            [FilteredBy(w.dir[t.todo[CHOOSE k \in 1..Len(t.todo) : Into(ev, t.todo[k]) = n]], ev) EXCEPT !.hist = Append(@, "more")]]
              IN [ev EXCEPT !.rc = IF t.err THEN 1 ELSE 0] @@ [dir |-> new @@ w.dir]

Init == /\ rows \in All /\ dw \in Widths /\ drw \in RateWidths
        /\ W = [F0 EXCEPT !.dir = ("a" :> Set(rows))] /\ e = [op |-> "make"]
Next == /\ Cardinality(DOMAIN W.dir) < 4
        /\ \E s \in {"", "s"}, ext \in BOOLEAN :
             LET r == Ran(W, Ev(rows, dw, drw, s, ext)) IN e' = r /\ W' = FDo(W, r)
        /\ UNCHANGED <<rows, dw, drw>>
Spec == Init /\ [][Next]_vars
View == <<rows, dw, drw, W>>

X == Up64(rows)
F == Smooth(X, dw, drw)
N == Len(rows[1])
NT == Len(rows)
CloseRows(a, b, tol) == \A t \in 1..Len(a) : \A c \in 1..Len(a[1]) : Near(a[t][c], b[t][c], tol)
Fresh == e.op = "make"
\* filtering in delay takes nothing away twice, and what it takes and what is left do not overlap
Twice == Fresh => LET p == Smooth(X, dw, -1) IN
           /\ CloseRows(Smooth(p, dw, -1), p, 2)
           /\ CloseRows(Smooth([t \in 1..NT |-> [c \in 1..N |-> Sub(X[t][c], p[t][c])]], dw, -1), [t \in 1..NT |-> [c \in 1..N |-> Zero]], 2)
\* wide filters take everything, those of no width nothing
Ends == Fresh => /\ Smooth(X, N, -1) = X
                 /\ CloseRows(Smooth(X, 0, drw), [t \in 1..NT |-> [c \in 1..N |-> Zero]], 0)
                 /\ Smooth(X, N, NT + 2 * PadLen(NT)) = X
\* what is the same at all times and in all channels is taken whole
Constant == Fresh => LET one == [t \in 1..NT |-> [c \in 1..N |-> X[1][1]]] IN (dw > 0) => CloseRows(Smooth(one, dw, drw), one, 2)
\* what alternates between channels is left, unless the filter takes all
Alternating == Fresh => LET one == [t \in 1..NT |-> [c \in 1..N |-> Times(X[1][1], IF c % 2 = 0 THEN 1 ELSE -1)]]
                        IN (N % 2 = 0 /\ 2 * dw < N) => CloseRows(Smooth(one, dw, drw), [t \in 1..NT |-> [c \in 1..N |-> Zero]], 2)
\* times that are turned about give the result turned about
Mirrored == Fresh => CloseRows(Smooth(Reverse(X), dw, drw), Reverse(F), 3)
\* what is extracted and what is left are all there was
Parts == (~Fresh /\ {"a.e_s", "a.f_s"} \subseteq DOMAIN W.dir) =>
           \A k \in 1..Len(W.dir["a"].recs) : LET r == Up(W.dir["a"].recs[k]) IN
             Asked([pols |-> <<-5>>], r) => \A c \in 1..N : Add(W.dir["a.e_s"].recs[k].d[c], W.dir["a.f_s"].recs[k].d[c]) = r.d[c]
Others == (~Fresh) => \A n \in DOMAIN W.dir \ {"a"} : \A k \in 1..Len(W.dir["a"].recs) : W.dir["a"].recs[k].p = -6 =>
             W.dir[n].recs[k] = Up(W.dir["a"].recs[k])
\* one step: the run that is due is accepted and the same with one thing wrong is not
Wrong(r, new) ==
  { [r EXCEPT !.rc = 1 - r.rc], [r EXCEPT !.dir = [n \in DOMAIN r.dir \ new |-> r.dir[n]]], [r EXCEPT !.dir["a"].hist = << >>] }
  \cup UNION { { [r EXCEPT !.dir[n].recs = Tail(@)], [r EXCEPT !.dir[n].hist = <<"more">>], [r EXCEPT !.dir[n].sfreq = 2], [r EXCEPT !.dir[n].recs[1].t = 9],
                 [r EXCEPT !.dir[n].recs[1].f[1] = 1], [r EXCEPT !.dir[n].recs[2].d[N] = Add(@, <<0, 4>>)],
                 [r EXCEPT !.dir[n].recs[1].p = -6] }
               \cup (IF Exact(W.dir["a"], r) THEN { [r EXCEPT !.dir[n].recs[k].d[c] = Add(@, <<30, 0>>)] : k \in {1, 2 * NT - 1}, c \in {1, N} } ELSE {}) : n \in new }
Judged == LET new == DOMAIN W'.dir \ DOMAIN W.dir IN
            /\ FClause(W, e') = ""
            /\ \A x \in Wrong(e', new) : (x # e' /\ (new # {} \/ x.rc # e'.rc \/ x.dir # e'.dir)) => FClause(W, x) # ""
            /\ \A n \in DOMAIN W.dir : W'.dir[n] = W.dir[n]
Steps == [][Judged]_vars
=============================================================================
