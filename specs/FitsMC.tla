------------------------------- MODULE FitsMC -------------------------------
(* All histories of writing, reading and copying images and maps under two     *)
(* names, and the wrapping of all short texts.                                 *)
EXTENDS Fits
CONSTANTS Most, Long
VARIABLES W, n, last, ok
vars == <<W, n, last, ok>>
Names == {"x", "y"}
Key == [object |-> "o", epoch |-> "1"]
Kws == [ra : {64}, d_ra : {2, -2}, dec : {-64}, d_dec : {2}, freq : {64}, d_freq : {4}]
Shapes == { <<2, 3>>, <<2, 1, 3>>, <<3>> }
Vals(shape) == [k \in 1..Prod(shape) |-> k]
AxesOf == { <<"RA---SIN", "DEC--SIN">>, <<"FREQ", "RA">>, <<"STOKES">>, <<"GLON-CAR", "GLAT-CAR">> }
Texts == { << >>, << <<65, 66, 32, 67>> >> }
Write == [op : {"write"}, name : Names, shape : Shapes, axes : AxesOf, kw : Kws, clobber : BOOLEAN, text : Texts]
Maps == [op : {"map"}, name : Names, text : Texts, clobber : BOOLEAN]
Foreign == { [op |-> "foreign", name |-> x, file |-> [kind |-> "image", shape |-> <<2, 3>>, v |-> Vals(<<2, 3>>), tr |-> t, hist |-> << >>, key |-> Key, lim |-> << >>,
               ax |-> << [name |-> "RA", val |-> 5, step |-> 1, pix |-> 64], [name |-> ""] >>]] : x \in Names, t \in BOOLEAN }
Whole(f) == f.kind = "image" /\ ~f.tr /\ \A k \in 1..Len(f.ax) : f.ax[k].name # ""
Copies == { [op |-> "copy", name |-> p[1], to |-> p[2], shape |-> s, v |-> [Vals(s) EXCEPT ![1] = 9], kw |-> kw, text |-> t]
            : p \in { <<x, y>> \in Names \X Names : x # y /\ Has(W, x) /\ Whole(W[x]) }, s \in Shapes, t \in Texts,
              kw \in { [ra |-> 7, d_ra |-> 3], [dec |-> 9], [d_freq |-> 8, object |-> "p"] } }
Fits(e) == IF e.op # "copy" THEN TRUE ELSE Len(e.shape) = Len(W[e.name].shape)
Act(e) == LET f == IF e.op = "write" THEN e @@ [v |-> Vals(e.shape), key |-> Key] ELSE e
          IN W' = Do(W, f) /\ last' = f /\ ok' = ~Refused(W, f)
Init == W = W0 /\ n = 0 /\ last = [op |-> "none"] /\ ok = TRUE
Next == n < Most /\ n' = n + 1 /\ \E e \in Write \cup Maps \cup Foreign \cup Copies : Fits(e) /\ Act(e)
Spec == Init /\ [][Next]_vars
View == <<W, n>>
Pics == { x \in DOMAIN W : W[x].kind = "image" }
\* as many values as points, and an axis for each side
TypeOK == \A x \in Pics : Len(W[x].v) = Prod(W[x].shape) /\ Len(W[x].ax) = Len(W[x].shape)
\* the same image both ways round, whatever is read
Turned == \A x \in Pics : LET r == Read(W[x]) IN Len(r.v) = Prod(r.shape) /\ Range(r.v) = Range(W[x].v) /\ Transposed(r.shape, Transposed(Rev(r.shape), r.v)) = r.v
\* steps to the east are negative
East == \A x \in Pics : \A k \in 1..Len(W[x].ax) : (W[x].ax[k].name \in RA /\ last.op = "write" /\ n = 1) => W[x].ax[k].step <= 0
Steps == [][ LET t == IF last'.op = "copy" THEN last'.to ELSE last'.name IN
             /\ ~ok' => W' = W
             /\ \A x \in DOMAIN W \ {t} : Has(W', x) /\ W'[x] = W[x]
             /\ (ok' /\ last'.op = "write") =>
                   LET r == Read(W'[t]) IN r.shape = Squeeze(last'.shape) /\ r.v = last'.v /\ r.axes = last'.axes /\ r.key = last'.key
                                           /\ ("ra" \in DOMAIN r.num => r.num.ra = last'.kw.ra /\ r.num.d_ra = Negative(last'.kw.d_ra))
             /\ (Has(W, t) /\ last'.op = "write" /\ ~last'.clobber) => ~ok'
             /\ (last'.op = "copy") => LET r == Read(W'[t])  s == Read(W[last'.name]) IN r.v = last'.v /\ r.axes = s.axes /\ (\A k \in DOMAIN s.num : r.num[k] = Or(last'.kw, k, s.num[k])) ]_vars
\* wrapping: nothing is lost, no line is too long, and no line could take the next word
Strings == UNION { [1..k -> {32, 65, 66}] : k \in 0..Long }
Tight == \A s \in Strings : \A w \in {7, 9} : \A p \in { << >>, <<35>> } : \A i \in {0, 2} :
  LET ls == Wrap(s, w, i, 1, p) IN
    /\ Says(ls) = Ink(s)
    /\ \A k \in 1..Len(ls) : Len(ls[k]) < w /\ SubSeq(ls[k], 1, Len(p)) = p
    /\ \A k \in 1..Len(ls) - 1 : Len(ls[k]) + 1 + Len(Words(SubSeq(ls[k + 1], Len(p) + 1, Len(ls[k + 1])))[1]) >= w
Wraps == n = 0 => Tight
=============================================================================
