-------------------------------- MODULE UVSel -------------------------------
(* Laws of selection (UV.tla), checked over every record of a small world   *)
(* and every selection of up to MaxOps steps: no behaviour, one state per   *)
(* selection.                                                               *)
EXTENDS UV

CONSTANTS MaxOps

Recs == {[t |-> t, i |-> i, j |-> j, uu |-> i + 2 * j, vars |-> [pol |-> [v |-> "", num |-> p], bin |-> [v |-> "", num |-> i + 1], sfreq |-> [v |-> "", num |-> <<1 + t, 3>>],
             dazim |-> [v |-> "", num |-> <<j, i + t>>], axisrms |-> [v |-> "", num |-> <<0, 1, t, 2>>]]] :
           t \in 0..1, i \in 0..1, j \in 0..1, p \in {-5, -6}}
Terms == {<<"antennae", 0, 1>>, <<"antennae", -1, 1>>, <<"antennae", -1, -1>>, <<"auto", 0, 0>>,
          <<"time", 0, 0>>, <<"time", 1, 1>>, <<"polarization", -5, 0>>, <<"increment", 2, 0>>,
          <<"uvnrange", 1, 2>>, <<"visibility", 1, 2>>, <<"bin", 2, 3>>, <<"frequency", 2, 4>>, <<"uvrange", 2, 3>>,
          <<"dazim", 1, 2>>, <<"delev", 0, 9>>, <<"pointing", 1, 1>>}

Op(tm, inc) == [k |-> tm[1], a |-> tm[2], b |-> tm[3], inc |-> inc]

VARIABLE sel
Init == sel = <<>>
RECURSIVE NOps(_)
NOps(s) == IF s = <<>> THEN 0 ELSE 1 + Len(Head(s).ops) + NOps(Tail(s))
Next == /\ NOps(sel) < MaxOps
        /\ \/ \E tm \in Terms, inc \in {TRUE, FALSE} : sel' = ApplySel(sel, tm[1], tm[2], tm[3], inc)
           \/ \E c \in {"and", "or"} : sel # <<>> /\ sel' = ApplySel(sel, c, 0, 0, TRUE)
Spec == Init /\ [][Next]_sel

Set(s) == {x \in Recs \X (1..3) : Selected(s, x[1], x[2])}
World == Recs \X (1..3)
Of(tm, inc) == {x \in World : Matches(Op(tm, inc), x[1], x[2], 1) = inc}

(* An empty selection is everything. *)
NothingIsAll == Set(<<>>) = World
(* An empty last clause after "and" changes nothing; after "or" it selects all. *)
OpenClause == /\ sel # <<>> => Set(Append(sel, [and |-> TRUE, ops |-> <<>>])) = Set(sel)
              /\ sel # <<>> => Set(Append(sel, [and |-> FALSE, ops |-> <<>>])) = World
(* Clauses: "or" adds and "and" restricts, from left to right. *)
LastClause ==
  Len(sel) > 1 =>
    LET init == SubSeq(sel, 1, Len(sel) - 1)  last == sel[Len(sel)]
        alone == Set(<<[and |-> TRUE, ops |-> last.ops]>>)
    IN Set(sel) = IF last.and THEN Set(init) \cap alone ELSE Set(init) \cup alone
(* A term of a kind that the clause has not seen restricts it; one more of
   the same kind adds what it includes and takes away what it excludes. *)
OneMore ==
  \A tm \in Terms, inc \in {TRUE, FALSE} :
    LET s2 == ApplySel(sel, tm[1], tm[2], tm[3], inc) IN
    Len(s2) = 1 =>
      LET ops == IF sel = <<>> THEN <<>> ELSE sel[1].ops
          kd == Kind(tm[1])
          others == Set(<<[and |-> TRUE, ops |-> SelectSeq(ops, LAMBDA o : Kind(o.k) # kd)]>>)
          mine == SelectSeq(ops, LAMBDA o : Kind(o.k) = kd)
          m0 == Set(<<[and |-> TRUE, ops |-> mine]>>)
          hit == {x \in World : Matches(Op(tm, inc), x[1], x[2], 1)}
      IN Set(s2) = others \cap (IF mine = <<>> THEN (IF inc THEN hit ELSE World \ hit)
                                ELSE IF inc THEN m0 \cup hit ELSE m0 \ hit)
(* An antenna pair is the same in either order. *)
Unordered == \A a, b \in -1..1, x \in World, inc \in {TRUE, FALSE} :
               Matches(Op(<<"antennae", a, b>>, inc), x[1], x[2], 1) = Matches(Op(<<"antennae", b, a>>, inc), x[1], x[2], 1)
(* Amplitudes and windows choose channels, never records (but the frequency
   of a record is that of the first channel that is chosen); a range of
   amplitudes and its opposite flag complementary channels. *)
OfFreq(s) == \E c \in 1..Len(s) : HasOp(s[c], "frequency") \/ HasOp(s[c], "uvrange")
ChannelsOnly == \A inc \in {TRUE, FALSE}, k \in {"amplitude", "window"} :
                  (k = "window" /\ OfFreq(sel)) \/ Set(ApplySel(sel, k, 1, 2, inc)) = Set(sel)
Rec1 == [(CHOOSE r \in Recs : TRUE) EXCEPT !.vars = [nschan |-> [v |-> "", num |-> <<2, 1>>]] @@ @] @@
        [ch |-> << <<0, 1>>, <<2, 0>>, <<1, 1>> >>, fl |-> <<0, 0, 0>>]
OneAmp(inc) == <<[and |-> TRUE, ops |-> <<Op(<<"amplitude", 1, 1>>, inc)>>]>>
OneWin(w, inc) == [and |-> TRUE, ops |-> <<Op(<<"window", w, 0>>, inc)>>]
ASSUME /\ ChosenOf(OneAmp(TRUE), Rec1, 1).fl = <<0, 1, 1>> /\ ChosenOf(OneAmp(FALSE), Rec1, 1).fl = <<1, 0, 0>>
       /\ ChosenOf(<<OneWin(2, TRUE)>>, Rec1, 1).ch = << <<1, 1>> >> /\ ChosenOf(<<OneWin(1, TRUE)>>, Rec1, 1).ch = << <<0, 1>>, <<2, 0>> >>
       /\ BadWindows(<<OneWin(1, TRUE), OneWin(2, TRUE)>>) /\ BadWindows(<<OneWin(3, FALSE)>>) /\ ~BadWindows(<<OneWin(1, FALSE)>>)
Clearing == ApplySel(sel, "clear", 0, 0, TRUE) = <<>>
=============================================================================
