------------------------------- MODULE UVGen --------------------------------
(* Behaviours of UV.tla for replay into the code: a random walk (TLC        *)
(* -simulate) over enabled operations, printed as a list of operations.     *)
EXTENDS UV, Json, Randomization

CONSTANTS Len0, Kinds         \* operations per behaviour; their relative weights

VARIABLES S, ops, n, fresh
vars == <<S, ops, n, fresh>>

FileNames == {"a.uv", "b.uv", "c.uv", "d.uv", "e.uv"}
WNames == {"w1", "w2", "w3"}
RNames == {"r1", "r2", "r3"}
VNames == {"x", "y", "z", "pol"}

Pick(X) == RandomElement(X)

(* fresh[h] = hi: h was initialised from hi and neither was used since. *)
Init == S = Init0 /\ ops = <<>> /\ n = 0 /\ fresh = Empty

Hs(m) == {h \in DOMAIN S.hs : S.hs[h].mode = m}

Auto(t) == [coord |-> "c", time |-> ToString(t), baseline |-> "b", nchan |-> "i:3"]

RECURSIVE PipeAll(_, _, _, _)
PipeAll(s, h, hi, style) ==
  LET r0 == ReadNext(s, s.hs[hi])
      out(rec) == IF style = "drop" /\ rec.i = rec.j THEN [none |-> TRUE]
                  ELSE IF style = "const" THEN [none |-> FALSE, t |-> 4, i |-> 0, j |-> 1, uvw |-> "u", uu |-> 2,
                                                d |-> rec.d, f |-> rec.f, auto |-> Auto(4)]
                  ELSE [none |-> FALSE, t |-> rec.t, i |-> rec.i, j |-> rec.j, uvw |-> rec.uvw, uu |-> 0,
                        d |-> rec.d, f |-> rec.f, auto |-> Auto(rec.t)]
  IN IF r0.res.k # "rec" THEN Do(s, [op |-> "piped", h |-> h, hi |-> hi]).s
     ELSE PipeAll(Do(s, [op |-> "mfunc", h |-> h, hi |-> hi, sets |-> <<>>, out |-> out(r0.res)]).s, h, hi, style)

Usable(h) == ~S.hs[h].bad

(* Mostly from Y, where there is a choice. *)
Prefer(X, Y) == IF Y # {} /\ Pick(1..12) > 1 THEN Y ELSE X

(* One random operation, or [op |-> "skip"]. *)
Skip == [op |-> "skip"]
Cand(k) ==
  LET W == Hs("w")  Rd == Hs("r") IN
  CASE k = "new" ->
         LET free == WNames \ DOMAIN S.hs IN
         IF free = {} THEN Skip ELSE [op |-> "new", h |-> Pick(free),
                                         f |-> Pick(Prefer(FileNames, {f \in FileNames : f \notin DOMAIN S.files /\ ~Busy(S, f)}))]
    [] k = "append" ->
         LET free == WNames \ DOMAIN S.hs
             fs == {f \in DOMAIN S.files : ~Busy(S, f) /\ S.files[f].recs # <<>>
                                           /\ \A x \in DOMAIN S.hs : S.hs[x].file # f}
         IN IF free = {} \/ fs = {} THEN Skip ELSE [op |-> "append", h |-> Pick(free), f |-> Pick(fs)]
    [] k = "old" ->
         LET free == RNames \ DOMAIN S.hs
             fs == {f \in FileNames : ~Busy(S, f)}
         IN IF free = {} \/ fs = {} THEN Skip ELSE [op |-> "old", h |-> Pick(free), f |-> Pick(Prefer(fs, DOMAIN S.files \cap fs))]
    [] k = "close" ->
         LET c == {h \in DOMAIN S.hs : S.hs[h].mode = "r" \/ S.hs[h].new.recs # <<>>} IN
         IF c = {} THEN Skip ELSE [op |-> "close", h |-> Pick(c)]
    [] k = "addvar" ->
         IF W = {} THEN Skip ELSE Pick({[op |-> "addvar", h |-> h, n |-> Pick(Prefer(VNames, VNames \ S.hs[h].types))] : h \in W})
    [] k = "set" ->
         IF W = {} THEN Skip
         ELSE LET SetOf(hh) == Pick({[op |-> "set", h |-> h, n |-> v, x |-> IF v = "pol" THEN -5 - (x % 4) ELSE x] :
                     h \in {hh}, v \in Prefer(VNames, (S.hs[hh].types \cap VNames) \cup {"history"}), x \in 1..6})
              IN Pick({SetOf(h) : h \in W})
    [] k = "get" ->
         LET c == {h \in DOMAIN S.hs : S.hs[h].mode = "w" \/ (Usable(h) /\ S.hs[h].cur # 0)} IN
         IF c = {} THEN Skip ELSE [op |-> "get", h |-> Pick(c), n |-> Pick(VNames \cup {"history", "leakage"})]
    [] k = "items" -> IF DOMAIN S.hs = {} THEN Skip ELSE [op |-> Pick({"items", "vars"}), h |-> Pick(DOMAIN S.hs)]
    [] k = "write" ->
         IF DOMAIN S.hs = {} THEN Skip
         ELSE Pick({[op |-> "write", h |-> h, t |-> Pick({0, 1, 2, 16}), i |-> p[1], j |-> p[2], x |-> Pick(0..7)] :
                     h \in (Prefer(DOMAIN S.hs, W)),
                     p \in {q \in {0, 1, 2, 255, 300} \X {0, 1, 2, 255, 300} : q[1] <= q[2]}})
    [] k = "read" -> IF Rd = {} /\ (W = {} \/ Pick(1..12) > 1) THEN Skip
                     ELSE [op |-> "read", h |-> Pick(Prefer(DOMAIN S.hs, Rd))]
    [] k = "rewind" -> IF Rd = {} THEN Skip ELSE [op |-> "rewind", h |-> Pick(Rd)]
    [] k = "select" ->
         IF Rd = {} THEN Skip
         ELSE Pick({[op |-> "select", h |-> Pick(Rd), kd |-> kd, inc |-> Pick({TRUE, TRUE, FALSE}),
                  a |-> CASE kd = "antennae" -> Pick({-1, 0, 1, 2, 255, 300, 2500}) [] kd = "polarization" -> -5 - sm [] OTHER -> sm,
                  b |-> CASE kd = "antennae" -> Pick({-1, 0, 1, 2, 255, 300}) [] kd = "decimate" -> Pick(0..2) [] OTHER -> sm + Pick(-1..4)] :
                     kd \in {"antennae", "auto", "time", "tod", "visibility", "polarization", "uvnrange",
                             "increment", "decimate", "and", "or", "clear", "on", "unknown"},
                     sm \in {Pick(0..3)}})
    [] k = "initfrom" ->
         LET ws == {h \in W : S.hs[h].types \subseteq {"x"} /\ S.hs[h].new.recs = <<>> /\ h \notin DOMAIN fresh}
             rs == {h \in Rd : S.hs[h].pos = 0 /\ S.hs[h].cur = 1 /\ ~S.hs[h].eof /\ Usable(h)}
         IN IF ws = {} \/ rs = {} THEN Skip
            ELSE Pick({[op |-> "initfrom", h |-> h, hi |-> hi, excl |-> ex, over |-> ov \ ex] :
                      h \in ws, hi \in rs, ex \in {{}, {"x"}, {"history"}, {"y", "pol"}}, ov \in {{}, {"x"}, {"pol"}, {"z"}}})
    [] k = "pipe" ->
         LET ws == {h \in DOMAIN fresh : /\ h \in DOMAIN S.hs /\ fresh[h] \in DOMAIN S.hs
                                         /\ Needs(S.hs[fresh[h]].sel) = {} }
         IN IF ws = {} THEN Skip
            ELSE Pick({[op |-> "pipe", h |-> h, hi |-> fresh[h], style |-> st, raw |-> w] :
                     h \in ws, st \in {"same", "drop", "const"}, w \in {TRUE, FALSE}})
    [] OTHER -> Skip

Tok(x) == ToString(x)

(* The event of UV.tla that a candidate stands for. *)
Event(o) ==
  CASE o.op = "set" -> o @@ [v |-> Tok(o.x), num |-> o.x, bad |-> FALSE]
    [] o.op = "write" -> o @@ [none |-> FALSE, uvw |-> "u", uu |-> (o.i + o.x) * (o.i + o.x) + o.j * o.j,
                               d |-> Tok(o.x), f |-> Tok(o.x), auto |-> Auto(o.t)]
    [] o.op = "initfrom" -> [o EXCEPT !.over = [x \in o.over |-> [v |-> "33", num |-> 33]]]
    [] OTHER -> o

RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})

After(o) ==
  CASE o.op = "pipe" ->
         LET r == Do(S, o @@ [hist |-> " p"])
         IN IF r.res.k # "ok" THEN r.s ELSE PipeAll(r.s, o.h, o.hi, o.style)
    [] o.op = "initfrom" ->
         Do(S, [op |-> "initfrom", h |-> o.h, hi |-> o.hi, excl |-> SetSeq(o.excl),
                over |-> [x \in o.over |-> [v |-> "33", num |-> 33]]]).s
    [] OTHER -> Do(S, Event(o)).s

Touched(o) == IF o.op \in {"get", "items", "vars"} THEN {}
              ELSE {o.h} \cup (IF o.op = "pipe" THEN {o.hi} ELSE {})

Printable(o) == IF o.op = "initfrom" THEN [o EXCEPT !.excl = SetSeq(o.excl), !.over = SetSeq(o.over)] ELSE o

Next ==
  \/ /\ Len(ops) < Len0 /\ n < 6 * Len0
     /\ \E kk \in {Kinds[Pick(1..Len(Kinds))]} : \E o \in {Cand(kk)} :
        IF o.op = "skip" THEN n' = n + 1 /\ UNCHANGED <<S, ops, fresh>>
        ELSE /\ n' = n + 1
             /\ S' = After(o)
             /\ ops' = Append(ops, Printable(o))
             /\ fresh' = LET f1 == [h \in {h \in DOMAIN fresh : h \notin Touched(o) /\ fresh[h] \notin Touched(o)} |-> fresh[h]]
                         IN IF o.op = "initfrom" THEN Put(f1, o.h, o.hi) ELSE f1
  \/ /\ Len(ops) >= Len0 \/ n >= 6 * Len0
     /\ n < 1000000
     /\ PrintT("@@BEH " \o ToJson(ops))
     /\ n' = 1000000 /\ UNCHANGED <<S, ops, fresh>>

Spec == Init /\ [][Next]_vars

(* Weights. *)
Times(k, m) == [x \in 1..m |-> k]
KAll == Times("new", 3) \o Times("append", 1) \o Times("old", 4) \o Times("close", 3) \o Times("addvar", 4)
        \o Times("set", 7) \o Times("get", 3) \o Times("items", 1) \o Times("write", 9) \o Times("read", 9)
        \o Times("rewind", 2) \o Times("select", 4) \o Times("initfrom", 15) \o Times("pipe", 8)
KApp == Times("new", 3) \o Times("append", 14) \o Times("old", 3) \o Times("close", 9) \o Times("addvar", 5)
        \o Times("set", 9) \o Times("get", 2) \o Times("write", 9) \o Times("read", 8) \o Times("rewind", 1)
KSel == Times("new", 2) \o Times("old", 5) \o Times("close", 1) \o Times("addvar", 3) \o Times("set", 5)
        \o Times("write", 10) \o Times("read", 9) \o Times("rewind", 3) \o Times("select", 12)
KPipe == Times("new", 6) \o Times("old", 6) \o Times("close", 3) \o Times("addvar", 3) \o Times("set", 6)
         \o Times("get", 1) \o Times("write", 6) \o Times("read", 4) \o Times("select", 2)
         \o Times("initfrom", 40) \o Times("pipe", 60)
=============================================================================
