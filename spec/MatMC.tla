-------------------------------- MODULE MatMC -------------------------------
(***************************************************************************)
(* Implementation-shaped model of EqualsTo, PeaksAt and PeaksBelow: the     *)
(* reference signal that is rendered alongside, the channel-by-channel      *)
(* scan, and what it remembers of the place that failed. Every history of   *)
(* matching blocks, resetting, copying and moving within the bounds is      *)
(* judged by MatSpec and replayed in the real code.                         *)
(***************************************************************************)
EXTENDS MatSpec, MCUtil
CONSTANTS Depth, Wide, Bug
VARIABLES im, q, script

Den == 64
Im0 == [o |-> NoFun, n |-> 0, ops |-> 0, pc |-> "start"]
E(ev, t) == [ev |-> ev, t |-> t]
Commas(w) == Join([k \in DOMAIN w |-> S2(w[k])], ",")
Configs == << [kind |-> "eq", base |-> 3, a |-> 1, b |-> 2, gain |-> 0], [kind |-> "eq", base |-> -1, a |-> 4, b |-> 0, gain |-> 2],
              [kind |-> "at", base |-> 0, a |-> 0, b |-> 0, gain |-> 0], [kind |-> "below", base |-> 0, a |-> 0, b |-> 0, gain |-> 0] >>
\* tolerance 1/64, level 0 dB
\* object: c, pos (of the reference), fc, ff (remembered place), peak (remembered by one variant), live
Fresh(c) == [c |-> c, pos |-> 0, fc |-> 0, ff |-> 0, peak |-> 0, live |-> TRUE]
Expect(x, c, p) == (x.c.base + p * x.c.a + c * x.c.b) * (IF x.c.gain = 0 \/ Bug = "nochain" THEN 1 ELSE x.c.gain)
NotEqual(v, r) == IF v = NaNCode THEN Bug # "nanequal" ELSE IF ~ Finite(v) THEN TRUE ELSE IF Bug = "strict" THEN Abs(v - r) >= 1 ELSE Abs(v - r) > 1
Above(v) == IF v = NaNCode THEN Bug # "nanbelow" ELSE IF ~ Finite(v) THEN TRUE
            ELSE (IF Bug = "signed" THEN v ELSE Abs(v)) > Den + (IF Bug = "notol" THEN 0 ELSE 1)

\* scan of the places in order: sequence of <<c, f>>
Order(ch, n) == IF Bug = "framesfirst" THEN [k \in 1..(ch * n) |-> <<(k - 1) % ch, (k - 1) \div ch>>] ELSE [k \in 1..(ch * n) |-> <<(k - 1) \div n, (k - 1) % n>>]
RECURSIVE First(_, _, _)
First(ord, hits, k) == IF k > Len(ord) THEN 0 ELSE IF ord[k] \in hits THEN k ELSE First(ord, hits, k + 1)
\* index of the largest magnitude by the running maximum of match()
RECURSIVE Peaks(_, _, _, _, _)
Peaks(ord, val, k, best, at) ==
    IF k > Len(ord) THEN <<best, at>>
    ELSE LET v == val[ord[k]]  m == IF v = NaNCode THEN NaNCode ELSE IF Bug = "signedpeak" THEN v ELSE Abs(v)
             more == IF m = NaNCode THEN (best # NaNCode /\ Bug # "nanpeak") ELSE best # NaNCode /\ m > best
         IN  Peaks(ord, val, k + 1, IF more THEN m ELSE best, IF more \/ Bug = "lastplace" THEN ord[k] ELSE at)

Match(x, ch, n, data) ==                    \* [x, ans]
    LET val == [p \in (0..(ch - 1)) \X (0..(n - 1)) |-> data[p[1] * n + p[2] + 1]]
        ord == Order(ch, n)
    IN  CASE x.c.kind = "eq" ->
               LET hits == {p \in DOMAIN val : NotEqual(val[p], Expect(x, p[1], x.pos + p[2]))}
                   k == First(ord, hits, 1)
                   y == [x EXCEPT !.pos = IF Bug = "stopsearly" /\ k > 0 THEN @ + ord[k][2] + 1 ELSE IF Bug = "blockstart" THEN 0 ELSE @ + n]
               IN  IF k = 0 THEN [x |-> y, ans |-> TRUE] ELSE [x |-> [y EXCEPT !.fc = ord[k][1], !.ff = IF Bug = "absframe" THEN x.pos + ord[k][2] ELSE ord[k][2]], ans |-> FALSE]
          [] x.c.kind = "at" ->
               LET r == Peaks(ord, val, 1, IF Bug = "keepspeak" THEN x.peak ELSE 0, <<0, 0>>)
                   ok == Finite(r[1]) /\ Abs(r[1] - Den) <= 1
               IN  [x |-> [x EXCEPT !.fc = r[2][1], !.ff = r[2][2], !.peak = r[1]], ans |-> ok]
          [] OTHER ->
               LET k == First(ord, {p \in DOMAIN val : Above(val[p]) /\ (Bug # "firstchannel" \/ p[1] = 0)}, 1) IN
               IF k = 0 THEN [x |-> x, ans |-> TRUE] ELSE [x |-> [x EXCEPT !.fc = ord[k][1], !.ff = ord[k][2]], ans |-> FALSE]

---------------------------------------------------------------------------
NewOp(x, c) ==
    LET o == x.n + 1 IN
    [im |-> [x EXCEPT !.n = o, !.o = Put(@, o, Fresh(c))],
     evs |-> <<IF c.kind = "eq" THEN E([e |-> "mnew", o |-> o, kind |-> "eq", tn |-> 1, td |-> 64, base |-> c.base, a |-> c.a, b |-> c.b, gain |-> c.gain],
                                       "mnew o=" \o S2(o) \o " kind=eq tn=1 td=64 base=" \o S2(c.base) \o " a=" \o S2(c.a) \o " b=" \o S2(c.b) \o " gain=" \o S2(c.gain))
               ELSE E([e |-> "mnew", o |-> o, kind |-> c.kind, tn |-> 1, td |-> 64, db |-> 0], "mnew o=" \o S2(o) \o " kind=" \o c.kind \o " tn=1 td=64 db=0"),
               E([e |-> "mprep", o |-> o, rate |-> 48000, ch |-> 2, max |-> 8], "mprep o=" \o S2(o) \o " rate=48000 ch=2 max=8")>>]
ResetOp(x, o) == [im |-> [x EXCEPT !.o[o].pos = IF Bug = "noreset" THEN @ ELSE 0, !.o[o].peak = 0], evs |-> <<E([e |-> "mreset", o |-> o], "mreset o=" \o S2(o))>>]
CopyOp(x, o, how) ==
    LET t == x.n + 1  y == [x EXCEPT !.n = t, !.o = Put(@, t, [@[o] EXCEPT !.pos = IF Bug = "copyrewinds" /\ how = "copy" THEN 0 ELSE @])] IN
    [im |-> IF how = "move" THEN [y EXCEPT !.o[o].live = FALSE] ELSE y, evs |-> <<E([e |-> "mcopy", from |-> o, to |-> t, how |-> how], "mcopy from=" \o S2(o) \o " to=" \o S2(t) \o " how=" \o how)>>]
PerOp(x, o) == E([e |-> "mper", o |-> o, ans |-> (IF Bug = "perblock" THEN TRUE ELSE x.o[o].c.kind # "at")], "mper o=" \o S2(o))
MatchOp(x, o, ch, n, data) ==
    LET r == Match(x.o[o], ch, n, data)
        y == IF Bug = "sharedref" THEN [x EXCEPT !.o = [k \in DOMAIN @ |-> [@[k] EXCEPT !.pos = r.x.pos]]] ELSE x IN
    [im |-> [y EXCEPT !.o[o] = r.x],
     evs |-> <<E([e |-> "mmatch", o |-> o, ch |-> ch, n |-> n, den |-> Den, data |-> data, res |-> "ok", ans |-> r.ans, fc |-> IF r.ans THEN -1 ELSE r.x.fc, ff |-> IF r.ans THEN -1 ELSE r.x.ff, desc |-> "", nums |-> <<>>],
                 "mmatch o=" \o S2(o) \o " ch=" \o S2(ch) \o " n=" \o S2(n) \o " den=64 data=" \o Commas(data))>>]

Live(x) == {o \in DOMAIN x.o : x.o[o].live}
\* data around what decides, at the position the specification is at
Off(kind) == CASE kind = "eq" -> IF Wide THEN {0, 1, -2, NaNCode, InfCode} ELSE {0, 1, -2, NaNCode} [] OTHER -> IF Wide THEN {0, Den, -Den - 1, -Den - 2, NaNCode, -InfCode} ELSE {0, Den + 1, -Den - 2, NaNCode}
Datum(o, c, f, d) == LET x == s.m[o] IN IF x.kind = "eq" /\ Finite(d) THEN (x.base + (x.pos + f) * x.a + c * x.b) * x.gain + d ELSE d
Data(o, ch, n) == {[k \in 1..(ch * n) |-> Datum(o, (k - 1) \div n, (k - 1) % n, w[k])] : w \in [1..(ch * n) -> Off(s.m[o].kind)]}
ShapesAt(ops) == IF ops = Depth - 1 THEN {<<1, 1>>, <<1, 2>>, <<2, 2>>} ELSE {<<1, 2>>, <<2, 1>>}
OpsOf(x) == UNION {UNION {{MatchOp(x, o, sh[1], sh[2], d) : d \in Data(o, sh[1], sh[2])} : sh \in ShapesAt(x.ops)} \cup {ResetOp(x, o)}
                   \cup (IF x.n < 2 THEN {CopyOp(x, o, h) : h \in {"copy", "move"}} ELSE {}) : o \in Live(x)}
Good(o, ch, n) == [k \in 1..(ch * n) |-> Datum(o, (k - 1) \div n, (k - 1) % n, IF s.m[o].kind = "eq" THEN 0 ELSE IF k = 1 THEN Den ELSE 0)]
RECURSIVE ProbeAll(_, _)
ProbeAll(x, os) == IF os = {} THEN <<>> ELSE LET o == CHOOSE i \in os : \A j \in os : i <= j  a == MatchOp(x, o, 2, 2, Good(o, 2, 2)) IN a.evs \o <<PerOp(x, o)>> \o ProbeAll(a.im, os \ {o})

MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ s = S0 /\ bad = {}
Take(r, pc, ops) == im' = [r.im EXCEPT !.pc = pc, !.ops = ops] /\ q' = r.evs /\ UNCHANGED <<s, bad, script>>
Emit == /\ q # <<>> /\ q' = Tail(q) /\ im' = im
        /\ s' = Next1(q[1].ev) /\ bad' = bad \cup Fails(q[1].ev) /\ script' = Append(script, q[1].t)
        /\ (Len(q) = 1 /\ im.pc = "end" /\ Bug = "none") => PrintT("@@ " \o ToString(script'))
Choose ==
    /\ q = <<>>
    /\ CASE im.pc = "start" -> \E i \in DOMAIN Configs : Take(NewOp(Im0, Configs[i]), "go", 0)
         [] im.pc = "go" /\ im.ops < Depth -> \E r \in OpsOf(im) : Take(r, "go", im.ops + 1)
         [] im.pc = "go" -> Take([im |-> im, evs |-> ProbeAll(im, Live(im))], "end", im.ops)
         [] OTHER -> FALSE
MSpec == MInit /\ [][Emit \/ Choose]_<<s, bad, im, q, script>>
\* (the model writes no failure descriptions)
Sound == bad \subseteq {"C14:" \o k \o " describes the failure with the right values" : k \in {"eq", "at", "below"}}
=============================================================================
