-------------------------------- MODULE GenMC -------------------------------
(***************************************************************************)
(* Implementation-shaped model of SineWave, SineSweep, WhiteNoise and       *)
(* Silence: a phase that is advanced frame by frame, the position and       *)
(* direction of a sweep, the "now silent" flag, the state of a random       *)
(* engine. Every history of rendering in blocks, resetting, preparing       *)
(* again, copying and moving within the bounds is judged by GenSpec (which  *)
(* knows only frame numbers) and replayed in the real code.                 *)
(***************************************************************************)
EXTENDS GenSpec, MCUtil
CONSTANTS Depth, Sizes, Bug
VARIABLES im, q, script

Cfg(kind) == [kind |-> kind, fn |-> 1, fd |-> 1, pn |-> 0, pd |-> 1, dn |-> 3, dd |-> 8, f0 |-> 1, f1 |-> 2, type |-> "linear", loop |-> 0, seed |-> 5]
Configs == << [Cfg("sine") EXCEPT !.pn = 1, !.pd = 8],
              Cfg("sweep"), [Cfg("sweep") EXCEPT !.loop = 1], [Cfg("sweep") EXCEPT !.loop = 1, !.type = "log", !.f0 = 2, !.f1 = 1, !.pn = 1, !.pd = 4],
              [Cfg("sweep") EXCEPT !.dn = 0, !.dd = 1], [Cfg("sweep") EXCEPT !.dn = 1, !.loop = 1, !.f1 = 1],
              Cfg("noise"), Cfg("silence") >>
Rate == 8
Im0 == [o |-> NoFun, n |-> 0, ch |-> 1, ops |-> 0, pc |-> "start"]

\* object: c (configuration), ph (phase in 2^-30 turns), pos, rev, silent, len (frames of a pass), idx (values drawn from the engine), live
Fresh(c) == [c |-> c, ph |-> Phase0(c), pos |-> 0, rev |-> FALSE, silent |-> c.kind = "sweep" /\ c.dn = 0, len |-> 0, idx |-> 0, live |-> TRUE]
Val(x) == Sin6(x.ph \div 64)
SineStep(x) == [x EXCEPT !.ph = (@ + MulDiv(Two30, x.c.fn, x.c.fd * Rate)) % Two30]
SweepStep(x) ==
    LET p == x.pos + 1
        len == IF Bug = "toolong" THEN x.len + 1 ELSE x.len
    IN  IF p = len /\ x.c.loop = 0 THEN [x EXCEPT !.pos = 0, !.silent = Bug # "restarts"]
        ELSE LET pos == IF p = len THEN 0 ELSE p
                 rev == IF p = len /\ Bug # "sawtooth" THEN ~ x.rev ELSE x.rev
             IN  [x EXCEPT !.pos = pos, !.rev = rev, !.ph = (@ + Inc(x.c, Rate, pos, rev)) % Two30]
Step1(x, ch) ==
    CASE x.c.kind = "sine" -> SineStep(x)
      [] x.c.kind = "sweep" /\ ~ x.silent /\ x.len > 0 -> SweepStep(x)
      [] x.c.kind = "noise" -> [x EXCEPT !.idx = @ + ch]
      [] OTHER -> x
V1(x) == CASE x.c.kind = "sine" -> Val(x) [] x.c.kind = "sweep" /\ ~ x.silent /\ x.len > 0 -> Val(x)
           [] x.c.kind = "noise" -> ((x.c.seed * 7919 + x.idx * 104729) % 2000001) - 1000000 [] OTHER -> 0
\* digest of a frame
H1(x, ch) == IF x.c.kind = "noise" THEN (x.c.seed * 7919 + x.idx * 104729 + ch * 31) % 16777213 ELSE (V1(x) + 1000003) * 3 + ch
RECURSIVE Frames(_, _, _, _)
Frames(x, ch, n, acc) == IF n = 0 THEN [x |-> x, vals |-> acc.vals, h |-> acc.h]
    ELSE Frames(Step1(x, ch), ch, n - 1, [vals |-> Append(acc.vals, V1(x)), h |-> Append(acc.h, H1(x, ch))])
Render(x, ch, n) ==
    LET y == CASE Bug = "blockseed" -> [x EXCEPT !.idx = 0] [] Bug = "blockphase" -> [x EXCEPT !.ph = Phase0(x.c)] [] OTHER -> x
        r == Frames(y, ch, n, [vals |-> <<>>, h |-> <<>>])
    IN  CASE Bug = "tailonly" /\ ~ x.silent /\ r.x.silent -> [r EXCEPT !.x.silent = FALSE]                 \* the rest of the block is silent, the next one is not
          [] Bug = "planar" /\ x.c.kind = "noise" -> [r EXCEPT !.h = [f \in 1..n |-> (x.c.seed * 7919 + (x.idx + (f - 1)) * 104729 + n * (ch - 1)) % 16777213]]
          [] OTHER -> r
Reset(x) ==
    LET y == [x EXCEPT !.pos = 0, !.rev = IF Bug = "resetrev" THEN @ ELSE FALSE, !.ph = IF Bug = "resetphase" THEN @ ELSE Phase0(x.c),
                       !.silent = IF Bug = "resetsilent" THEN @ ELSE x.c.kind = "sweep" /\ x.c.dn = 0, !.idx = IF Bug = "resetnoise" THEN @ ELSE 0]
    IN  IF Bug = "resetpos" THEN [y EXCEPT !.pos = x.pos] ELSE y
Prepare(x) == [x EXCEPT !.len = SweepLen(x.c, Rate), !.ph = IF Bug = "preprewinds" THEN Phase0(x.c) ELSE @]

---------------------------------------------------------------------------
E(ev, t) == [ev |-> ev, t |-> t]
NewTxt(o, c) ==
    "gnew o=" \o S2(o) \o " kind=" \o c.kind \o
    (CASE c.kind = "sine" -> " fn=1 fd=1 form=full pn=" \o S2(c.pn) \o " pd=" \o S2(c.pd)
       [] c.kind = "sweep" -> " form=full dn=" \o S2(c.dn) \o " dd=" \o S2(c.dd) \o " f0=" \o S2(c.f0) \o " f1=" \o S2(c.f1) \o " type=" \o c.type \o " loop=" \o S2(c.loop) \o " pn=" \o S2(c.pn) \o " pd=" \o S2(c.pd)
       [] c.kind = "noise" -> " seed=5" [] OTHER -> "")
NewEv(o, c) == LET b == [e |-> "gnew", o |-> o, kind |-> c.kind, res |-> "ok"] IN
    CASE c.kind = "sine" -> b @@ [fn |-> c.fn, fd |-> c.fd, pn |-> c.pn, pd |-> c.pd]
      [] c.kind = "sweep" -> b @@ [k \in {"dn", "dd", "f0", "f1", "type", "loop", "pn", "pd"} |-> c[k]]
      [] c.kind = "noise" -> b @@ [seed |-> c.seed] [] OTHER -> b
NewOp(x, c) == LET o == x.n + 1 IN [im |-> [x EXCEPT !.n = o, !.o = Put(@, o, Fresh(c))], evs |-> <<E(NewEv(o, c), NewTxt(o, c))>>]
PrepOp(x, o) == [im |-> [x EXCEPT !.o[o] = Prepare(@)], evs |-> <<E([e |-> "sprep", o |-> o, rate |-> Rate, ch |-> x.ch, max |-> 4, res |-> "ok", sup |-> TRUE], "sprep o=" \o S2(o) \o " rate=8 ch=" \o S2(x.ch) \o " max=4")>>]
ResetOp(x, o) == [im |-> [x EXCEPT !.o[o] = Reset(@)], evs |-> <<E([e |-> "sreset", o |-> o], "sreset o=" \o S2(o))>>]
RenderOp(x, o, n) == LET r == Render(x.o[o], x.ch, n) IN
    [im |-> [x EXCEPT !.o[o] = r.x],
     evs |-> <<E([e |-> "srender", o |-> o, ch |-> x.ch, n |-> n, res |-> "ok", on |-> n, same |-> (x.o[o].c.kind # "noise" \/ x.ch = 1), unit |-> TRUE, h |-> r.h, vals |-> r.vals],
                 "srender o=" \o S2(o) \o " ch=" \o S2(x.ch) \o " n=" \o S2(n))>>]
CopyOp(x, o, how) == LET t == x.n + 1  gone == how \in {"move", "mctor"}
                         y == [x EXCEPT !.n = t, !.o = Put(@, t, CASE Bug = "copyrestarts" /\ ~ gone -> Reset(x.o[o]) [] Bug = "copynoprep" /\ ~ gone -> [x.o[o] EXCEPT !.len = 0] [] Bug = "sharedengine" /\ ~ gone -> [x.o[o] EXCEPT !.idx = @ + x.ch] [] OTHER -> x.o[o])] IN
    [im |-> IF gone THEN [y EXCEPT !.o[o].live = FALSE] ELSE y, evs |-> <<E([e |-> "scopy", from |-> o, to |-> t, how |-> how], "scopy from=" \o S2(o) \o " to=" \o S2(t) \o " how=" \o how)>>]

Live(x) == {o \in DOMAIN x.o : x.o[o].live}
OpsOf(x) == UNION {{RenderOp(x, o, n) : n \in Sizes} \cup {ResetOp(x, o), PrepOp(x, o)} \cup (IF x.n < 2 THEN {CopyOp(x, o, h) : h \in {"copy", "move", "ctor"}} ELSE {}) : o \in Live(x)}
Start0(c, ch) == LET a == NewOp([Im0 EXCEPT !.ch = ch], c)  b == PrepOp(a.im, 1)  r == ResetOp(b.im, 1) IN [im |-> r.im, evs |-> a.evs \o b.evs \o r.evs]
RECURSIVE Times(_, _, _, _)
Times(x, o, n, k) == IF k = 0 THEN [im |-> x, evs |-> <<>>] ELSE LET a == RenderOp(x, o, n)  b == Times(a.im, o, n, k - 1) IN [im |-> b.im, evs |-> a.evs \o b.evs]
RECURSIVE ProbeAll(_, _)
ProbeAll(x, os) ==
    IF os = {} THEN <<>>
    ELSE LET o == CHOOSE i \in os : \A j \in os : i <= j
             a == RenderOp(x, o, 2)  b == RenderOp(a.im, o, 2)  c == ResetOp(b.im, o)
             d == IF Cardinality(Sizes) > 1 THEN RenderOp(c.im, o, 8) ELSE Times(c.im, o, CHOOSE n \in Sizes : TRUE, 4)
         IN  a.evs \o b.evs \o c.evs \o d.evs \o ProbeAll(d.im, os \ {o})

MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ s = S0 /\ bad = {}
Take(r, pc, ops) == im' = [r.im EXCEPT !.pc = pc, !.ops = ops] /\ q' = r.evs /\ UNCHANGED <<s, bad, script>>
Emit == /\ q # <<>> /\ q' = Tail(q) /\ im' = im
        /\ s' = Next1(q[1].ev) /\ bad' = bad \cup Fails(q[1].ev) /\ script' = Append(script, q[1].t)
        /\ (Len(q) = 1 /\ im.pc = "end" /\ Bug = "none") => PrintT("@@ " \o ToString(script'))
Choose ==
    /\ q = <<>>
    /\ CASE im.pc = "start" -> \E i \in DOMAIN Configs, ch \in {1, 2} : Take(Start0(Configs[i], ch), "go", 0)
         [] im.pc = "go" /\ im.ops < Depth -> \E r \in OpsOf(im) : Take(r, "go", im.ops + 1)
         [] im.pc = "go" -> Take([im |-> im, evs |-> ProbeAll(im, Live(im))], "end", im.ops)
         [] OTHER -> FALSE
MSpec == MInit /\ [][Emit \/ Choose]_<<s, bad, im, q, script>>
Sound == bad = {}
=============================================================================
