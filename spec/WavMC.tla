-------------------------------- MODULE WavMC -------------------------------
(***************************************************************************)
(* Implementation-shaped model of WavFile (Mode "play") and WavWriter       *)
(* (Mode "write"), judged by WavSpec and replayed in the real code.         *)
(* play: decoded frames that copies have in common, an offset of its own in *)
(* every object, the loop of renderNextBlock that wraps the offset.         *)
(* write: clipping, scaling to the codes of a format, interleaving; then    *)
(* the file is played.                                                      *)
(***************************************************************************)
EXTENDS WavSpec, MCUtil
CONSTANTS Mode, Depth, Wide, Bug
VARIABLES im, q, script

Rate == 8000
Im0 == [o |-> NoFun, n |-> 0, f |-> NoFun, ops |-> 0, pc |-> "start"]
E(ev, t) == [ev |-> ev, t |-> t]
Commas(w) == Join([k \in DOMAIN w |-> S2(w[k])], ",")

---------------------------------------------------------------------------
(* playing: file [ch, n, data: sequence of channels of codes]; object [name, loop, off, ch, live] *)
Unit == 64
RECURSIVE Frames(_, _, _, _)
\* frames of the file by the rendering loop: [off, fr] where fr is a sequence of frame numbers, -1 for silence
Frames(x, n, off, loop) ==
    IF n = 0 THEN [off |-> off, fr |-> <<>>]
    ELSE IF off >= x.n - (IF Bug = "losesend" /\ x.n > 1 THEN 1 ELSE 0)
         THEN IF loop /\ Bug = "losesend" THEN Frames(x, n, 0, loop) ELSE [off |-> IF Bug = "restarts" THEN 0 ELSE off, fr |-> [k \in 1..n |-> -1]]
         ELSE LET nxt == IF loop /\ Bug # "wrapblock" THEN (off + 1) % x.n ELSE off + 1
                  r == Frames(x, n - 1, nxt, loop) IN [off |-> r.off, fr |-> <<off>> \o r.fr]
Play(x, ob, n) ==
    LET start == IF Bug = "wrapblock" /\ ob.loop /\ ob.off >= x.n THEN 0 ELSE ob.off
        r == Frames(x, n, start, ob.loop) IN
    [off |-> r.off, out |-> [c \in 1..ob.ch |-> [k \in 1..n |-> IF r.fr[k] < 0 THEN 0 ELSE x.data[IF Bug = "lastchannels" THEN x.ch - ob.ch + c ELSE IF Bug = "firstonly" THEN 1 ELSE c][r.fr[k] + 1]]]]

FileOp(x, name, ch, n, seed) ==
    [im |-> [x EXCEPT !.f = Put(@, name, [ch |-> ch, n |-> n, unit |-> Unit, data |-> [c \in 1..ch |-> [f \in 1..n |-> Code(f - 1, c - 1, seed)]]])],
     evs |-> <<E([e |-> "wfile", name |-> name, ch |-> ch, n |-> n, rate |-> Rate, seed |-> seed, bits |-> -32],
                 "wfile name=" \o name \o " ch=" \o S2(ch) \o " n=" \o S2(n) \o " rate=8000 seed=" \o S2(seed) \o " bits=-32")>>]
OpenOp(x, name, loop) ==
    LET o == x.n + 1  l == IF loop THEN "yes" ELSE "no"  ok == name \in DOMAIN x.f IN
    [im |-> IF ok THEN [x EXCEPT !.n = o, !.o = Put(@, o, [name |-> name, loop |-> loop, off |-> 0, ch |-> 1, live |-> TRUE])] ELSE x,
     evs |-> <<E([e |-> "wnew", o |-> o, name |-> name, loop |-> l, rel |-> 0, res |-> IF ok THEN "ok" ELSE "IOError"], "wnew o=" \o S2(o) \o " name=" \o name \o " loop=" \o l \o " rel=0")>>]
PrepOp(x, o, rate, ch) ==
    LET ok == ch <= x.f[x.o[o].name].ch /\ rate = Rate
        acc == ok \/ (Bug = "anyrate" /\ ch <= x.f[x.o[o].name].ch) IN
    [im |-> CASE ok -> [x EXCEPT !.o[o].ch = ch, !.o[o].off = IF Bug = "preprewinds" THEN 0 ELSE @] [] Bug = "rejectrewinds" -> [x EXCEPT !.o[o].off = 0] [] OTHER -> x,
     evs |-> <<E([e |-> "sprep", o |-> o, rate |-> rate, ch |-> ch, max |-> 8, res |-> IF acc THEN "ok" ELSE IF ch > x.f[x.o[o].name].ch THEN "ChannelLayoutError" ELSE "UnsupportedError", sup |-> (ch <= x.f[x.o[o].name].ch)],
                 "sprep o=" \o S2(o) \o " rate=" \o S2(rate) \o " ch=" \o S2(ch) \o " max=8")>>]
RenderOp(x, o, n) ==
    LET ob == x.o[o]  fi == x.f[ob.name]  r == Play(fi, ob, n) IN
    [im |-> IF Bug = "sharedoffset" THEN [x EXCEPT !.o = [k \in DOMAIN @ |-> IF @[k].name = ob.name /\ @[k].loop = ob.loop THEN [@[k] EXCEPT !.off = r.off] ELSE @[k]]] ELSE [x EXCEPT !.o[o].off = r.off],
     evs |-> <<E([e |-> "wrender", o |-> o, ch |-> ob.ch, n |-> n, unit |-> fi.unit, res |-> "ok", on |-> n, out |-> r.out],
                 "wrender o=" \o S2(o) \o " ch=" \o S2(ob.ch) \o " n=" \o S2(n) \o " unit=" \o S2(fi.unit) \o (IF Mode = "write" THEN " q=1" ELSE ""))>>]
ResetOp(x, o) == [im |-> [x EXCEPT !.o[o].off = IF Bug = "resetend" /\ @ >= x.f[x.o[o].name].n THEN @ ELSE 0], evs |-> <<E([e |-> "sreset", o |-> o], "sreset o=" \o S2(o))>>]
CopyOp(x, o, how) ==
    LET t == x.n + 1  gone == how \in {"move", "mctor"}
        y == [x EXCEPT !.n = t, !.o = Put(@, t, [@[o] EXCEPT !.off = IF Bug = "copyrewinds" /\ ~ gone THEN 0 ELSE @, !.loop = IF Bug = "copyloop" /\ ~ gone THEN FALSE ELSE @])] IN
    [im |-> IF gone THEN [y EXCEPT !.o[o].live = FALSE] ELSE y, evs |-> <<E([e |-> "scopy", from |-> o, to |-> t, how |-> how], "scopy from=" \o S2(o) \o " to=" \o S2(t) \o " how=" \o how)>>]
Live(x) == {o \in DOMAIN x.o : x.o[o].live}
Then(a, b) == [im |-> b.im, evs |-> a.evs \o b.evs]
PlayStart(n, l1, l2) ==
    LET a == FileOp(Im0, "f0.wav", 2, n, 7)  b == OpenOp(a.im, "f0.wav", l1)  c == OpenOp(b.im, "f0.wav", l2)
        d == PrepOp(c.im, 1, Rate, 2)  e == PrepOp(d.im, 2, Rate, 1) IN Then(a, Then(b, Then(c, Then(d, e))))
PlayOps(x) == UNION {{RenderOp(x, o, n) : n \in IF Wide THEN {0, 1, 2, 4, 7} ELSE {1, 4}} \cup {ResetOp(x, o)}
                     \cup {PrepOp(x, o, p[1], p[2]) : p \in IF Wide THEN {<<Rate, 1>>, <<Rate, 2>>, <<Rate, 3>>, <<16000, 1>>} ELSE {<<Rate, 3>>, <<16000, 1>>}}
                     \cup (IF x.n < 3 THEN {CopyOp(x, o, h) : h \in {"copy", "move", "ctor", "mctor"}} ELSE {}) : o \in Live(x)}
              \cup (IF Wide THEN {OpenOp(x, "none.wav", FALSE)} ELSE {})
RECURSIVE PlayProbe(_, _)
PlayProbe(x, os) == IF os = {} THEN <<>> ELSE LET o == CHOOSE i \in os : \A j \in os : i <= j
                                                  a == RenderOp(x, o, 2)  b == RenderOp(a.im, o, 2)  c == ResetOp(b.im, o)  d == RenderOp(c.im, o, 5) IN
                    a.evs \o b.evs \o c.evs \o d.evs \o PlayProbe(d.im, os \ {o})

---------------------------------------------------------------------------
(* writing: data is n values per channel, in 1/64                          *)
Den == 64
Limit(v) == IF Bug = "wrap" THEN v ELSE Max2(-Den, Min2(Den, v))
\* nearest code (halves away from zero), truncated in one variant
CodeOf(fmt, v) ==
    LET w == Limit(v)  a == Abs(w)
        top == IF Bug = "twoscales" /\ w < 0 THEN Top(fmt) + 1 ELSE Top(fmt)
        k == CASE Bug = "wrap" /\ a > Den -> (2 * Den - a) * 8
               [] fmt = "pcm32" -> IF a = Den THEN 2147483647 ELSE a * 33554432 - (IF a > 32 THEN 1 ELSE 0)
               [] Bug = "trunc" -> (a * top) \div Den
               [] OTHER -> (a * top + Den \div 2) \div Den
    IN  IF w < 0 THEN -k ELSE k
Stored(fmt, v) == IF fmt = "float32" THEN (IF Bug = "clipfloat" THEN Max2(-Den, Min2(Den, v)) ELSE v) ELSE CodeOf(fmt, v)
WriteOp(x, name, fmt, ch, n, data) ==
    LET at(c, f) == data[IF Bug = "planar" /\ ch * n > 0 THEN (((f - 1) * ch + (c - 1)) % (ch * n)) + 1 ELSE IF Bug = "firstchannel" THEN f ELSE (c - 1) * n + f]
        m == IF Bug = "losesframe" /\ n > 1 THEN n - 1 ELSE n
        codes == [c \in 1..ch |-> [f \in 1..m |-> Stored(fmt, at(c, f))]]
        unit == CASE fmt = "pcm16" -> 32768 [] fmt = "float32" -> Den [] OTHER -> 8388608
        back == [c \in 1..ch |-> [f \in 1..m |-> IF fmt = "pcm32" THEN (IF codes[c][f] >= 0 THEN codes[c][f] \div 256 ELSE -((-codes[c][f]) \div 256)) ELSE codes[c][f]]]
    IN  [im |-> [x EXCEPT !.f = Put(@, name, [ch |-> ch, n |-> m, unit |-> unit, data |-> back])],
         evs |-> <<E([e |-> "wwrite", name |-> name, fmt |-> fmt, ch |-> ch, n |-> n, rate |-> Rate, data |-> data, den |-> Den, res |-> "ok", ok |-> TRUE,
                      wf |-> WFormat(fmt), wbits |-> IF Bug = "bits" /\ fmt = "dflt" THEN 16 ELSE WBits(fmt), wch |-> ch, wn |-> m, wrate |-> Rate, sizes |-> TRUE, codes |-> codes],
                     "wwrite name=" \o name \o " fmt=" \o fmt \o " ch=" \o S2(ch) \o " n=" \o S2(n) \o " rate=8000 data=" \o (IF data = <<>> THEN "empty" ELSE Commas(data)) \o " den=64")>>]
Levels == IF Wide THEN {-200, -64, -33, 0, 1, 63, 64, 65} ELSE {-65, -64, 0, 1, 64}
Shapes == {<<1, 0>>, <<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}
WriteStart(fmt, sh, data) ==
    LET a == WriteOp(Im0, "w.wav", fmt, sh[1], sh[2], data) IN
    IF sh[2] = 0 THEN a
    ELSE LET b == OpenOp(a.im, "w.wav", FALSE)  c == PrepOp(b.im, 1, Rate, sh[1])  d == RenderOp(c.im, 1, sh[2] + 1) IN Then(a, Then(b, Then(c, d)))

---------------------------------------------------------------------------
MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ s = S0 /\ bad = {}
Take(r, pc, ops) == im' = [r.im EXCEPT !.pc = pc, !.ops = ops] /\ q' = r.evs /\ UNCHANGED <<s, bad, script>>
Emit == /\ q # <<>> /\ q' = Tail(q) /\ im' = im
        /\ s' = Next1(q[1].ev) /\ bad' = bad \cup Fails(q[1].ev) /\ script' = Append(script, q[1].t)
        /\ (Len(q) = 1 /\ im.pc = "end" /\ Bug = "none") => PrintT("@@ " \o ToString(script'))
Choose ==
    /\ q = <<>>
    /\ CASE im.pc = "start" /\ Mode = "play" -> \E n \in {1, 3}, l1, l2 \in BOOLEAN : Take(PlayStart(n, l1, l2), "go", 0)
         [] im.pc = "start" -> \E fmt \in {"pcm16", "pcm24", "pcm32", "float32", "dflt"}, sh \in Shapes : \E data \in [1..(sh[1] * sh[2]) -> Levels] : Take(WriteStart(fmt, sh, data), "end", 0)
         [] im.pc = "go" /\ im.ops < Depth -> \E r \in PlayOps(im) : Take(r, "go", im.ops + 1)
         [] im.pc = "go" -> Take([im |-> im, evs |-> PlayProbe(im, Live(im))], "end", im.ops)
         [] OTHER -> FALSE
MSpec == MInit /\ [][Emit \/ Choose]_<<s, bad, im, q, script>>
Sound == bad = {}
=============================================================================
