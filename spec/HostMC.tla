-------------------------------- MODULE HostMC ------------------------------
(***************************************************************************)
(* Implementation-shaped model of AudioTestBuilder: the builder calls, the *)
(* block loop of process() with its two groups of checks, the assert that   *)
(* is kept until the files are written, and the reports. Every behaviour    *)
(* within the bounds is fed, callback by callback, to HostSpec and printed   *)
(* as a script for the real code. Mode selects the dimension that is        *)
(* enumerated in full; Size and Depth bound it.                             *)
(***************************************************************************)
EXTENDS HostSpec, MCUtil
CONSTANTS Mode, Size, Depth, Bug
VARIABLES im, q, script

---------------------------------------------------------------------------
(* Builder state of the implementation.                                    *)
H0 == [sr4 |-> 4 * 44100, block |-> 1024, inch |-> 1, outch |-> 1, durn |-> 1, durd |-> 10, label |-> "", vals |-> <<>>, input |-> FALSE,
       checks |-> <<>>, save |-> [path |-> "", mode |-> "never"], plot |-> [path |-> "", mode |-> "never"]]
D0 == [uid |-> 1, oid |-> 1, mul |-> 1, add |-> 0, drift |-> 0, pos |-> 0, env |-> FALSE, epos |-> 0]
Im0 == [pc |-> "def", h |-> H0, dsp |-> D0, sig |-> [uid |-> 2, oid |-> 2, pos |-> 0], fx |-> <<>>, usig |-> [uid |-> 2, oid |-> 2, pos |-> 0], ufx |-> <<>>, udsp |-> D0, slot |-> 1, run |-> 0, cfg |-> <<>>, adv |-> 0, caps |-> [d |-> "ok", s |-> "ok", f |-> "ok"],
        how |-> "uptr", left |-> 0, off |-> 0, n |-> 0, in |-> <<>>, out |-> <<>>, st |-> <<>>, pend |-> <<>>, msgs |-> <<>>, failed |-> FALSE, res |-> "ok", files |-> <<>>, last |-> <<>>]

\* capability answers; "rate" rejects every sample rate the test uses, "layout" its channels
AskRate(kind, o, cap, r) == [e |-> "ask", oid |-> o.oid, uid |-> o.uid, k |-> kind, what |-> "rate", i |-> 0, o |-> 0, sr4 |-> r, ans |-> cap # "rate" /\ r # 12]
AskLay(kind, o, cap, i, oc) == [e |-> "ask", oid |-> o.oid, uid |-> o.uid, k |-> kind, what |-> "layout", i |-> i, o |-> oc, sr4 |-> 0, ans |-> cap # "layout"]
Caps(cap, kind) == IF cap = "rate" THEN " rates=400" ELSE IF cap = "layout" THEN (IF kind = "sig" THEN " chans=0" ELSE " layouts=9:9")
                   ELSE IF Mode \in {"config", "life"} THEN " rates=4,8" ELSE ""

Say(x, t) == script' = script \o t /\ im' = x
Ev(evs) == q' = evs

Oid(k) == 1000 * im.run + 100 + k                              \* objects made for a run
HostDsp == IF im.how = "uptr" THEN im.dsp ELSE [im.dsp EXCEPT !.oid = Oid(1)]
HostSig == [im.sig EXCEPT !.oid = Oid(2)]
HostFx(k) == [im.fx[k] EXCEPT !.oid = Oid(2 + k)]

---------------------------------------------------------------------------
(* Configuring: what is chosen in which mode.                              *)
Hows == IF Mode \in {"life", "rerun"} THEN {"uptr", "copy", "move"} ELSE {"uptr"}
FxCounts == CASE Mode = "stream" -> 0..2 [] Mode = "life" -> 0..1 [] Mode = "rerun" -> {1} [] OTHER -> {0}
CapSet == IF Mode = "life" THEN {"ok", "rate", "layout"} ELSE {"ok"}
CheckSets(n) == LET fails == CASE Mode = "checks" -> SUBSET (0..(n - 1)) [] Mode = "report" -> {{f} : f \in 0..(n - 1)} [] Mode \in {"save", "rerun"} -> {{}, {n - 1}} [] OTHER -> {{}} IN
    {[lvl |-> l, pol |-> p, pb |-> b, fail |-> f, fch |-> ch] : l \in (IF Mode \in {"checks", "save", "report"} THEN {"expect", "assert"} ELSE {"expect"}),
        p \in (IF Mode \in {"checks", "save"} THEN BOOLEAN ELSE {TRUE}), b \in BOOLEAN, f \in fails, ch \in (IF Mode = "report" THEN 0..1 ELSE {0})}
NChecks == CASE Mode = "checks" -> 0..Depth [] Mode = "save" -> 1..Depth [] Mode \in {"report", "stream", "rerun"} -> {1} [] OTHER -> {0}

Def == /\ im.pc = "def"
       /\ \E d \in CapSet, sg \in CapSet, f \in CapSet, nf \in FxCounts, how \in Hows :
          /\ (nf = 0 => f = "ok")
          /\ LET m == IF Mode = "stream" THEN -1 ELSE 2
                 env == Mode = "rerun"
                 dsp == [D0 EXCEPT !.mul = m, !.add = 1, !.drift = 1, !.env = env]
                 fxs == [k \in 1..nf |-> [uid |-> 2 + k, oid |-> 2 + k, mul |-> 2, add |-> k, drift |-> k, pos |-> 0, env |-> FALSE, epos |-> 0]]
             IN /\ Say([im EXCEPT !.pc = "cfg", !.dsp = dsp, !.udsp = dsp, !.fx = fxs, !.ufx = fxs, !.caps = [d |-> d, s |-> sg, f |-> f], !.how = how, !.left = IF Mode = "config" THEN Depth ELSE 0],
                       <<"dsp d=1 uid=1 mul=" \o S2(m) \o " add=1 drift=1" \o (IF env THEN " envs=0" ELSE "") \o Caps(d, "dsp"), "sig s=1 uid=2" \o Caps(sg, "sig")>>
                       \o (IF env THEN <<"denv d=1 id=0 how=l v0=16 slope=16 len=3 sr4=4">> ELSE <<>>)
                       \o [k \in 1..nf |-> "dsp d=" \o S2(9 + k) \o " uid=" \o S2(2 + k) \o " mul=2 add=" \o S2(k) \o " drift=" \o S2(k) \o Caps(f, "dsp")]
                       \o [k \in 1..nf |-> "fx s=1 d=" \o S2(9 + k) \o " how=copy"] \o <<"host d=1 how=" \o how>>)
                /\ Ev(<<[e |-> "def", k |-> "dsp", oid |-> 1, uid |-> 1, mul |-> m, add |-> 1, drift |-> 1, fixed |-> FALSE, ids |-> IF env THEN <<0>> ELSE <<>>],
                        [e |-> "def", k |-> "sig", oid |-> 2, uid |-> 2, bias |-> 0]>>
                      \o (IF env THEN <<[e |-> "denv", uid |-> 1, oid |-> 1, id |-> 0, v0 |-> 16, slope |-> 16, len |-> 3, sr4 |-> 4, has |-> TRUE, res |-> "ok"]>> ELSE <<>>)
                      \o [k \in 1..nf |-> [e |-> "def", k |-> "dsp", oid |-> 2 + k, uid |-> 2 + k, mul |-> 2, add |-> k, drift |-> k, fixed |-> FALSE, ids |-> <<>>]]
                      \o [k \in 1..(2 * nf) |-> IF k % 2 = 1 THEN [e |-> "fxb", suid |-> 2, soid |-> 2, duid |-> 3 + k \div 2, doid |-> 3 + k \div 2, how |-> "copy"]
                                                ELSE [e |-> "fx", soid |-> 2, duid |-> 2 + k \div 2, how |-> "copy", res |-> "ok"]]
                      \o <<[e |-> "host", how |-> how, oid |-> 1, uid |-> 1, res |-> "ok"]>>)

Cf(op, v, w, t, res) == [e |-> "cfg", op |-> op, v |-> v, w |-> w, t |-> t, res |-> res]
\* the setters of the implementation: [res, h]
SetRate(h, v, cap) == IF v <= 0 THEN [res |-> "ValueError", h |-> IF Bug = "rejkeep" THEN [h EXCEPT !.sr4 = v] ELSE h]
                      ELSE IF cap = "rate" \/ v = 12 THEN [res |-> "SampleRateError", h |-> h] ELSE [res |-> "ok", h |-> [h EXCEPT !.sr4 = v]]
SetBlock(h, v) == IF v = 0 THEN [res |-> "SizeError", h |-> IF Bug = "zeroblock" THEN [h EXCEPT !.block = 1024] ELSE h] ELSE [res |-> "ok", h |-> [h EXCEPT !.block = v]]
SetCh(h, k, v) == IF v = 0 \/ v > (IF Bug = "offbyone" THEN 127 ELSE 128) THEN [res |-> "SizeError", h |-> h]
                  ELSE [res |-> "ok", h |-> IF k = "inch" THEN [h EXCEPT !.inch = v] ELSE [h EXCEPT !.outch = v]]
SetDur(h, n, d) == IF n < 0 THEN [res |-> "ValueError", h |-> h] ELSE [res |-> "ok", h |-> [h EXCEPT !.durn = n, !.durd = d]]
Setting(op, v, w) ==
    LET r == CASE op = "rate" -> SetRate(im.h, v, im.caps.d) [] op = "block" -> SetBlock(im.h, v) [] op \in {"inch", "outch"} -> SetCh(im.h, op, v)
               [] op = "dur" -> SetDur(im.h, v, w) [] op = "value" -> [res |-> "ok", h |-> [im.h EXCEPT !.vals = Append(@, <<v, w>>)]]
               [] op = "inStereo" -> [res |-> "ok", h |-> [im.h EXCEPT !.inch = 2, !.outch = 2]]
               [] op = "monoIn" -> [res |-> "ok", h |-> [im.h EXCEPT !.inch = 1]]
               [] op = "input" -> [res |-> "ok", h |-> [im.h EXCEPT !.input = TRUE]]
               [] OTHER -> [res |-> "ok", h |-> [im.h EXCEPT !.label = "the label"]]
        d == HostDsp
    IN  [h |-> r.h,
         ev |-> (IF op = "rate" /\ v > 0 THEN <<AskRate("dsp", d, im.caps.d, v)>> ELSE <<>>)
                \o <<Cf(op, IF op = "input" THEN 2 ELSE v, IF op = "input" THEN 2 ELSE w, IF op = "label" THEN "the label" ELSE "", r.res)>>,
         t |-> CASE op = "rate" -> "rate v4=" \o S2(v) [] op \in {"block", "inch", "outch"} -> op \o " v=" \o S2(v) [] op = "dur" -> "dur n=" \o S2(v) \o " den=" \o S2(w)
                 [] op = "value" -> "value id=" \o S2(v) \o " v=" \o S2(w) [] op \in {"inStereo", "monoIn"} -> "short w=" \o op
                 [] op = "input" -> "input s=1" [] OTHER -> "label t=the~label"]
Apply(r) == [im EXCEPT !.h = r.h]
\* several settings one after the other
RECURSIVE Settings(_, _)
Settings(x, l) == IF l = <<>> THEN [h |-> x, ev |-> <<>>, t |-> <<>>]
    ELSE LET r == Setting(l[1][1], l[1][2], l[1][3])
             \* (settings given here are valid ones of different kinds: they act independently)
             h1 == [x EXCEPT !.sr4 = IF l[1][1] = "rate" THEN r.h.sr4 ELSE @, !.block = IF l[1][1] = "block" THEN r.h.block ELSE @, !.inch = IF l[1][1] = "inch" THEN r.h.inch ELSE @,
                             !.outch = IF l[1][1] = "outch" THEN r.h.outch ELSE @, !.durn = IF l[1][1] = "dur" THEN r.h.durn ELSE @, !.durd = IF l[1][1] = "dur" THEN r.h.durd ELSE @,
                             !.input = @ \/ l[1][1] = "input", !.label = IF l[1][1] = "label" THEN r.h.label ELSE @, !.vals = IF l[1][1] = "value" THEN Append(@, <<l[1][2], l[1][3]>>) ELSE @]
             rest == Settings(h1, Tail(l))
         IN  [h |-> rest.h, ev |-> r.ev \o rest.ev, t |-> <<r.t>> \o rest.t]

ConfigOps == {<<"rate", 0, 0>>, <<"rate", 4, 0>>, <<"rate", 8, 0>>, <<"rate", 12, 0>>, <<"rate", -4, 0>>, <<"block", 0, 0>>, <<"block", 1, 0>>, <<"block", 3, 0>>,
              <<"inch", 0, 0>>, <<"inch", 2, 0>>, <<"outch", 128, 0>>, <<"outch", 129, 0>>, <<"outch", 2, 0>>, <<"dur", -1, 1>>, <<"dur", 0, 1>>, <<"dur", 3, 1>>, <<"dur", 3, 2>>,
              <<"inStereo", 0, 0>>, <<"monoIn", 0, 0>>, <<"value", 0, 3>>, <<"value", 1, -5>>, <<"input", 0, 0>>}
ValLists == IF Mode = "life" THEN {<<>>, <<<<0, 3>>>>, <<<<1, 5>>, <<0, 3>>, <<1, 2>>>>, <<<<0, 3>>, <<0, -1>>>>} ELSE {<<>>}
Shapes == IF Mode = "stream" THEN {<<1, 1>>, <<1, 2>>, <<2, 1>>} ELSE IF Mode = "report" THEN {<<1, 2>>} ELSE {<<1, 1>>}
Labels == IF Mode = "report" THEN BOOLEAN ELSE {FALSE}
Cfg ==
    \/ /\ im.pc = "cfg" /\ Mode # "config"
       /\ \E n \in 1..Size, b \in 1..(Size + 1), sh \in Shapes, vl \in ValLists, lb \in Labels, dd \in (IF Mode = "stream" THEN {1, 4} ELSE {1}) :
          /\ (Mode \in {"checks", "save"} => b <= n + 1)
          /\ LET l == <<<<"rate", 4, 0>>, <<"block", b, 0>>, <<"dur", IF dd = 1 THEN n ELSE 4 * n - 1, dd>>, <<"inch", sh[1], 0>>, <<"outch", sh[2], 0>>, <<"input", 0, 0>>>>
                      \o (IF lb THEN <<<<"label", 0, 0>>>> ELSE <<>>) \o [k \in DOMAIN vl |-> <<"value", vl[k][1], vl[k][2]>>]
                 r == Settings(im.h, l)
             IN  \E nc \in NChecks : Say([im EXCEPT !.h = r.h, !.pc = "checks", !.left = nc, !.cfg = r], r.t) /\ Ev(r.ev)
    \/ /\ im.pc = "cfg" /\ Mode = "config" /\ im.left > 0
       /\ \E op \in ConfigOps : LET r == Setting(op[1], op[2], op[3]) IN Say([Apply(r) EXCEPT !.left = @ - 1, !.last = <<op[1]>>], <<r.t>>) /\ Ev(r.ev)
    \/ /\ im.pc = "cfg" /\ Mode = "config" /\ im.left = 0          \* small enough to be run, unless it is an error anyway
       /\ LET l == (IF im.h.durn * im.h.sr4 > 400 THEN <<<<"dur", 3, 1>>>> ELSE <<>>) \o (IF im.h.sr4 > 8 THEN <<<<"rate", 4, 0>>>> ELSE <<>>)
              r == Settings(im.h, l)
          IN  Say([im EXCEPT !.h = r.h, !.pc = "files"], r.t) /\ Ev(r.ev)
CheckText(c) == LET fs == Sorted(c.fail) IN
    "check uid=" \o S2(c.uid) \o " lvl=" \o c.lvl \o " pol=" \o B2(c.pol) \o " pb=" \o B2(c.pb) \o " fch=" \o S2(c.fch)
    \o (IF fs = <<>> THEN "" ELSE " fail=" \o Join([k \in DOMAIN fs |-> S2(fs[k])], ",")) \o " how=copy"
AddCheck ==
    \/ /\ im.pc = "checks" /\ im.left = 0 /\ Say([im EXCEPT !.pc = "files"], <<>>) /\ Ev(<<>>)
    \/ /\ im.pc = "checks" /\ im.left > 0
       /\ \E c \in CheckSets(im.h.durn) :
          LET uid == 50 + Len(im.h.checks)
              full == ~ c.pb \/ (~ c.pol /\ Bug # "invertblock")
              fs == Sorted(c.fail)
          IN /\ Say([im EXCEPT !.left = @ - 1, !.h.checks = Append(@, c @@ [uid |-> uid, full |-> full, pos |-> 0, skip |-> FALSE])],
                    <<CheckText(c @@ [uid |-> uid])>>)
             /\ Ev(<<[e |-> "check", m |-> "spy", uid |-> uid, lvl |-> c.lvl, pol |-> c.pol, pb |-> c.pb, fail |-> fs, fch |-> c.fch, res |-> "ok"]>>)
Modes3 == {"always", "fails", "never"}
Places == {"f.wav", "nodir/f.wav", ""}
AskFiles ==
    /\ im.pc = "files"
    /\ IF Mode # "save" THEN Say([im EXCEPT !.pc = "run"], <<>>) /\ Ev(<<>>)
       ELSE \E sm \in Modes3, pm \in Modes3, sp \in Places, pp \in {"p.svg", ""} :
            /\ (sp = "" => sm = "always") /\ (pp = "" => pm = "always")
            /\ Say([im EXCEPT !.pc = "run", !.h.save = IF sp = "" THEN @ ELSE [path |-> sp, mode |-> sm], !.h.plot = IF pp = "" THEN @ ELSE [path |-> pp, mode |-> pm]],
                   (IF sp = "" THEN <<>> ELSE <<"save path=" \o sp \o " mode=" \o sm \o " fmt=float32">>) \o (IF pp = "" THEN <<>> ELSE <<"plot path=" \o pp \o " mode=" \o pm>>))
            /\ Ev((IF sp = "" THEN <<>> ELSE <<[e |-> "save", path |-> sp, mode |-> sm, fmt |-> "float32", res |-> "ok"]>>)
                  \o (IF pp = "" THEN <<>> ELSE <<[e |-> "plot", path |-> pp, mode |-> pm, fmt |-> "", res |-> "ok"]>>))

---------------------------------------------------------------------------
(* process()                                                               *)
Rs(kind, o) == [e |-> "reset", oid |-> o.oid, uid |-> o.uid, k |-> kind]
Pr(kind, o, i, oc, mx) == [e |-> "prep", oid |-> o.oid, uid |-> o.uid, k |-> kind, sr4 |-> im.h.sr4, i |-> i, o |-> oc, max |-> mx]
FramesOf(h) == IF Bug = "trunc" THEN (h.sr4 * h.durn) \div (4 * h.durd) ELSE (2 * h.sr4 * h.durn + 4 * h.durd) \div (8 * h.durd)
Mat(c) == [oid |-> Oid(c.uid), uid |-> c.uid]
Stop(x, res) == [x EXCEPT !.pc = "end", !.res = res]
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>> ELSE Head(l) \o Flat(Tail(l))

Run == /\ im.pc = "run"
       /\ LET h == im.h  n == FramesOf(h)  d == HostDsp  sg == HostSig
              ask1 == <<AskRate("dsp", d, im.caps.d, h.sr4), AskLay("dsp", d, im.caps.d, h.inch, h.outch)>>
              mats == Flat([i \in DOMAIN h.checks |-> LET c == h.checks[i] IN <<Pr("mat", Mat(c), h.outch, h.outch, IF c.full THEN (IF Bug = "fullmax" THEN h.block ELSE n) ELSE h.block), Rs("mat", Mat(c))>>])
              sets == [k \in DOMAIN h.vals |-> [e |-> "set", oid |-> d.oid, uid |-> 1, id |-> h.vals[k][1], v |-> h.vals[k][2]]]
              prepD == CASE Bug = "setearly" -> sets \o <<Rs("dsp", d), Pr("dsp", d, h.inch, h.outch, h.block)>>
                         [] Bug = "noreset" -> <<Pr("dsp", d, h.inch, h.outch, h.block)>> \o sets
                         [] Bug = "prepblock" -> <<Rs("dsp", d), Pr("dsp", d, h.inch, h.outch, Min2(h.block, n \div 2))>> \o sets
                         [] OTHER -> <<Rs("dsp", d), Pr("dsp", d, h.inch, h.outch, h.block)>> \o sets
              resetS == <<Rs("sig", sg)>> \o [k \in DOMAIN im.fx |-> Rs("dsp", HostFx(k))]
              askS == <<AskLay("sig", sg, im.caps.s, h.inch, h.inch), AskRate("sig", sg, im.caps.s, h.sr4)>>
              askF == IF Bug = "noask" THEN <<>> ELSE Flat([k \in DOMAIN im.fx |-> <<AskLay("dsp", HostFx(k), im.caps.f, h.inch, h.inch), AskRate("dsp", HostFx(k), im.caps.f, h.sr4)>>])
              prepS == <<Pr("sig", sg, h.inch, h.inch, h.block)>> \o [k \in DOMAIN im.fx |-> Pr("dsp", HostFx(k), h.inch, h.inch, h.block)]
              refused(l) == {k \in DOMAIN l : ~ l[k].ans}
              upto(l) == IF refused(l) = {} THEN l ELSE SubSeq(l, 1, CHOOSE k \in refused(l) : \A j \in refused(l) : k <= j)
              why(l) == LET a == upto(l) IN IF a[Len(a)].what = "rate" THEN "SampleRateError" ELSE "ChannelLayoutError"
              key == <<[e |-> "run", key |-> IF Mode = "rerun" THEN "k" ELSE ""]>>
              mulOf(id, dflt) == LET is == {k \in DOMAIN h.vals : h.vals[k][1] = id} IN IF is = {} THEN dflt ELSE h.vals[CHOOSE k \in is : \A j \in is : j <= k][2]
              \* what a reset of a spy leaves of its parameters: everything
              dd == [im.dsp EXCEPT !.mul = mulOf(0, @), !.add = mulOf(1, @), !.pos = IF Bug = "noreset" THEN @ ELSE 0, !.epos = IF Bug \in {"noreset", "envkeeps"} THEN @ ELSE 0]
              x == [im EXCEPT !.n = n, !.dsp = dd, !.pc = "block", !.off = 0, !.last = <<>>, !.sig.pos = IF Bug = "sigkeeps" THEN @ ELSE 0, !.fx = [k \in DOMAIN @ |-> [@[k] EXCEPT !.pos = IF Bug = "fxkeeps" THEN @ ELSE 0]], !.in = [c \in 1..h.inch |-> <<>>], !.out = [c \in 1..h.outch |-> <<>>]]
          IN /\ script' = Append(script, "run r=" \o S2(90 + im.run) \o (IF Mode = "save" THEN " files=1" ELSE IF Mode = "rerun" THEN " key=k" ELSE ""))
             /\ IF n = 0 THEN Ev(key) /\ im' = Stop(im, "SizeError")
                ELSE IF refused(ask1) # {} /\ Bug # "noask" THEN Ev(key \o upto(ask1)) /\ im' = Stop(im, why(ask1))
                ELSE IF ~ h.input THEN Ev(key \o ask1 \o mats \o prepD) /\ im' = Stop(im, "StateError")
                ELSE IF refused(askS \o askF) # {} THEN Ev(key \o ask1 \o mats \o prepD \o resetS \o upto(askS \o askF)) /\ im' = Stop(im, why(askS \o askF))
                ELSE Ev(key \o ask1 \o mats \o prepD \o resetS \o askS \o askF \o prepS) /\ im' = x

\* the checks of one group on a block: acc = [evs, checks, msgs, pend, failed, stop]
Report(c, blockStart, ff, block) ==
    LET time == (IF Bug = "blocktime" THEN ff ELSE blockStart + ff) * 4000 IN
    [lvl |-> c.lvl, pol |-> IF c.pol THEN "T" ELSE "F", hasLabel |-> im.h.label # "" /\ ~ (Bug = "nolabel" /\ c.lvl = "assert"), label |-> IF Bug = "nolabel" /\ c.lvl = "assert" THEN "" ELSE im.h.label,
     cond |-> "M" \o ToString(c.uid) \o ".", det |-> c.pol, ch |-> IF c.pol THEN c.fch ELSE -1, fr |-> IF c.pol THEN ff ELSE -1, ts |-> IF c.pol THEN time \div im.h.sr4 ELSE 0, tsd |-> IF c.pol THEN 3 ELSE 0,
     sv |-> IF c.pol THEN block[c.fch + 1][ff + 1] ELSE 0, svd |-> IF c.pol THEN 6 ELSE 0, desc |-> IF c.pol THEN "why" \o ToString(c.uid) \o "/" \o ToString(ff) \o "." ELSE "", dbd |-> IF c.pol THEN 1 ELSE -1]
RECURSIVE Group(_, _, _, _, _)
Group(i, full, block, start, acc) ==
    IF i > Len(acc.checks) \/ acc.stop THEN acc
    ELSE LET c == acc.checks[i]  n == Len(block[1]) IN
    IF c.full # full \/ c.skip THEN Group(i + 1, full, block, start, acc)
    ELSE LET bad1 == {f \in c.fail : f >= c.pos /\ f < c.pos + n}
             ans == bad1 = {}
             ff == IF ans THEN -1 ELSE (CHOOSE f \in bad1 : \A g \in bad1 : f <= g) - c.pos
             ev == [e |-> "match", oid |-> Oid(c.uid), uid |-> c.uid, pos |-> c.pos, n |-> n, o |-> Len(block), ans |-> ans, ff |-> ff, fc |-> c.fch, data |-> Aps(block)]
             fails == ans # c.pol
             c1 == [c EXCEPT !.pos = @ + n, !.skip = IF fails /\ Bug # "noskip" THEN TRUE ELSE @]
             rep == Report(c, start, IF ff < 0 THEN 0 ELSE ff, block)
             a1 == [acc EXCEPT !.evs = Append(@, ev), !.checks[i] = c1]
         IN  IF ~ fails THEN Group(i + 1, full, block, start, a1)
             ELSE IF c.lvl = "assert" /\ Bug # "assertcontinues" THEN [a1 EXCEPT !.pend = <<rep>>, !.failed = Bug # "assertnotfailed", !.stop = TRUE]
             ELSE LET a2 == [a1 EXCEPT !.msgs = Append(@, rep), !.failed = TRUE] IN
                  IF Bug = "firstonly" THEN [a2 EXCEPT !.stop = TRUE] ELSE Group(i + 1, full, block, start, a2)

Block ==
    /\ im.pc = "block" /\ script' = script
    /\ LET h == im.h
           n == IF Bug = "lastblock" THEN h.block ELSE Min2(h.block, im.n - im.off)
           sig(c) == [f \in 1..n |-> (im.sig.pos + f) * 128 + (c - 1)]
           own == [c \in 1..h.inch |-> sig(c)]
           Fx(x, a) == [c \in DOMAIN a |-> [f \in 1..n |-> a[c][f] * x.mul + x.add + x.drift * (x.pos + f - 1)]]
           s1 == IF Len(im.fx) >= 1 THEN Fx(im.fx[1], own) ELSE own
           s2 == IF Len(im.fx) >= 2 THEN Fx(im.fx[2], s1) ELSE s1
           input == IF Bug = "stale" /\ im.last # <<>> /\ Len(im.last[1]) = n THEN im.last ELSE s2
           d == HostDsp
           out == [c \in 1..h.outch |-> [f \in 1..n |-> input[((c - 1) % h.inch) + 1][f] * im.dsp.mul + im.dsp.add + im.dsp.drift * (im.dsp.pos + f - 1)]]
           P(o, x, a, b) == [e |-> "proc", oid |-> o.oid, uid |-> o.uid, pos |-> x.pos, n |-> n, on |-> n, i |-> Len(a), o |-> Len(b), in |-> Aps(a), out |-> Aps(b), envs |-> IF x.env THEN << <<0, n, Ap([k \in 1..n |-> 16 + 16 * Min2(x.epos + k, 3)])>> >> ELSE <<>>]
           evs == <<[e |-> "render", oid |-> HostSig.oid, uid |-> 2, pos |-> im.sig.pos, n |-> n, o |-> h.inch, out |-> Aps(own)]>>
                  \o (IF Len(im.fx) >= 1 THEN <<P(HostFx(1), im.fx[1], own, s1)>> ELSE <<>>)
                  \o (IF Len(im.fx) >= 2 THEN <<P(HostFx(2), im.fx[2], s1, s2)>> ELSE <<>>)
                  \o <<P(d, im.dsp, input, out)>>
           acc0 == [evs |-> <<>>, checks |-> h.checks, msgs |-> im.msgs, pend |-> im.pend, failed |-> FALSE, stop |-> im.pend # <<>>]
           acc == Group(1, FALSE, out, im.off, acc0)
           x == [im EXCEPT !.sig.pos = @ + n, !.fx = [k \in DOMAIN im.fx |-> [im.fx[k] EXCEPT !.pos = @ + n]], !.dsp.pos = @ + n, !.dsp.epos = @ + n, !.off = @ + n, !.last = s2,
                           !.in = [c \in DOMAIN @ |-> @[c] \o s2[c]], !.out = [c \in DOMAIN @ |-> @[c] \o out[c]],
                           !.h.checks = acc.checks, !.msgs = acc.msgs, !.pend = acc.pend, !.failed = IF Bug = "lastresult" THEN acc.failed ELSE @ \/ acc.failed]
           immediately == acc.pend # <<>> /\ ((h.save.mode = "never" /\ h.plot.mode = "never") \/ Bug = "assertloses")
       IN  /\ Ev(evs \o acc.evs)
           /\ im' = IF immediately THEN Stop(x, "TestAssertException") ELSE IF x.off >= im.n THEN [x EXCEPT !.pc = "full"] ELSE x
\* full-signal checks, then the files
Place(path) == IF path = "" THEN [dir |-> "", file |-> ""] ELSE IF path = "nodir/f.wav" THEN [dir |-> "data/nodir", file |-> "data/nodir/f.wav"] ELSE [dir |-> "data", file |-> "data/" \o path]
Full ==
    /\ im.pc = "full" /\ script' = script
    /\ LET h == im.h
           acc == Group(1, TRUE, im.out, 0, [evs |-> <<>>, checks |-> h.checks, msgs |-> im.msgs, pend |-> im.pend, failed |-> FALSE, stop |-> im.pend # <<>>])
           failed == IF Bug = "lastresult" THEN acc.failed ELSE im.failed \/ acc.failed
           want(r) == r.path # "" /\ (r.mode = "always" \/ (r.mode = "fails" /\ failed))
           badS == want(h.save) /\ h.save.path = "nodir/f.wav"
           wav == IF want(h.save) /\ ~ badS THEN <<[path |-> "data/f.wav", kind |-> "wav", fmt |-> 3, bits |-> 32, ch |-> h.outch, rate |-> h.sr4 \div 4, frames |-> im.n, sizes |-> TRUE,
                                                    data |-> Aps(IF Bug = "saveinput" THEN im.in ELSE im.out)]>> ELSE <<>>
           svg == IF want(h.plot) /\ ~ badS THEN <<[path |-> "data/p.svg", kind |-> "svg", lines |-> h.inch + h.outch]>> ELSE <<>>
           now == acc.pend # <<>> /\ ((h.save.mode = "never" /\ h.plot.mode = "never") \/ Bug = "assertloses")
           x == [im EXCEPT !.h.checks = acc.checks, !.msgs = acc.msgs, !.pend = acc.pend]
       IN  /\ Ev(acc.evs)
           /\ im' = IF now THEN Stop(x, "TestAssertException")
                    ELSE IF badS THEN Stop(x, IF Bug = "silentio" THEN "ok" ELSE "IOError")
                    ELSE Stop([x EXCEPT !.files = wav \o svg], IF acc.pend # <<>> THEN "TestAssertException" ELSE "ok")
End ==
    /\ im.pc = "end" /\ script' = script
    /\ im' = [im EXCEPT !.pc = IF Mode = "rerun" /\ im.res = "ok" /\ im.run < Depth THEN "again" ELSE "done"]
    /\ Ev(<<[e |-> "end", res |-> im.res, ret |-> im.res = "ok", roid |-> IF im.res = "ok" THEN HostDsp.oid ELSE 0, msgs |-> im.msgs, exc |-> IF im.res = "TestAssertException" THEN im.pend[1] ELSE <<>>,
             caps |-> <<>>, savePlace |-> Place(im.h.save.path), plotPlace |-> Place(im.h.plot.path)]>>
          \o (IF Mode = "save" THEN <<[e |-> "files", changed |-> im.files]>> ELSE <<>>))
    /\ (Bug = "none" /\ im'.pc = "done") => PrintT("@@ " \o ToString(script))

\* in between two runs the caller may use his signal or the DSP that was returned; then he runs the same test with the returned or with his own objects
Between ==
    /\ im.pc = "again"
    /\ LET ret == [HostDsp EXCEPT !.pos = im.dsp.pos]
           own == im.how = "copy"                               \* the caller's DSP is still his
           n == 2
           sout == [f \in 1..n |-> (im.usig.pos + f) * 128]
           fo == [f \in 1..n |-> sout[f] * im.ufx[1].mul + im.ufx[1].add + im.ufx[1].drift * (im.ufx[1].pos + f - 1)]
       IN  \/ /\ im.adv < 2                                     \* play the signal directly
              /\ im' = [im EXCEPT !.usig.pos = @ + n, !.ufx = [k \in DOMAIN @ |-> [@[k] EXCEPT !.pos = @ + n]], !.adv = 2]
              /\ script' = script \o <<"sprep s=1 v4=4 ch=1 max=16", "srender s=1 ch=1 n=2">>
              /\ Ev(<<[e |-> "sprep", soid |-> 2, sr4 |-> 4, ch |-> 1, max |-> 16, res |-> "ok"], [e |-> "srenb", soid |-> 2, n |-> n, ch |-> 1],
                       [e |-> "render", oid |-> 2, uid |-> 2, pos |-> im.usig.pos, n |-> n, o |-> 1, out |-> <<Ap(sout)>>],
                       [e |-> "proc", oid |-> 3, uid |-> 3, pos |-> im.ufx[1].pos, n |-> n, on |-> n, i |-> 1, o |-> 1, in |-> <<Ap(sout)>>, out |-> <<Ap(fo)>>, envs |-> <<>>],
                       [e |-> "srender", soid |-> 2, n |-> n, ch |-> 1, out |-> <<Ap(fo)>>, res |-> "ok"]>>)
           \/ \E d \in (IF own THEN {"own", "ret"} ELSE {"ret"}), how \in {"uptr", "copy", "move"} :
              LET obj == IF d = "own" THEN im.udsp ELSE ret
                  slot == IF d = "own" THEN im.slot ELSE 90 + im.run
                  oid1 == obj.oid
                  x0 == [im EXCEPT !.run = @ + 1, !.how = how, !.udsp = obj, !.slot = slot, !.dsp = obj, !.adv = 0, !.off = 0,
                                   !.sig = im.usig, !.fx = im.ufx, !.msgs = <<>>, !.pend = <<>>, !.failed = FALSE, !.res = "ok", !.files = <<>>, !.pc = "run",
                                   !.h = [im.cfg.h EXCEPT !.checks = [i \in DOMAIN im.h.checks |-> [im.h.checks[i] EXCEPT !.pos = 0, !.skip = FALSE]]]]
                  c == im.h.checks
                  fs(i) == Sorted(c[i].fail)
              IN  /\ im' = x0
                  /\ script' = script \o <<"host d=" \o S2(slot) \o " how=" \o how>> \o im.cfg.t \o [i \in DOMAIN c |-> CheckText(c[i])]
                  /\ Ev(<<[e |-> "host", how |-> how, oid |-> oid1, uid |-> 1, res |-> "ok"]>> \o im.cfg.ev
                         \o [i \in DOMAIN c |-> [e |-> "check", m |-> "spy", uid |-> c[i].uid, lvl |-> c[i].lvl, pol |-> c[i].pol, pb |-> c[i].pb, fail |-> fs(i), fch |-> c[i].fch, res |-> "ok"]])

MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ bad = {} /\ s = S0([sec |-> 3, lin |-> 6, db |-> 1])
Act == q = <<>> /\ UNCHANGED <<s, bad>> /\ (Def \/ Cfg \/ AddCheck \/ AskFiles \/ Run \/ Block \/ Full \/ End \/ Between)
Feed == q # <<>> /\ Observe(Head(q)) /\ q' = Tail(q) /\ UNCHANGED <<im, script>>
MSpec == MInit /\ [][Act \/ Feed]_<<s, bad, im, q, script>>
Sound == bad = {}
=============================================================================
