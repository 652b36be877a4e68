-------------------------------- MODULE FxMC --------------------------------
(***************************************************************************)
(* Implementation-shaped model of GainDb, GainLinear and HardClip: a cached *)
(* linear setting, a scratch array for automation values, attached          *)
(* envelopes that are rendered block by block, and one loop for n-to-n and  *)
(* another for mono-to-n. Every history of setting, attaching, preparing,   *)
(* processing (in place or not, with delivered or attached automation),     *)
(* resetting, copying, moving and assigning within the bounds is judged by  *)
(* FxSpec and replayed in the real code; at the end every object that is    *)
(* left is examined.                                                        *)
(***************************************************************************)
EXTENDS FxSpec, MCUtil
CONSTANTS Wide, Depth, Bug
VARIABLES im, q, script

\* object: kind, init (constructor's argument), g (setting), arr (automation values of the last block), env (attached), live
Kinds == {"gainlin", "gaindb", "clip"}
Vals(k) == IF k = "gainlin" THEN {-32, 96} ELSE {-12, -240}
Ramp(k) == IF k = "gainlin" THEN [v0 |-> 0, v1 |-> 64] ELSE [v0 |-> -40, v1 |-> -24]
Len0 == 2
Obj(k, g) == [kind |-> k, init |-> g, g |-> g, arr |-> <<>>, env |-> [on |-> FALSE, pos |-> 0], live |-> TRUE]
Im0 == [o |-> NoFun, n |-> 0, ops |-> 0, pc |-> "start"]

\* output code of sample v under setting g (in 1/64 or half decibels); g is in halves of that for ramps of linear gains
Lin2(v, g2) == v * 8 * g2
Gain(k, v, g) == IF k = "gainlin" THEN Lin2(v, 2 * g) ELSE (v * Db18(g)) \div 256
Clip(v, g) == LET t == Db18(g) \div 4  w == v * 1024  hi == IF Bug = "onesided" THEN w ELSE Max2(w, -t) IN Min2(hi, t)
AutoV(k, e, p) == LET m == Min2(p + 1, Len0)  r == Ramp(k) IN IF k = "gainlin" THEN r.v0 * Len0 + (r.v1 - r.v0) * m ELSE r.v0 + ((r.v1 - r.v0) * m) \div Len0

\* processing: in = <<channel>>; auto = <<>> or the values of the block ; half: they are in halves
OutAt(x, in, i, oc, c, f, auto, half) ==
    LET v == in[IF i = oc THEN c ELSE 1][f]
        val == IF Bug = "firstvalue" THEN auto[1] ELSE auto[f] IN
    IF x.kind = "clip" THEN Clip(v, x.g)
    ELSE IF Bug = "muxone" /\ i # oc /\ c > 1 THEN 0
    ELSE IF auto = <<>> \/ (Bug = "muxconst" /\ i # oc) THEN Gain(x.kind, v, x.g)
    ELSE IF half THEN Lin2(v, val) ELSE Gain(x.kind, v, val)
Layout(x, i, oc) == i = oc \/ (x.kind # "clip" /\ i = 1) \/ (Bug = "anytomono" /\ x.kind # "clip" /\ oc = 1)
Process(x, i, oc, in, env, we) ==           \* [x, out, res]
    LET n == Len(in[1])
        att == we /\ x.env.on
        fresh == IF env # <<>> THEN env ELSE IF att THEN [f \in 1..n |-> AutoV(x.kind, x.env, x.env.pos + f - 1)] ELSE <<>>
        auto == IF Bug = "stalearr" /\ fresh # <<>> /\ Len(x.arr) = n THEN x.arr ELSE fresh
        y == [x EXCEPT !.arr = IF auto # <<>> THEN auto ELSE @,
                       !.env.pos = IF att THEN @ + n ELSE @,
                       !.g = IF Bug = "sticks" /\ env # <<>> THEN env[n] ELSE @]
    IN  IF ~ Layout(x, i, oc) THEN [x |-> IF att THEN [x EXCEPT !.env.pos = @ + n] ELSE x, out |-> [c \in 1..oc |-> [f \in 1..n |-> 65536000]], res |-> "ChannelLayoutError"]
        ELSE [x |-> y, res |-> "ok", out |-> [c \in 1..oc |-> [f \in 1..n |-> OutAt(x, in, i, oc, c, f, auto, att /\ env = <<>> /\ x.kind = "gainlin")]]]

---------------------------------------------------------------------------
Codes == << <<64, -100>>, <<-64, 256>> >>
Input(i, n) == [c \in 1..i |-> SubSeq(Codes[c], 1, n)]
Flat(in) == IF Len(in) = 1 THEN in[1] ELSE in[1] \o in[2]
Commas(w) == Join([k \in DOMAIN w |-> S2(w[k])], ",")
E(ev, t) == [ev |-> ev, t |-> t]

\* processing of object o by x.  mode: "no", "env" (delivered for id 0), "other" (delivered for another id), "we" (attached)
ProcOp(x, o, i, oc, n, mode, inplace) ==
    LET ob == x.o[o]
        in == Input(i, n)
        w == [k \in 1..n |-> IF ob.kind = "gainlin" THEN 32 * k ELSE -24 * k]
        hasenv == mode \in {"env", "other"}
        r == Process(ob, i, oc, in, IF (mode = "env" \/ (Bug = "anyid" /\ mode = "other")) /\ ob.kind # "clip" THEN w ELSE <<>>, mode = "we")
        ev0 == [e |-> "fproc", o |-> o, i |-> i, oc |-> oc, n |-> n, we |-> IF mode = "we" THEN 1 ELSE 0, inplace |-> inplace, in |-> Flat(in), out |-> r.out, res |-> r.res, on |-> n]
        ev == IF hasenv THEN ev0 @@ [env |-> w, eid |-> IF mode = "env" THEN 0 ELSE 1] ELSE ev0
    IN  [im |-> [x EXCEPT !.o[o] = r.x],
         evs |-> (IF mode = "we" THEN <<E([e |-> "fprep", o |-> o, rate |-> 64, i |-> 1, oc |-> 1, max |-> 4, we |-> 1, res |-> "ok"], "fprep o=" \o S2(o) \o " rate=64 i=1 oc=1 max=4 we=1")>> ELSE <<>>)
                 \o <<E(ev, "fproc o=" \o S2(o) \o " i=" \o S2(i) \o " oc=" \o S2(oc) \o " n=" \o S2(n) \o " we=" \o (IF mode = "we" THEN "1" ELSE "0") \o " inplace=" \o S2(inplace) \o " in=" \o Commas(Flat(in))
                            \o (IF hasenv THEN " env=" \o Commas(w) \o " eid=" \o (IF mode = "env" THEN "0" ELSE "1") ELSE ""))>>]
GetAns(ob) == IF ob.kind = "gainlin" THEN ob.g * 1000 ELSE Max2(ob.g, -240) * 32000
GetOp(x, o) == E([e |-> "fget", o |-> o, id |-> 0, ans |-> GetAns(x.o[o])], "fget o=" \o S2(o) \o " id=0")
EnvSup(ob, id) == IF Bug = "clipauto" THEN id = 0 ELSE ob.kind # "clip" /\ id = 0

NewOp(x, k, g) == LET o == x.n + 1 IN
    [im |-> [x EXCEPT !.n = o, !.o = Put(@, o, Obj(k, g))], evs |-> <<E([e |-> "fnew", o |-> o, kind |-> k, g |-> g], "fnew o=" \o S2(o) \o " kind=" \o k \o " g=" \o S2(g))>>]
SetOp(x, o, id, v) ==
    [im |-> IF id = 0 \/ Bug = "setany" THEN [x EXCEPT !.o[o].g = v] ELSE x,
     evs |-> <<E([e |-> "fset", o |-> o, id |-> id, v |-> v], "fset o=" \o S2(o) \o " id=" \o S2(id) \o " v=" \o S2(v))>>]
AttachOp(x, o, id) ==
    LET ok == EnvSup(x.o[o], id)  r == Ramp(x.o[o].kind) IN
    [im |-> IF ok THEN [x EXCEPT !.o[o].env = [on |-> TRUE, pos |-> 0]] ELSE x,
     evs |-> <<E([e |-> "fattach", o |-> o, id |-> id, v0 |-> r.v0, v1 |-> r.v1, len |-> Len0, rate |-> 64, res |-> IF ok THEN "ok" ELSE "UnsupportedError"],
                 "fattach o=" \o S2(o) \o " id=" \o S2(id) \o " v0=" \o S2(r.v0) \o " v1=" \o S2(r.v1) \o " len=2 rate=64")>>]
ResetOp(x, o, we) ==
    [im |-> [x EXCEPT !.o[o].env.pos = IF we = 1 /\ Bug # "noreset" THEN 0 ELSE @, !.o[o].g = IF Bug = "resetvalue" THEN x.o[o].init ELSE @],
     evs |-> <<E([e |-> "freset", o |-> o, we |-> we], "freset o=" \o S2(o) \o " we=" \o S2(we))>>]
CopyOp(x, from, to, how) ==
    LET ob == x.o[from]
        gone == how \in {"move", "mctor", "massign"}
        src == CASE Bug = "copyinit" /\ ~ gone -> [ob EXCEPT !.g = ob.init]
                 [] Bug = "copyrewinds" /\ ~ gone -> [ob EXCEPT !.env.pos = 0]
                 [] Bug = "assignnoenv" /\ how \in {"assign", "massign"} -> [ob EXCEPT !.env = x.o[to].env]
                 [] Bug = "movenoenv" /\ how \in {"move", "mctor"} -> [ob EXCEPT !.env.on = FALSE]
                 [] OTHER -> ob
        y == [x EXCEPT !.o = Put(@, to, [src EXCEPT !.live = TRUE]), !.n = Max2(@, to)]
    IN  [im |-> IF gone THEN [y EXCEPT !.o[from].live = FALSE] ELSE y,
         evs |-> <<E([e |-> "fcopy", from |-> from, to |-> to, how |-> how], "fcopy from=" \o S2(from) \o " to=" \o S2(to) \o " how=" \o how)>>]

Live(x) == {o \in DOMAIN x.o : x.o[o].live}
\* i, oc, n, mode, in place
Procs(ob) == {<<1, 1, 2, "env", 0>>, <<1, 2, 2, "no", 0>>}
             \cup (IF ob.env.on THEN {<<1, 1, 1, "we", 0>>, <<2, 1, 2, "we", 0>>} ELSE {})
             \cup (IF ~ Wide THEN {} ELSE {<<1, 1, 1, "no", 1>>, <<1, 1, 2, "other", 0>>, <<2, 2, 2, "no", 1>>, <<2, 2, 2, "env", 1>>, <<1, 2, 2, "env", 0>>, <<2, 1, 2, "no", 0>>, <<2, 1, 1, "env", 0>>}
                    \cup IF ob.env.on THEN {<<1, 2, 2, "we", 0>>, <<2, 2, 1, "we", 1>>} ELSE {})
OpsOf(x) ==
    UNION {LET ob == x.o[o]  k == ob.kind IN
        {SetOp(x, o, id, v) : id \in IF Wide THEN {0, 1} ELSE {0}, v \in Vals(k)}
        \cup {AttachOp(x, o, id) : id \in {0, 1}}
        \cup {ResetOp(x, o, we) : we \in {0, 1}}
        \cup {ProcOp(x, o, p[1], p[2], p[3], p[4], p[5]) : p \in Procs(ob)}
        \cup (IF x.n < 3 THEN {CopyOp(x, o, x.n + 1, h) : h \in {"copy", "ctor", "move", "mctor"}} ELSE {})
        \cup {CopyOp(x, o, p, h) : p \in Live(x) \ {o}, h \in {"assign", "massign"}} : o \in Live(x)}

\* at the end: value, automation, layouts of every object
RECURSIVE ProbeAll(_, _)
ProbeAll(x, os) ==
    IF os = {} THEN <<>>
    ELSE LET o == CHOOSE i \in os : \A j \in os : i <= j
             ob == x.o[o]
             a == ProcOp(x, o, 1, 2, 2, "no", 0)
             b == ProcOp(a.im, o, 1, 1, 2, "env", 0)
             c == IF s[o].env.on THEN ProcOp(b.im, o, 1, 1, 2, "we", 0) ELSE [im |-> b.im, evs |-> <<>>]
             r == IF s[o].env.on THEN ResetOp(c.im, o, 1) ELSE [im |-> c.im, evs |-> <<>>]
             w == IF s[o].env.on THEN ProcOp(r.im, o, 2, 2, 1, "we", 1) ELSE [im |-> r.im, evs |-> <<>>]
             d == ProcOp(w.im, o, 2, 2, 1, "no", 1)
         IN  a.evs \o b.evs \o c.evs \o r.evs \o w.evs \o d.evs \o <<GetOp(d.im, o)>>
             \o <<E([e |-> "fenvsup", o |-> o, id |-> 0, ans |-> EnvSup(ob, 0)], "fenvsup o=" \o S2(o) \o " id=0"),
                  E([e |-> "fsup", o |-> o, i |-> 1, oc |-> 3, ans |-> Layout(ob, 1, 3)], "fsup o=" \o S2(o) \o " i=1 oc=3"),
                  E([e |-> "fsup", o |-> o, i |-> 2, oc |-> 1, ans |-> Layout(ob, 2, 1)], "fsup o=" \o S2(o) \o " i=2 oc=1")>>
             \o ProbeAll(d.im, os \ {o})

---------------------------------------------------------------------------
MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ s = S0 /\ bad = {}
Take(r, pc, ops) == im' = [r.im EXCEPT !.pc = pc, !.ops = ops] /\ q' = r.evs /\ UNCHANGED <<s, bad, script>>
Emit == /\ q # <<>> /\ q' = Tail(q) /\ im' = im
        /\ s' = Next1(q[1].ev) /\ bad' = bad \cup Fails(q[1].ev) /\ script' = Append(script, q[1].t)
        /\ (Len(q) = 1 /\ im.pc = "end" /\ Bug = "none") => PrintT("@@ " \o ToString(script'))
Choose ==
    /\ q = <<>>
    /\ CASE im.pc = "start" -> \E k \in Kinds : LET lo == CHOOSE v \in Vals(k) : \A w \in Vals(k) : v <= w
                                                    a == NewOp(im, k, IF k = "gainlin" THEN 16 ELSE -6)  b == NewOp(a.im, k, lo)
                                                    c == IF k = "clip" THEN [im |-> b.im, evs |-> <<>>] ELSE AttachOp(b.im, 1, 0)
                                                    d == IF k = "clip" THEN [im |-> c.im, evs |-> <<>>] ELSE ProcOp(c.im, 1, 1, 1, 1, "we", 0)     \* in the middle of its automation
                                                IN  Take([im |-> d.im, evs |-> a.evs \o b.evs \o c.evs \o d.evs], "go", 0)
         [] im.pc = "go" /\ im.ops < Depth -> \E r \in OpsOf(im) : Take(r, "go", im.ops + 1)
         [] im.pc = "go" -> Take([im |-> im, evs |-> ProbeAll(im, Live(im))], "end", im.ops)
         [] OTHER -> FALSE
MSpec == MInit /\ [][Emit \/ Choose]_<<s, bad, im, q, script>>
Sound == bad = {}
=============================================================================
