------------------------------- MODULE ChainMC ------------------------------
(***************************************************************************)
(* Implementation-shaped model of hart::DSP and hart::Signal as objects:    *)
(* envelopes and effects live in a heap, objects own addresses of it, and   *)
(* copy / move / assign / attach / reset / prepare / process manipulate     *)
(* these addresses and the envelope buffers the way the C++ code does. Every *)
(* history within the bounds is judged by HostSpec, where objects are plain  *)
(* values, and replayed in the real code. At the end of a history every      *)
(* object that is still alive is examined.                                   *)
(* Mode "dsp": DSP objects and their envelopes; "sig": signals and effects.  *)
(***************************************************************************)
EXTENDS HostSpec, MCUtil
CONSTANTS Mode, Wide, Depth, Bug
VARIABLES im, q, script

Max == 2
\* im: heap of envelopes, heap of DSPs, variables (slot -> address), signals, counters
\* envelope [v0, sl, len, er, pos, hr]; DSP [oid, uid, mul, add, drift, pos, ids, map, bufs, dirty]; signal [oid, uid, bias, pos, chain, dirty]
Im0 == [eh |-> NoFun, dh |-> NoFun, dv |-> NoFun, sv |-> NoFun, ne |-> 1, nd |-> 1, no |-> 1, ops |-> 0, pc |-> "start"]
D(x, a) == x.dh[a]
NewDsp(x, d) == [x EXCEPT !.dh = Put(@, x.nd, d), !.nd = @ + 1]

\* deep copy of the envelopes of DSP d: [x, map]
RECURSIVE CopyEnvs(_, _, _)
CopyEnvs(x, map, ids) ==
    IF ids = {} THEN [x |-> x, map |-> NoFun]
    ELSE LET id == CHOOSE i \in ids : \A j \in ids : i <= j
             y == [x EXCEPT !.eh = Put(@, x.ne, x.eh[map[id]]), !.ne = @ + 1]
             r == CopyEnvs(y, map, ids \ {id})
         IN  [x |-> r.x, map |-> (id :> x.ne) @@ r.map]
Envs(x, d) == IF Bug = "sharedenv" THEN [x |-> x, map |-> d.map] ELSE CopyEnvs(x, d.map, DOMAIN d.map)
\* copy construction: a new DSP object with a new oid; its address is x.nd of the result minus 1
CopyDsp(x, a) == LET d == D(x, a)  r == Envs(x, d) IN
    [NewDsp(r.x, [d EXCEPT !.oid = x.no, !.map = r.map, !.bufs = IF Bug = "copynobufs" THEN {} ELSE @]) EXCEPT !.no = @ + 1]
MoveDsp(x, a) == LET d == D(x, a) IN
    [NewDsp([x EXCEPT !.dh[a].map = NoFun, !.dh[a].bufs = {}, !.dh[a].dead = TRUE], [d EXCEPT !.oid = x.no]) EXCEPT !.no = @ + 1]

---------------------------------------------------------------------------
(* processing                                                              *)
RECURSIVE DoEnvs(_, _, _, _)
DoEnvs(x, d, n, ids) ==                       \* [x, envs]
    IF ids = {} THEN [x |-> x, envs |-> <<>>]
    ELSE LET id == CHOOSE i \in ids : \A j \in ids : i <= j
             m == IF Bug = "fullblock" THEN Max ELSE n
             e == x.eh[d.map[id]]
             vals == [k \in 1..m |-> EnvAt(e, e.pos + k - 1, e.hr)]
             r == DoEnvs([x EXCEPT !.eh[d.map[id]].pos = @ + m], d, n, ids \ {id})
         IN  [x |-> r.x, envs |-> <<<<id, m, Ap(vals)>>>> \o r.envs]
\* a block of one channel through DSP a: [x, out, ev]
Process(x, a, in) ==
    LET d == D(x, a)  n == Len(in)
        r == DoEnvs(x, d, n, d.bufs \cap DOMAIN d.map)
        out == [f \in 1..n |-> in[f] * d.mul + d.add + d.drift * (d.pos + f - 1)]
    IN  [x |-> [r.x EXCEPT !.dh[a].pos = @ + n], out |-> out,
         ev |-> [e |-> "proc", oid |-> d.oid, uid |-> d.uid, pos |-> d.pos, n |-> n, on |-> n, i |-> 1, o |-> 1, in |-> <<Ap(in)>>, out |-> <<Ap(out)>>, envs |-> r.envs]]
Prepare(x, a, r) ==
    LET own == Range(D(x, a).map)
        y == [x EXCEPT !.eh = [k \in DOMAIN @ |-> IF k \in own THEN [@[k] EXCEPT !.hr = r] ELSE @[k]]]
    IN  [y EXCEPT !.dh[a].bufs = DOMAIN D(x, a).map, !.dh[a].dirty = FALSE]
Reset(x, a) ==
    LET own == Range(D(x, a).map)
        y == IF Bug = "resetnoenv" THEN x ELSE [x EXCEPT !.eh = [k \in DOMAIN @ |-> IF k \in own THEN [@[k] EXCEPT !.pos = 0] ELSE @[k]]]
    IN  [y EXCEPT !.dh[a].pos = 0]

---------------------------------------------------------------------------
(* operations: [x, ev, t]                                                  *)
Res(x, ev, t) == [x |-> x, ev |-> ev, t |-> t]
ODef(x, sl, uid, mul, drift, ids) ==
    Res([NewDsp(x, [oid |-> x.no, uid |-> uid, mul |-> mul, add |-> 1, drift |-> drift, pos |-> 0, ids |-> ids, map |-> NoFun, bufs |-> {}, dirty |-> TRUE, dead |-> FALSE])
            EXCEPT !.dv = Put(@, sl, x.nd), !.no = @ + 1],
         <<[e |-> "def", k |-> "dsp", oid |-> x.no, uid |-> uid, mul |-> mul, add |-> 1, drift |-> drift, fixed |-> FALSE, ids |-> Sorted(ids)]>>,
         "dsp d=" \o S2(sl) \o " uid=" \o S2(uid) \o " mul=" \o S2(mul) \o " add=1 drift=" \o S2(drift) \o (IF ids = {} THEN "" ELSE " envs=" \o Join([k \in 1..Cardinality(ids) |-> S2(Sorted(ids)[k])], ",")))
ODenv(x, sl, id, v0, len) ==
    LET a == x.dv[sl]  d == D(x, a)  ok == id \in d.ids \/ Bug = "rejectattach"
        y == IF ~ ok THEN x ELSE IF Bug = "emplacekeeps" /\ Has(d.map, id) THEN [x EXCEPT !.dh[a].dirty = TRUE]
             ELSE [x EXCEPT !.eh = Put(@, x.ne, [v0 |-> v0, sl |-> 16, len |-> len, er |-> 4, pos |-> 0, hr |-> 4]), !.ne = @ + 1, !.dh[a].map = Put(@, id, x.ne), !.dh[a].dirty = TRUE]
    IN  Res(y, <<[e |-> "denv", uid |-> d.uid, oid |-> d.oid, id |-> id, v0 |-> v0, slope |-> 16, len |-> len, sr4 |-> 4, has |-> Has(y.dh[a].map, id), res |-> IF id \in d.ids THEN "ok" ELSE "UnsupportedError"]>>,
            "denv d=" \o S2(sl) \o " id=" \o S2(id) \o " how=l v0=" \o S2(v0) \o " slope=16 len=" \o S2(len) \o " sr4=4")
ODcopy(x, from, to) == LET y == CopyDsp(x, x.dv[from]) IN
    Res([y EXCEPT !.dv = Put(@, to, y.nd - 1)], <<[e |-> "dcopy", from |-> D(x, x.dv[from]).oid, to |-> x.no, how |-> "copy"]>>, "dcopy from=" \o S2(from) \o " to=" \o S2(to))
ODmove(x, from, to) == LET y == MoveDsp(x, x.dv[from]) IN
    Res([y EXCEPT !.dv = Put(@, to, y.nd - 1)], <<[e |-> "dcopy", from |-> D(x, x.dv[from]).oid, to |-> x.no, how |-> "move"]>>, "dmove from=" \o S2(from) \o " to=" \o S2(to))
ODassign(x, from, to, how) ==
    LET a == x.dv[from]  b == x.dv[to]  d == D(x, a)  o == D(x, b)
        r == IF how = "move" THEN [x |-> [x EXCEPT !.dh[a].map = NoFun, !.dh[a].bufs = {}, !.dh[a].dead = TRUE], map |-> d.map] ELSE Envs(x, d)
        map == IF Bug = "assignmerge" THEN o.map @@ r.map ELSE r.map
        y == IF a = b THEN x ELSE [r.x EXCEPT !.dh[b] = [d EXCEPT !.oid = o.oid, !.map = map]]
    IN  Res(y, <<[e |-> "dassign", from |-> d.oid, to |-> o.oid, how |-> how]>>, "dassign from=" \o S2(from) \o " to=" \o S2(to) \o " how=" \o how)
PrepEv(d, r) == [e |-> "prep", oid |-> d.oid, uid |-> d.uid, k |-> "dsp", sr4 |-> r, i |-> 1, o |-> 1, max |-> Max]
ODprep(x, sl, r) == LET d == D(x, x.dv[sl]) IN
    Res(Prepare(x, x.dv[sl], r), <<PrepEv(d, r), [e |-> "dprep", oid |-> d.oid, sr4 |-> r, max |-> Max, res |-> "ok"]>>, "dprep d=" \o S2(sl) \o " v4=" \o S2(r) \o " i=1 o=1 max=" \o S2(Max))
ODreset(x, sl) == LET d == D(x, x.dv[sl]) IN
    Res(Reset(x, x.dv[sl]), <<[e |-> "reset", oid |-> d.oid, uid |-> d.uid, k |-> "dsp"], [e |-> "dreset", oid |-> d.oid, res |-> "ok"]>>, "dreset d=" \o S2(sl))
ODproc(x, sl, n) == LET d == D(x, x.dv[sl])  r == Process(x, x.dv[sl], [f \in 1..n |-> 0]) IN
    Res(r.x, <<r.ev, [e |-> "dproc", oid |-> d.oid, n |-> n, res |-> "ok"]>>, "dproc d=" \o S2(sl) \o " i=1 o=1 n=" \o S2(n))
ODhas(x, sl, id) == LET d == D(x, x.dv[sl]) IN Res(x, <<[e |-> "dhas", oid |-> d.oid, id |-> id, ans |-> Has(d.map, id)]>>, "dhas d=" \o S2(sl) \o " id=" \o S2(id))

\* signals
OSig(x, sl, uid) == Res([x EXCEPT !.sv = Put(@, sl, [oid |-> x.no, uid |-> uid, bias |-> 0, pos |-> 0, chain |-> <<>>, dead |-> FALSE, dirty |-> TRUE]), !.no = @ + 1],
                        <<[e |-> "def", k |-> "sig", oid |-> x.no, uid |-> uid, bias |-> 0]>>, "sig s=" \o S2(sl) \o " uid=" \o S2(uid))
OFx(x, sl, dl, how) ==
    LET a == x.dv[dl]  d == D(x, a)  sg == x.sv[sl]
        y == CASE how \in {"uptr", "rshu"} -> [x EXCEPT !.dv = [k \in DOMAIN @ \ {dl} |-> @[k]]]
               [] how = "move" -> MoveDsp(x, a)
               [] OTHER -> IF Bug = "fxshared" THEN x ELSE CopyDsp(x, a)
        at == IF how \in {"uptr", "rshu"} \/ (Bug = "fxshared" /\ how # "move") THEN a ELSE y.nd - 1
    IN  Res([y EXCEPT !.sv[sl].dirty = TRUE, !.sv[sl].chain = IF Bug = "orderrev" THEN <<at>> \o @ ELSE Append(@, at)],
            <<[e |-> "fxb", suid |-> sg.uid, soid |-> sg.oid, duid |-> d.uid, doid |-> d.oid, how |-> how], [e |-> "fx", soid |-> sg.oid, duid |-> d.uid, how |-> how, res |-> "ok"]>>,
            "fx s=" \o S2(sl) \o " d=" \o S2(dl) \o " how=" \o how)
RECURSIVE CopyAll(_, _)
CopyAll(x, chain) == IF chain = <<>> THEN [x |-> x, c |-> <<>>] ELSE LET y == CopyDsp(x, Head(chain))  r == CopyAll(y, Tail(chain)) IN [x |-> r.x, c |-> <<y.nd - 1>> \o r.c]
Chain(x, c) == IF Bug = "sharedchain" THEN [x |-> x, c |-> c] ELSE IF Bug = "nochaincopy" THEN [x |-> x, c |-> <<>>]
               ELSE IF Bug = "skiplast" /\ Len(c) > 1 THEN CopyAll(x, SubSeq(c, 1, Len(c) - 1)) ELSE CopyAll(x, c)
OScopy(x, from, to, how) ==
    LET sg == x.sv[from]
        r == IF how = "move" THEN [x |-> x, c |-> sg.chain] ELSE Chain(x, sg.chain)
        y == [r.x EXCEPT !.sv = Put(@, to, [sg EXCEPT !.oid = r.x.no, !.chain = r.c]), !.no = @ + 1]
    IN  Res(IF how = "move" THEN [y EXCEPT !.sv[from].chain = <<>>, !.sv[from].dead = TRUE] ELSE y,
            <<[e |-> "scopy", from |-> sg.oid, to |-> r.x.no, how |-> how]>>, (IF how = "move" THEN "smove" ELSE "scopy") \o " from=" \o S2(from) \o " to=" \o S2(to))
OSassign(x, from, to, how) ==
    LET sg == x.sv[from]  o == x.sv[to]
        r == IF how = "move" THEN [x |-> x, c |-> sg.chain] ELSE Chain(x, sg.chain)
        y == IF from = to THEN x ELSE [r.x EXCEPT !.sv[to] = [sg EXCEPT !.oid = o.oid, !.chain = IF Bug = "assignappends" THEN o.chain \o r.c ELSE r.c]]
    IN  Res(IF how = "move" /\ from # to THEN [y EXCEPT !.sv[from].chain = <<>>, !.sv[from].dead = TRUE] ELSE y,
            <<[e |-> "sassign", from |-> sg.oid, to |-> o.oid, how |-> how]>>, "sassign from=" \o S2(from) \o " to=" \o S2(to) \o " how=" \o how)
RECURSIVE PrepAll(_, _, _)
PrepAll(x, c, r) == IF c = <<>> THEN x ELSE PrepAll(Prepare(x, Head(c), r), Tail(c), r)
OSprep(x, sl, r) == LET sg == x.sv[sl] IN
    Res([PrepAll(x, sg.chain, r) EXCEPT !.sv[sl].dirty = FALSE],
        <<[e |-> "prep", oid |-> sg.oid, uid |-> sg.uid, k |-> "sig", sr4 |-> r, i |-> 1, o |-> 1, max |-> Max]>> \o [k \in DOMAIN sg.chain |-> PrepEv(D(x, sg.chain[k]), r)]
        \o <<[e |-> "sprep", soid |-> sg.oid, sr4 |-> r, ch |-> 1, max |-> Max, res |-> "ok"]>>, "sprep s=" \o S2(sl) \o " v4=" \o S2(r) \o " ch=1 max=" \o S2(Max))
RECURSIVE ResetAll(_, _)
ResetAll(x, c) == IF c = <<>> THEN x ELSE ResetAll(Reset(x, Head(c)), Tail(c))
OSreset(x, sl) == LET sg == x.sv[sl] IN
    Res([(IF Bug = "resetskips" THEN x ELSE ResetAll(x, sg.chain)) EXCEPT !.sv[sl].pos = 0], <<[e |-> "sreset", soid |-> sg.oid, res |-> "ok"]>>, "sreset s=" \o S2(sl))
RECURSIVE ProcAll(_, _, _)
ProcAll(x, c, a) == IF c = <<>> THEN [x |-> x, out |-> a, evs |-> <<>>]
    ELSE LET p == Process(x, Head(c), a)  r == ProcAll(p.x, Tail(c), p.out) IN [x |-> r.x, out |-> r.out, evs |-> <<p.ev>> \o r.evs]
OSrender(x, sl, n) ==
    LET sg == x.sv[sl]
        own == [f \in 1..n |-> (sg.pos + f) * 128 + sg.bias]
        r == ProcAll([x EXCEPT !.sv[sl].pos = @ + n], sg.chain, own)
    IN  Res(r.x, <<[e |-> "srenb", soid |-> sg.oid, n |-> n, ch |-> 1], [e |-> "render", oid |-> sg.oid, uid |-> sg.uid, pos |-> sg.pos, n |-> n, o |-> 1, out |-> <<Ap(own)>>]>>
                 \o r.evs \o <<[e |-> "srender", soid |-> sg.oid, n |-> n, ch |-> 1, out |-> <<Ap(r.out)>>, res |-> "ok"]>>, "srender s=" \o S2(sl) \o " ch=1 n=" \o S2(n))
OSrepr(x, sl) == LET sg == x.sv[sl] IN
    Res(x, <<[e |-> "srepr", soid |-> sg.oid, names |-> <<"S" \o S2(sg.uid)>> \o [k \in DOMAIN sg.chain |-> "D" \o S2(D(x, sg.chain[k]).uid)]]>>, "srepr s=" \o S2(sl))

---------------------------------------------------------------------------
(* several operations in a row                                             *)
Then(r, o) == [x |-> o.x, ev |-> r.ev \o o.ev, t |-> (IF r.t = <<>> THEN <<>> ELSE r.t) \o <<o.t>>]
R0(x) == [x |-> x, ev |-> <<>>, t |-> <<>>]
Start ==
    LET a == Then(R0(Im0), ODef(Im0, 1, 1, 2, 1, {0, 1}))  b == Then(a, ODef(a.x, 2, 2, 1, 3, {0, 1})) IN
    IF Mode = "dsp" THEN
        LET c == Then(b, ODenv(b.x, 1, 0, 16, 2))  d == Then(c, ODenv(c.x, 2, 1, 48, 3))
            e == Then(d, ODprep(d.x, 1, 4))  f == Then(e, ODprep(e.x, 2, 4))  g == Then(f, ODproc(f.x, 1, 1)) IN g
    ELSE
        LET c == Then(b, ODenv(b.x, 2, 0, 16, 3))  d == Then(c, ODef(c.x, 3, 3, 1, 5, {}))
            e == Then(d, OSig(d.x, 1, 21))  f == Then(e, OSig(e.x, 2, 22))
            g == Then(f, OFx(f.x, 1, 2, "copy"))  h == Then(g, OSprep(g.x, 1, 4))  i == Then(h, OSrender(h.x, 1, 1))  j == Then(i, ODprep(i.x, 1, 4))  k == Then(j, ODprep(j.x, 2, 4)) IN k

Alive(x, sl) == Has(x.dv, sl) /\ ~ D(x, x.dv[sl]).dead
Usable(x, sl) == Alive(x, sl) /\ ~ D(x, x.dv[sl]).dirty
SAlive(x, sl) == Has(x.sv, sl) /\ ~ x.sv[sl].dead
SUsable(x, sl) == SAlive(x, sl) /\ ~ x.sv[sl].dirty      \* attaching an effect means preparing again
Ds == 1..3
\* the sample rate is changed only where no envelope is on its way
RateOK(x, a, r) == LET d == D(x, a) IN \A id \in DOMAIN d.map : x.eh[d.map[id]].pos = 0 \/ x.eh[d.map[id]].hr = r
SRateOK(x, sl, r) == \A k \in DOMAIN x.sv[sl].chain : RateOK(x, x.sv[sl].chain[k], r)
DspOps(x) ==
    {ODenv(x, sl, id, v0, 2) : sl \in {y \in Ds : Alive(x, y)}, id \in {0, 1, 2}, v0 \in {64}}
    \cup {ODcopy(x, sl, 3) : sl \in {y \in Ds : Alive(x, y)}} \cup {ODmove(x, sl, 3) : sl \in {y \in {1, 2} : Alive(x, y)}}
    \cup {ODassign(x, p[1], p[2], p[3]) : p \in {y \in Ds \X Ds \X {"copy", "move"} : Alive(x, y[1]) /\ Has(x.dv, y[2]) /\ (y[1] = y[2] => y[3] = "copy")}}
    \cup {ODprep(x, p[1], p[2]) : p \in {y \in Ds \X (IF Wide THEN {4, 8} ELSE {8}) : Alive(x, y[1]) /\ RateOK(x, x.dv[y[1]], y[2])}}
    \cup {ODproc(x, sl, n) : sl \in {y \in Ds : Usable(x, y)}, n \in (IF Wide THEN {1, 2} ELSE {1})}
    \cup {ODreset(x, sl) : sl \in {y \in Ds : Alive(x, y)}}
Free(x, sl, dl) == \A k \in DOMAIN x.sv[sl].chain : D(x, x.sv[sl].chain[k]).uid # D(x, x.dv[dl]).uid
SigOps(x) ==
    {OFx(x, p[1], p[2], p[3]) : p \in {y \in Ds \X {1, 2, 3} \X (IF Wide THEN {"copy", "dcopy", "move", "uptr", "rsh", "rshu"} ELSE {"copy", "uptr", "move"}) : SAlive(x, y[1]) /\ Alive(x, y[2]) /\ Free(x, y[1], y[2])}}
    \cup {OScopy(x, p[1], p[2], p[3]) : p \in {y \in {1, 2} \X {3} \X {"copy", "move"} : SAlive(x, y[1])}}
    \cup {OSassign(x, p[1], p[2], p[3]) : p \in {y \in Ds \X Ds \X {"copy", "move"} : SAlive(x, y[1]) /\ Has(x.sv, y[2]) /\ (y[1] = y[2] => y[3] = "copy")}}
    \cup {OSprep(x, sl, 8) : sl \in {y \in Ds : SAlive(x, y) /\ SRateOK(x, y, 8)}}
    \cup {OSrender(x, sl, n) : sl \in {y \in Ds : SUsable(x, y)}, n \in (IF Wide THEN {1, 2} ELSE {2})}
    \cup {OSreset(x, sl) : sl \in {y \in Ds : SAlive(x, y)}}
    \cup (IF Usable(x, 1) THEN {ODproc(x, 1, 1)} ELSE {}) \cup (IF Usable(x, 2) THEN {ODproc(x, 2, 1)} ELSE {})

\* everything that is alive is looked at
ProbeD(r, sl) ==
    IF ~ Alive(r.x, sl) THEN r
    ELSE LET a == IF Usable(r.x, sl) THEN r ELSE LET k == IF RateOK(r.x, r.x.dv[sl], 4) THEN 4 ELSE 8 IN IF RateOK(r.x, r.x.dv[sl], k) THEN Then(r, ODprep(r.x, sl, k)) ELSE LET y == Then(r, ODreset(r.x, sl)) IN Then(y, ODprep(y.x, sl, 4))
             b == Then(a, ODproc(a.x, sl, 1))
         IN  IF Mode = "sig" THEN b ELSE LET c == Then(b, ODproc(b.x, sl, 2))  d == Then(c, ODhas(c.x, sl, 0))  e == Then(d, ODhas(d.x, sl, 1)) IN Then(e, ODhas(e.x, sl, 2))
ProbeS(r, sl) ==
    IF ~ SAlive(r.x, sl) THEN r
    ELSE LET a == IF SUsable(r.x, sl) THEN r ELSE LET k == IF SRateOK(r.x, sl, 4) THEN 4 ELSE 8 IN IF SRateOK(r.x, sl, k) THEN Then(r, OSprep(r.x, sl, k)) ELSE LET y == Then(r, OSreset(r.x, sl)) IN Then(y, OSprep(y.x, sl, 4))
             b == Then(a, OSrepr(a.x, sl))  c == Then(b, OSrender(b.x, sl, 2)) IN Then(c, OSrender(c.x, sl, 1))
Probe(x) == LET a == IF Mode = "sig" THEN ProbeS(ProbeS(ProbeS(R0(x), 1), 2), 3) ELSE R0(x) IN ProbeD(ProbeD(ProbeD(a, 1), 2), 3)

MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ bad = {} /\ s = S0([sec |-> 3, lin |-> 6, db |-> 1])
Act == /\ q = <<>> /\ UNCHANGED <<s, bad>>
       /\ \/ im.pc = "start" /\ LET r == Start IN im' = [r.x EXCEPT !.pc = "ops"] /\ q' = r.ev /\ script' = r.t
          \/ /\ im.pc = "ops" /\ im.ops < Depth
             /\ \E o \in (IF Mode = "dsp" THEN DspOps(im) ELSE SigOps(im)) : im' = [o.x EXCEPT !.ops = im.ops + 1] /\ q' = o.ev /\ script' = Append(script, o.t)
          \/ /\ im.pc = "ops" /\ im.ops = Depth
             /\ LET r == Probe(im) IN im' = [r.x EXCEPT !.pc = "done"] /\ q' = r.ev /\ script' = script \o r.t
             /\ (Bug = "none") => PrintT("@@ " \o ToString(script'))
Feed == q # <<>> /\ Observe(Head(q)) /\ q' = Tail(q) /\ UNCHANGED <<im, script>>
MSpec == MInit /\ [][Act \/ Feed]_<<s, bad, im, q, script>>
Sound == bad = {}
=============================================================================
