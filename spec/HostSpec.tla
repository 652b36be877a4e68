------------------------------ MODULE HostSpec ------------------------------
(***************************************************************************)
(* What HART's audio test host, signal chains and DSP objects must do, as  *)
(* a state machine over observable events: builder calls, callbacks into   *)
(* DSPs / signals / matchers, and the outcome of a run.                    *)
(*                                                                         *)
(* The audio of the spy components is chosen so that every stream is an    *)
(* affine function of the frame number, exactly representable: a signal    *)
(* plays (frame+1)*128 + channel + bias, a DSP computes                    *)
(* in * mul + add + drift * (frames since reset). The specification thus   *)
(* predicts every sample of every block from the configuration alone.      *)
(*                                                                         *)
(* For every event there is a set of labelled guards (F...) and a state    *)
(* update (U...). A label names the properties that are broken when its    *)
(* guard is false, and the clause. The same module is driven by the        *)
(* step-by-step model of the implementation (HostMC) and by traces that    *)
(* were recorded from the real code (HostTrace).                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

G(label, cond) == IF cond THEN {} ELSE {label}
Put(f, k, v) == (k :> v) @@ f
Has(f, k) == k \in DOMAIN f
Min2(a, b) == IF a < b THEN a ELSE b
Range(q) == {q[i] : i \in DOMAIN q}
NoFun == [x \in {} |-> 0]

---------------------------------------------------------------------------
(* Streams: <<a, b>> stands for the audio a + b*f at frame f.              *)
At(st, f) == st[1] + st[2] * f

\* runs is the arithmetic-progression code of st's frames p .. p+n-1
IsSlice(runs, st, p, n) ==
    IF n = 1 THEN runs = << <<At(st, p), 0, 1>> >> ELSE runs = << <<At(st, p), st[2], n>> >>

SigStream(v, c) == <<128 + (c - 1) + v.bias, 128>>      \* own audio of a signal, channel c (from 1)

\* audio of channel c behind the first k effects, as a function of the signal's frame number
RECURSIVE Stage(_, _, _)
Stage(v, k, c) ==
    IF k = 0 THEN SigStream(v, c)
    ELSE LET p == Stage(v, k - 1, c)  x == v.chain[k]
         IN  << x.mul * p[1] + x.add - x.drift * x.off, x.mul * p[2] + x.drift >>

---------------------------------------------------------------------------
(* Automation envelopes: v0 then a linear ramp of sl (sixteenths) per      *)
(* frame of rate er for len frames, then constant; evaluated at rate hr.   *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
EnvAt(x, k, hr) ==
    LET g == Gcd(x.er, hr)  p == x.er \div g  q == hr \div g
        m == Min2((k + 1) * p, x.len * q)
    IN  x.v0 + (m \div q) * x.sl + ((m % q) * x.sl) \div q

\* the frame from which on the envelope is constant
EnvBreak(x, hr) ==
    LET g == Gcd(x.er, hr)  p == x.er \div g  q == hr \div g
    IN  IF x.len = 0 THEN 0 ELSE ((x.len * q + p - 1) \div p) - 1

RECURSIVE EnvRunsOK(_, _, _, _)
EnvRunsOK(runs, x, k, hr) ==
    IF runs = <<>> THEN TRUE
    ELSE LET r == Head(runs)  last == r[3] - 1  b == EnvBreak(x, hr) - k
             AgreesAt(j) == r[1] + r[2] * j = EnvAt(x, k + j, hr)
         IN  /\ \A v \in {1, 2} : r[v] < 100000000 /\ r[v] > -100000000
             /\ AgreesAt(0) /\ AgreesAt(last)
             /\ (b > 0 /\ b < last) => AgreesAt(b) /\ AgreesAt(b - 1)
             /\ EnvRunsOK(Tail(runs), x, k + r[3], hr)

RECURSIVE RunsLen(_)
RunsLen(runs) == IF runs = <<>> THEN 0 ELSE Head(runs)[3] + RunsLen(Tail(runs))

\* ev.envs = <<<<id, size, runs>>, ...>> must be exactly the attached envelopes' next n values
FEnvs(ev, envs, hr) ==
    G("C05:one value sequence per attached parameter and nothing else",
        {ev.envs[i][1] : i \in DOMAIN ev.envs} = DOMAIN envs /\ Len(ev.envs) = Cardinality(DOMAIN envs))
    \cup G("C05:as many envelope values as frames in the block",
        \A i \in DOMAIN ev.envs : ev.envs[i][2] = ev.n)
    \cup G("C05:envelope values continue the curve at the host's sample rate",
        \A i \in DOMAIN ev.envs : LET id == ev.envs[i][1] IN
            (id \in DOMAIN envs /\ ev.envs[i][2] = ev.n) => EnvRunsOK(ev.envs[i][3], envs[id], envs[id].pos, hr))

AdvEnvs(envs, n) == [id \in DOMAIN envs |-> [envs[id] EXCEPT !.pos = @ + n]]
ResetEnvs(envs) == [id \in DOMAIN envs |-> [envs[id] EXCEPT !.pos = 0]]
ResetSig(v) == [v EXCEPT !.pos = 0, !.chain = [k \in DOMAIN v.chain |->
                    [v.chain[k] EXCEPT !.pos = 0, !.off = 0, !.envs = ResetEnvs(@)]]]

---------------------------------------------------------------------------
(* State.                                                                  *)
VARIABLES s, bad
NoHost == [on |-> FALSE]
NoRun == [on |-> FALSE]
NoRender == [on |-> FALSE]
S0(cli) == [cli |-> cli, sg |-> NoFun, ds |-> NoFun, asks |-> {}, host |-> NoHost, run |-> NoRun, ren |-> NoRender,
            dirs |-> {"data", "abs", "cwd"}, past |-> NoFun, last |-> NoRun, fxp |-> NoRun]

NewHost(how, oid, uid, v) ==
    [on |-> TRUE, how |-> how, oid |-> oid, uid |-> uid, dsp |-> v, known |-> uid # 0,
     sr4 |-> 4 * 44100, block |-> 1024, inch |-> 1, outch |-> 1, durn |-> 1, durd |-> 10, label |-> "",
     values |-> <<>>, inkind |-> "none", sig |-> <<>>, inoid |-> 0, inuid |-> 0, checks |-> <<>>,
     save |-> [path |-> "", mode |-> "never", fmt |-> ""], plot |-> [path |-> "", mode |-> "never", fmt |-> ""]]

\* round(sample rate * duration), without leaving 32 bits
Frames(h) ==
    LET g == Gcd(h.sr4, 4 * h.durd)  p == h.sr4 \div g  q == (4 * h.durd) \div g
    IN  (h.durn \div q) * p + ((h.durn % q) * p + q \div 2) \div q
HartErrors == {"IOError", "StateError", "SizeError", "ValueError", "SampleRateError", "ChannelLayoutError",
               "HartAssertException", "UnsupportedError", "ConfigurationError", "IndexError"}

---------------------------------------------------------------------------
(* Objects and capability questions.                                       *)
UDef(ev) ==
    IF ev.k = "dsp" THEN [s EXCEPT !.ds = Put(@, ev.oid, [uid |-> ev.uid, mul |-> ev.mul, add |-> ev.add, drift |-> ev.drift, pos |-> 0,
                              envs |-> NoFun, ids |-> Range(ev.ids), hr |-> 0, fixed |-> ev.fixed, known |-> TRUE])]
    ELSE [s EXCEPT !.sg = Put(@, ev.oid, [uid |-> ev.uid, bias |-> ev.bias, pos |-> 0, chain |-> <<>>, known |-> TRUE])]

UAsk(ev) == [s EXCEPT !.asks = @ \cup {<<ev.uid, ev.what, ev.i, ev.o, ev.sr4, ev.ans>>}]
Asked(uid, what, i, o, r) == \E a \in s.asks : a[1] = uid /\ a[2] = what /\ a[3] = i /\ a[4] = o /\ a[5] = r
Refused(uid, what, i, o, r) == <<uid, what, i, o, r, FALSE>> \in s.asks

---------------------------------------------------------------------------
(* Roles of objects within a run, by uid.                                  *)
R == s.run
ChainIx(v, uid) == {k \in DOMAIN v.chain : v.chain[k].uid = uid}
Role(uid) == IF uid = R.h.uid THEN "dsp"
             ELSE IF R.h.inkind = "spy" /\ uid = R.h.sig.uid THEN "in"
             ELSE IF R.h.inkind = "spy" /\ ChainIx(R.h.sig, uid) # {} THEN "fx"
             ELSE "other"
Obj0 == [reset |-> FALSE, prep |-> FALSE, sr4 |-> 0, i |-> 0, o |-> 0, max |-> 0, sets |-> <<>>, audio |-> FALSE]
Ob(oid) == IF Has(R.ob, oid) THEN R.ob[oid] ELSE Obj0
WantI(role) == IF role = "other" THEN R.h.outch ELSE R.h.inch
WantO(role) == IF role \in {"dsp", "other", "mat"} THEN R.h.outch ELSE R.h.inch

\* an object of the caller's that was passed by reference gets no callbacks
FForeign(ev) ==
    G("C06:the caller's own object takes part in the run",
        ~ (R.h.how # "uptr" /\ R.h.how # "move" /\ ev.oid = R.h.oid) /\ ~ (R.h.inoid # 0 /\ ev.oid = R.h.inoid))
    \cup G("C06:the transferred object itself is used",
        (R.h.how = "uptr" /\ R.h.known /\ ev.uid = R.h.uid) => ev.oid = R.h.oid)

---------------------------------------------------------------------------
(* Callbacks.                                                              *)
FReset(ev) == IF R.on THEN FForeign(ev) ELSE {}
UReset(ev) == IF R.on THEN [s EXCEPT !.run.ob = Put(@, ev.oid, [Ob(ev.oid) EXCEPT !.reset = TRUE, !.sets = <<>>])]
              ELSE IF ev.k = "dsp" /\ Has(s.ds, ev.oid) THEN [s EXCEPT !.ds[ev.oid].pos = 0] ELSE s

FPrep(ev) ==
    IF ~ R.on THEN {}
    ELSE FForeign(ev)
         \cup (IF ev.k = "dsp" THEN
                 G("C03:asked for the channel layout before being prepared", Asked(ev.uid, "layout", ev.i, ev.o, 0))
                 \cup G("C03:asked for the sample rate before being prepared", Asked(ev.uid, "rate", 0, 0, ev.sr4))
               ELSE IF ev.k = "sig" THEN
                 G("C03:asked for the channel layout before being prepared", Asked(ev.uid, "layout", ev.o, ev.o, 0))
                 \cup G("C03:asked for the sample rate before being prepared", Asked(ev.uid, "rate", 0, 0, ev.sr4))
               ELSE {})
UPrep(ev) == IF R.on THEN [s EXCEPT !.run.ob = Put(@, ev.oid,
                 [Ob(ev.oid) EXCEPT !.prep = TRUE, !.sr4 = ev.sr4, !.i = ev.i, !.o = ev.o, !.max = ev.max])]
             ELSE IF ev.k = "dsp" /\ Has(s.ds, ev.oid) THEN [s EXCEPT !.ds[ev.oid].hr = ev.sr4] ELSE s

FSet(ev) == IF R.on THEN FForeign(ev) \cup G("C03:values are set before the first block", ~ Ob(ev.oid).audio) ELSE {}
USet(ev) ==
    IF R.on THEN [s EXCEPT !.run.ob = Put(@, ev.oid, [Ob(ev.oid) EXCEPT !.sets = Append(@, <<ev.id, ev.v>>)])]
    ELSE IF Has(s.ds, ev.oid) THEN [s EXCEPT !.ds[ev.oid].mul = IF ev.id = 0 THEN ev.v ELSE @,
                                              !.ds[ev.oid].add = IF ev.id = 1 THEN ev.v ELSE @] ELSE s

\* before any audio reaches an object in a run
FReady(ev, role, n) ==
    LET b == Ob(ev.oid) IN
    FForeign(ev)
    \cup G("C03,C06:reset before its first audio in a run", b.reset)
    \cup G("C03:prepared before its first audio in a run", b.prep)
    \cup G("C03:prepared with the test's sample rate", b.prep => b.sr4 = R.h.sr4)
    \cup G("C03:prepared with the test's channel counts", b.prep => b.o = WantO(role) /\ (role = "mat" \/ b.i = WantI(role)))
    \cup G("C03:block larger than announced", b.prep => n <= b.max)

FNotRefused(ev, role) ==
    G("C03:audio in a configuration the object rejected",
        /\ ~ Refused(ev.uid, "rate", 0, 0, R.h.sr4)
        /\ ~ Refused(ev.uid, "layout", WantI(role), WantO(role), 0))
FRunnable == G("C17:audio although there is nothing to process", Frames(R.h) > 0)
             \cup G("C17:audio although there is no input signal", R.h.inkind # "none")

\* signal callback
FRender(ev) ==
    IF s.ren.on THEN
        IF Has(s.sg, s.ren.soid) /\ s.sg[s.ren.soid].known THEN
            LET v == s.sg[s.ren.soid] IN
            G("C07:the rendered object's own signal plays", ev.uid = v.uid)
            \cup G("C06,C07:signal continues from its own position", ev.pos = v.pos)
            \cup G("C07:one render per block", ~ s.ren.rendered /\ ev.n = s.ren.n /\ ev.o = s.ren.ch)
        ELSE {}
    ELSE IF ~ R.on THEN {}
    ELSE LET role == Role(ev.uid) IN
        FReady(ev, role, ev.n) \cup FNotRefused(ev, role) \cup FRunnable
        \cup (IF role = "in" THEN
                G("C02,C06:the input starts at its first frame", R.spos = 0 => ev.pos = 0)
                \cup G("C02:each input frame is rendered once, in order", ev.pos = R.spos)
                \cup G("C02:no frames beyond the duration are rendered", ev.pos + ev.n <= R.n)
                \cup G("C02,C17:input channels", ev.o = R.h.inch)
              ELSE {})
URender(ev) ==
    IF s.ren.on THEN
        IF Has(s.sg, s.ren.soid) /\ s.sg[s.ren.soid].known
        THEN [s EXCEPT !.ren.rendered = TRUE, !.sg[s.ren.soid].pos = ev.pos + ev.n] ELSE s
    ELSE IF ~ R.on THEN s
    ELSE LET s1 == [s EXCEPT !.run.ob = Put(@, ev.oid, [Ob(ev.oid) EXCEPT !.audio = TRUE])]
         IN  IF Role(ev.uid) = "in" THEN [s1 EXCEPT !.run.spos = ev.pos + ev.n, !.run.anyAudio = TRUE] ELSE [s1 EXCEPT !.run.anyAudio = TRUE]

ChansOK(runs, nch, p, n, st(_)) == Len(runs) = nch /\ \A c \in 1 .. nch : IsSlice(runs[c], st(c), p, n)

\* DSP callback: effect k of signal value v
FEffect(ev, v, k, hr, nch) ==
    LET x == v.chain[k]
        f == x.pos + x.off                                      \* in frames of the signal
        limit == IF k = 1 THEN v.pos ELSE v.chain[k - 1].pos + v.chain[k - 1].off
        In(c) == Stage(v, k - 1, c)
        Out(c) == Stage(v, k, c)
    IN  G("C07:effects run in the order attached", f + ev.n <= limit)
        \cup G("C06,C07:effect state continues on its own", ev.pos = x.pos)
        \cup G("C07:effect receives what the preceding one produced", f + ev.n <= limit => ChansOK(ev.in, nch, f, ev.n, In))
        \cup G("C07:audio behind the effect", ev.pos = x.pos /\ f + ev.n <= limit => ChansOK(ev.out, nch, f, ev.n, Out))
        \cup G("C07:effect block lengths and channels", ev.on = ev.n /\ ev.i = nch /\ ev.o = nch)
        \cup FEnvs(ev, x.envs, hr)
AdvChain(v, k, n) == [v EXCEPT !.chain[k].pos = @ + n, !.chain[k].envs = AdvEnvs(@, n)]

FDsp(ev) ==                                                     \* the tested DSP
    LET h == R.h
        In(c) == Stage(h.sig, Len(h.sig.chain), c)
        Out(c) == R.out[c]
        avail == IF Len(h.sig.chain) = 0 THEN R.spos ELSE h.sig.chain[Len(h.sig.chain)].pos
    IN  G("C02:blocks have exactly the configured size, except a shorter last one",
            ev.n = Min2(h.block, R.n - R.dpos) /\ ev.n > 0)
        \cup G("C02:output as long as the input", ev.on = ev.n)
        \cup G("C02,C17:configured channel counts", ev.i = h.inch /\ ev.o = h.outch)
        \cup (IF h.inkind = "spy" THEN
                G("C02:only rendered input reaches the DSP", R.dpos + ev.n <= avail)
                \cup G("C02:the DSP receives the input, each frame once, in order",
                        ChansOK(ev.in, h.inch, R.dpos, ev.n, In))
                \cup G("C06:the DSP starts from its initial state and continues", ev.pos = R.dpos)
                \cup G("C03,C06:the DSP works with the configured values",
                        (ev.pos = R.dpos /\ ChansOK(ev.in, h.inch, R.dpos, ev.n, In)) => ChansOK(ev.out, h.outch, R.dpos, ev.n, Out))
              ELSE {})
        \cup G("C03:every value handed over before the first block, after the reset, in the order given",
                Ob(ev.oid).audio \/ Ob(ev.oid).sets = h.values)
        \cup FEnvs(ev, h.dsp.envs, h.sr4)

FProc(ev) ==
    IF s.ren.on THEN
        IF Has(s.sg, s.ren.soid) /\ s.sg[s.ren.soid].known THEN
            LET v == s.sg[s.ren.soid]  ks == ChainIx(v, ev.uid) IN
            G("C07:only attached effects process the signal", ks # {})
            \cup (IF ks = {} THEN {} ELSE LET k == CHOOSE k \in ks : TRUE IN
                    FEffect(ev, v, k, s.ren.hr, s.ren.ch)
                    \cup G("C07:exactly once per block", k \notin s.ren.done /\ ev.n = s.ren.n))
        ELSE {}
    ELSE IF ~ R.on THEN
        IF Has(s.ds, ev.oid) /\ s.ds[ev.oid].known THEN
            G("C05:DSP state is its own", ev.pos = s.ds[ev.oid].pos) \cup FEnvs(ev, s.ds[ev.oid].envs, s.ds[ev.oid].hr) ELSE {}
    ELSE LET role == Role(ev.uid) IN
        FReady(ev, role, ev.n) \cup FNotRefused(ev, role) \cup FRunnable
        \cup (IF role = "dsp" THEN FDsp(ev)
              ELSE IF role = "fx" THEN
                FEffect(ev, [R.h.sig EXCEPT !.pos = R.spos], CHOOSE k \in ChainIx(R.h.sig, ev.uid) : TRUE, R.h.sr4, R.h.inch)
              ELSE {})
UProc(ev) ==
    IF s.ren.on THEN
        IF Has(s.sg, s.ren.soid) /\ s.sg[s.ren.soid].known /\ ChainIx(s.sg[s.ren.soid], ev.uid) # {} THEN
            LET k == CHOOSE k \in ChainIx(s.sg[s.ren.soid], ev.uid) : TRUE IN
            [s EXCEPT !.sg[s.ren.soid] = AdvChain(@, k, ev.n), !.ren.done = @ \cup {k}] ELSE s
    ELSE IF ~ R.on THEN
        IF Has(s.ds, ev.oid) /\ s.ds[ev.oid].known THEN [s EXCEPT !.ds[ev.oid].pos = @ + ev.n, !.ds[ev.oid].envs = AdvEnvs(@, ev.n)] ELSE s
    ELSE LET s1 == [s EXCEPT !.run.ob = Put(@, ev.oid, [Ob(ev.oid) EXCEPT !.audio = TRUE]), !.run.anyAudio = TRUE]
             role == Role(ev.uid)
         IN  IF role = "dsp" THEN [s1 EXCEPT !.run.dpos = @ + ev.n, !.run.h.dsp.envs = AdvEnvs(@, ev.n), !.run.doid = ev.oid]
             ELSE IF role = "fx" THEN LET k == CHOOSE k \in ChainIx(R.h.sig, ev.uid) : TRUE IN [s1 EXCEPT !.run.h.sig = AdvChain(@, k, ev.n)]
             ELSE s1

---------------------------------------------------------------------------
(* Checks. For check i: fed (frames shown), hit (its first mismatch).      *)
CheckIx(uid) == {i \in DOMAIN R.h.checks : R.h.checks[i].m = "spy" /\ R.h.checks[i].uid = uid}
FMatch(ev) ==
    IF ~ R.on THEN {}
    ELSE LET is == CheckIx(ev.uid) IN
    G("C01:only the test's matchers are asked", is # {})
    \cup (IF is = {} THEN {} ELSE
        LET i == CHOOSE i \in is : TRUE
            c == R.h.checks[i]
            Out(ch) == R.out[ch]
        IN  FReady(ev, "mat", ev.n) \cup FRunnable
            \cup G("C01:no checking after a failed assert", R.asrt = 0)
            \cup G("C01,C06:each frame is shown to a matcher once, in order, without gaps", ev.pos = R.chk[i].fed /\ ev.n > 0)
            \cup G("C01:only produced audio is checked", ev.pos + ev.n <= R.dpos)
            \cup G("C01:a matcher that needs the full signal gets it in one piece", c.pb \/ (ev.pos = 0 /\ ev.n = R.n))
            \cup G("C01,C02:the audio that is checked is what the DSP produced",
                    R.h.inkind = "spy" => ChansOK(ev.data, R.h.outch, ev.pos, ev.n, Out)))
UMatch(ev) ==
    IF ~ R.on \/ CheckIx(ev.uid) = {} THEN s
    ELSE LET i == CHOOSE i \in CheckIx(ev.uid) : TRUE
             c == R.h.checks[i]
             hit == IF R.chk[i].hit # <<>> \/ ev.ans THEN R.chk[i].hit ELSE <<ev.pos, ev.ff, ev.fc>>
             fed == ev.pos + ev.n
             failing == IF c.pol THEN ~ ev.ans ELSE hit = <<>> /\ fed = R.n
         IN  [s EXCEPT !.run.chk[i].hit = hit, !.run.chk[i].fed = fed,
                       !.run.chk[i].failed = @ \/ failing,
                       !.run.ob = Put(@, ev.oid, [Ob(ev.oid) EXCEPT !.audio = TRUE]), !.run.anyAudio = TRUE,
                       !.run.asrt = IF failing /\ c.lvl = "assert" /\ @ = 0 THEN i ELSE @,
                       !.run.apos = IF failing /\ c.lvl = "assert" /\ R.asrt = 0 THEN (IF c.pb /\ c.pol /\ ev.n <= R.h.block THEN ev.pos ELSE R.n) ELSE @]

---------------------------------------------------------------------------
(* The host is built and configured.                                       *)
DspOf(oid) == IF Has(s.ds, oid) THEN s.ds[oid]
              ELSE [uid |-> 0, mul |-> 1, add |-> 0, drift |-> 0, pos |-> 0, envs |-> NoFun, ids |-> {}, hr |-> 0, fixed |-> FALSE, known |-> FALSE]
FHost(ev) == LET v == DspOf(ev.oid) IN
    G("C06:a DSP that cannot be copied or moved is reported, a transferred one is taken",
        ev.res = IF v.fixed /\ ev.how # "uptr" THEN "UnsupportedError" ELSE "ok")
UHost(ev) == [s EXCEPT !.host = IF ev.res # "ok" THEN NoHost ELSE NewHost(ev.how, ev.oid, ev.uid, DspOf(ev.oid)),
                       !.ds = IF ev.how = "move" /\ Has(@, ev.oid) THEN [@ EXCEPT ![ev.oid].known = FALSE] ELSE @]

WantCfg(ev) ==
    CASE ev.op = "rate" -> IF ev.v <= 0 THEN "ValueError"
                           ELSE IF Refused(s.host.uid, "rate", 0, 0, ev.v) THEN "SampleRateError" ELSE "ok"
      [] ev.op = "block" -> IF ev.v = 0 THEN "SizeError" ELSE "ok"
      [] ev.op \in {"inch", "outch"} -> IF ev.v = 0 \/ ev.v > 128 THEN "SizeError" ELSE "ok"
      [] ev.op = "dur" -> IF ev.v < 0 THEN "ValueError" ELSE "ok"
      [] OTHER -> "ok"
FCfg(ev) == G("C17:invalid settings are rejected with their documented error, valid ones accepted", ev.res = WantCfg(ev))
UCfg(ev) ==
    IF ~ s.host.on \/ WantCfg(ev) # "ok" THEN s ELSE
    CASE ev.op = "rate" -> [s EXCEPT !.host.sr4 = ev.v]
      [] ev.op = "block" -> [s EXCEPT !.host.block = ev.v]
      [] ev.op = "inch" -> [s EXCEPT !.host.inch = ev.v]
      [] ev.op = "outch" -> [s EXCEPT !.host.outch = ev.v]
      [] ev.op = "stereoIn" -> [s EXCEPT !.host.inch = 2]
      [] ev.op = "stereoOut" -> [s EXCEPT !.host.outch = 2]
      [] ev.op = "monoIn" -> [s EXCEPT !.host.inch = 1]
      [] ev.op = "monoOut" -> [s EXCEPT !.host.outch = 1]
      [] ev.op = "inMono" -> [s EXCEPT !.host.inch = 1, !.host.outch = 1]
      [] ev.op = "inStereo" -> [s EXCEPT !.host.inch = 2, !.host.outch = 2]
      [] ev.op = "dur" -> [s EXCEPT !.host.durn = ev.v, !.host.durd = ev.w]
      [] ev.op = "label" -> [s EXCEPT !.host.label = ev.t]
      [] ev.op = "value" -> [s EXCEPT !.host.values = Append(@, <<ev.v, ev.w>>)]
      [] ev.op = "input" -> IF ev.w # 0 /\ Has(s.sg, ev.w) /\ s.sg[ev.w].known
                            THEN [s EXCEPT !.host.inkind = "spy", !.host.sig = ResetSig(s.sg[ev.w]), !.host.inoid = ev.w, !.host.inuid = ev.v]
                            ELSE [s EXCEPT !.host.inkind = "other", !.host.inoid = ev.w, !.host.inuid = ev.v]
      [] OTHER -> s
UCheck(ev) == IF ~ s.host.on THEN s ELSE
    [s EXCEPT !.host.checks = Append(@, [m |-> ev.m, uid |-> ev.uid, lvl |-> ev.lvl, pol |-> ev.pol, pb |-> ev.pb, fail |-> Range(ev.fail), fch |-> ev.fch])]
FCheck(ev) == G("C17:checks of any matcher can be added", ev.res = "ok")
USave(ev) == IF ~ s.host.on \/ ev.path = "" THEN s ELSE [s EXCEPT !.host.save = [path |-> ev.path, mode |-> ev.mode, fmt |-> ev.fmt]]
UPlot(ev) == IF ~ s.host.on \/ ev.path = "" THEN s ELSE [s EXCEPT !.host.plot = [path |-> ev.path, mode |-> ev.mode, fmt |-> ""]]

---------------------------------------------------------------------------
(* A run.                                                                  *)
LastVal(values, id, dflt) == LET is == {i \in DOMAIN values : values[i][1] = id} IN
    IF is = {} THEN dflt ELSE values[CHOOSE i \in is : \A j \in is : j <= i][2]
OutStream(h, c) ==
    LET p == Stage(h.sig, Len(h.sig.chain), ((c - 1) % h.inch) + 1)
        mul == LastVal(h.values, 0, h.dsp.mul)  add == LastVal(h.values, 1, h.dsp.add)
    IN  << mul * p[1] + add, mul * p[2] + h.dsp.drift >>
URun(ev) ==
    IF ~ s.host.on THEN s ELSE
    LET h == [s.host EXCEPT !.dsp.pos = 0, !.dsp.envs = ResetEnvs(@)] IN
    [s EXCEPT !.run = [on |-> TRUE, key |-> ev.key, h |-> h, n |-> Frames(h), spos |-> 0, dpos |-> 0, ob |-> NoFun, anyAudio |-> FALSE,
                       out |-> IF h.inkind = "spy" THEN [c \in 1 .. h.outch |-> OutStream(h, c)] ELSE <<>>,
                       chk |-> [i \in DOMAIN h.checks |-> [fed |-> 0, hit |-> <<>>, failed |-> FALSE]], asrt |-> 0, apos |-> 0, doid |-> h.oid],
              !.host = NoHost]

\* a request is [path, mode, fmt]; the harness also tells the directory part and the resolved place of each path
Writable(pl) == pl.dir \in s.dirs /\ pl.file \notin s.dirs
HostedRefusal ==
    LET h == R.h
        Ref(uid, i, o) == Refused(uid, "rate", 0, 0, h.sr4) \/ Refused(uid, "layout", i, o, 0)
    IN  \/ h.known /\ Ref(h.uid, h.inch, h.outch)
        \/ h.inkind = "spy" /\ (Ref(h.sig.uid, h.inch, h.inch) \/ \E k \in DOMAIN h.sig.chain : Ref(h.sig.chain[k].uid, h.inch, h.inch))
ForeignRefusal == \E a \in s.asks : Role(a[1]) = "other" /\ ~ a[6] /\ (a[5] = R.h.sr4 \/ (a[2] = "layout" /\ a[3] = R.h.outch /\ a[4] = R.h.outch))
Cond(c) == "M" \o ToString(c.uid) \o "."

\* one report (message or assertion text) about check i
RECURSIVE Decimals(_, _, _, _)
Decimals(q, r, by, d) == IF d = 0 THEN <<q, r>> ELSE Decimals(q * 10 + (r * 10) \div by, (r * 10) % by, by, d - 1)
TimeOK(m, f) ==                           \* printed time m.ts (in units of its last decimal) is the time of frame f
    LET x == 4 * f  e == Decimals(x \div R.h.sr4, x % R.h.sr4, R.h.sr4, s.cli.sec) IN
    \/ m.ts = e[1] /\ 2 * e[2] <= R.h.sr4
    \/ m.ts = e[1] + 1 /\ 2 * e[2] >= R.h.sr4
FReport(m, i) ==
    LET c == R.h.checks[i]  hit == R.chk[i].hit IN
    G("C14:report names the kind of check", m.lvl = c.lvl /\ m.pol = (IF c.pol THEN "T" ELSE "F"))
    \cup G("C14:report shows the label", m.hasLabel = (R.h.label # "") /\ m.label = R.h.label)
    \cup (IF ~ c.pol THEN {} ELSE
        G("C14:report gives channel, frame, time and sample value", m.det)
        \cup (IF ~ m.det \/ hit = <<>> THEN {} ELSE
            G("C14:channel and frame as reported by the matcher", m.ch = hit[3] /\ m.fr = hit[2])
            \cup G("C14:time of the frame from the start of the test", TimeOK(m, hit[1] + hit[2]))
            \cup G("C14,C19:numbers use the configured decimals", m.tsd = s.cli.sec /\ m.svd = s.cli.lin /\ m.dbd = s.cli.db)
            \cup G("C14:sample value at that frame", (R.h.inkind = "spy" /\ hit[3] < R.h.outch) => m.sv = At(R.out[hit[3] + 1], hit[1] + hit[2]))
            \cup G("C14:explanation of the matcher", m.desc = "why" \o ToString(c.uid) \o "/" \o ToString(hit[2]) \o ".")))

Spied == {i \in DOMAIN R.h.checks : R.h.checks[i].m = "spy"}
MsgsOf(ev, i) == {j \in DOMAIN ev.msgs : ev.msgs[j].cond = Cond(R.h.checks[i])}
FullOnly(c) == ~ c.pb \/ ~ c.pol
\* checks that must have been evaluated although an assert ended the test
Earlier(i) ==
    LET c == R.h.checks[i]  a == R.h.checks[R.asrt]  f == {x \in c.fail : x < R.n} IN
    IF c.pb /\ c.pol THEN
        f # {} /\ LET m == CHOOSE x \in f : \A y \in f : x <= y IN
            \/ m < R.apos
            \/ ~ FullOnly(a) /\ i < R.asrt /\ m < R.apos + R.h.block
    ELSE FullOnly(a) /\ i < R.asrt /\ (IF c.pol THEN f # {} ELSE f = {})

Requested(rq, anyFail) == rq.path # "" /\ (rq.mode = "always" \/ (rq.mode = "fails" /\ anyFail))
AnyFail == \E i \in DOMAIN R.chk : R.chk[i].failed
FEnd(ev) ==
    IF ~ R.on THEN {}
    ELSE LET h == R.h
             setupError == R.n = 0 \/ h.inkind = "none" \/ HostedRefusal \/ ForeignRefusal
             allSpied == Spied = DOMAIN h.checks
             ioError == \/ Requested(h.save, AnyFail) /\ ~ Writable(ev.savePlace)
                        \/ Requested(h.plot, AnyFail) /\ ~ Writable(ev.plotPlace)
         IN
    IF setupError THEN
        G("C17:nothing to process is an error", R.n = 0 => ev.res \in HartErrors)
        \cup G("C17:a missing input signal is an error", h.inkind = "none" => ev.res \in HartErrors)
        \cup G("C03:a rejected configuration is reported as an error", HostedRefusal \/ ForeignRefusal => ev.res \in HartErrors)
        \cup G("C17:nothing is run in an erroneous configuration", (R.n = 0 \/ h.inkind = "none") => ~ R.anyAudio)
        \cup G("C01:no check is recorded as failed when nothing was run", ev.msgs = <<>>)
    ELSE
        \* outcome
        (IF R.asrt # 0 THEN
            G("C01:a failed assert ends the test with an assertion failure", ev.res = "TestAssertException" \/ (ioError /\ ev.res = "IOError"))
            \cup (IF ev.res # "TestAssertException" THEN {} ELSE
                    G("C01,C14:the assertion failure names the failed check", ev.exc.cond = Cond(h.checks[R.asrt]))
                    \cup (IF ev.exc.cond = Cond(h.checks[R.asrt]) THEN FReport(ev.exc, R.asrt) ELSE {}))
            \cup G("C01:checks that failed before the failed assert are recorded",
                    \A i \in Spied : (h.checks[i].lvl = "expect" /\ Earlier(i)) => R.chk[i].failed)
         ELSE IF ioError THEN G("C12:a file that cannot be written is reported", ev.res \in HartErrors)
         ELSE IF ~ allSpied THEN
            G("C02,C17:a valid test runs to its end", ev.res \in {"ok", "TestAssertException"})
         ELSE G("C01,C02,C12,C17:a valid test without failing asserts runs to its end", ev.res = "ok"))
        \cup (IF ev.res # "ok" THEN {} ELSE
            G("C01:every check is evaluated over the whole output",
                \A i \in Spied : R.chk[i].fed = R.n \/ R.chk[i].hit # <<>>)
            \cup (IF ~ h.known THEN {} ELSE
                G("C02:the whole output is produced", R.dpos = R.n)
                \cup G("C06:the tested DSP is returned", ev.ret /\ (h.how = "uptr" => ev.roid = h.oid) /\ (h.how \notin {"uptr", "move"} => ev.roid # h.oid)))
            \cup (IF h.inkind # "spy" THEN {} ELSE
                G("C02:the whole input is rendered", R.spos = R.n)
                \cup G("C07:every effect processes the whole signal", \A k \in DOMAIN h.sig.chain : h.sig.chain[k].pos = R.n)))
        \* recorded messages
        \cup (IF ev.res \in {"ok", "TestAssertException"} \/ ioError THEN
            G("C01:exactly one recorded failure per failed expect, none otherwise",
                /\ \A i \in Spied : Cardinality(MsgsOf(ev, i)) = IF R.chk[i].failed /\ h.checks[i].lvl = "expect" THEN 1 ELSE 0
                /\ allSpied => Len(ev.msgs) = Cardinality({i \in Spied : MsgsOf(ev, i) # {}}))
            \cup UNION {UNION {FReport(ev.msgs[j], i) : j \in MsgsOf(ev, i)} : i \in {i \in Spied : R.chk[i].failed /\ h.checks[i].lvl = "expect"}}
          ELSE {})
        \* the same test again
        \cup (IF R.key = "" \/ ~ Has(s.past, R.key) THEN {} ELSE
            G("C06:identical verdicts when run again", s.past[R.key].res = ev.res /\ s.past[R.key].msgs = ev.msgs)
            \cup G("C06:identical audio when run again", s.past[R.key].caps = ev.caps))

UEnd(ev) ==
    IF ~ R.on THEN s ELSE
    [s EXCEPT !.run = NoRun,
              !.last = [on |-> TRUE, h |-> R.h, n |-> R.n, res |-> ev.res, anyFail |-> AnyFail, out |-> R.out, spied |-> Spied = DOMAIN R.h.checks,
                        setup |-> (R.n = 0 \/ R.h.inkind = "none" \/ HostedRefusal \/ ForeignRefusal),
                        savePlace |-> ev.savePlace, plotPlace |-> ev.plotPlace],
              !.past = IF R.key = "" \/ Has(@, R.key) THEN @ ELSE Put(@, R.key, [res |-> ev.res, msgs |-> ev.msgs, caps |-> ev.caps]),
              !.ds = IF ev.ret /\ ev.roid # 0 /\ R.h.known
                     THEN Put(@, ev.roid, [R.h.dsp EXCEPT !.pos = R.dpos, !.hr = R.h.sr4, !.mul = LastVal(R.h.values, 0, @), !.add = LastVal(R.h.values, 1, @), !.known = TRUE])
                     ELSE @]

---------------------------------------------------------------------------
(* Files after a run.                                                      *)
FFiles(ev) ==
    IF ~ s.last.on THEN {}
    ELSE LET l == s.last
             sv == ~ l.setup /\ Requested(l.h.save, l.anyFail)   pl == ~ l.setup /\ Requested(l.h.plot, l.anyFail)
             svw == sv /\ Writable(l.savePlace)                   plw == pl /\ Writable(l.plotPlace)
             trouble == (sv /\ ~ svw) \/ (pl /\ ~ plw)
             want == (IF svw THEN {l.savePlace.file} ELSE {}) \cup (IF plw THEN {l.plotPlace.file} ELSE {})
             got == {ev.changed[i].path : i \in DOMAIN ev.changed}
             At1(p) == {i \in DOMAIN ev.changed : ev.changed[i].path = p}
         IN  IF ~ l.spied THEN {} ELSE
             G("C12:no file is created or changed unless requested", got \subseteq want)
             \cup G("C12:every requested file is written to its place", trouble \/ want \subseteq got)
             \cup UNION {
                LET w == ev.changed[i] IN
                IF svw /\ w.path = l.savePlace.file THEN
                    G("C12:a wav file is written", w.kind = "wav")
                    \cup (IF w.kind # "wav" THEN {} ELSE
                        G("C02,C12:the file holds the complete output", w.frames = l.n /\ w.ch = l.h.outch)
                        \cup G("C11:format as requested", <<w.fmt, w.bits>> = (CASE l.h.save.fmt = "float32" -> <<3, 32>> [] l.h.save.fmt = "pcm16" -> <<1, 16>>
                                                           [] l.h.save.fmt = "pcm32" -> <<1, 32>> [] OTHER -> <<1, 24>>))
                        \cup G("C11:sample rate", w.rate * 4 = l.h.sr4)
                        \cup G("C11:file is well-formed", w.sizes)
                        \cup (IF w.fmt = 3 /\ l.h.inkind = "spy" THEN
                                LET Out(c) == l.out[c] IN
                                G("C02,C12:the file holds exactly the audio the DSP produced", ChansOK(w.data, l.h.outch, 0, l.n, Out))
                              ELSE {}))
                ELSE IF plw /\ w.path = l.plotPlace.file THEN
                    G("C12:a plot is written", w.kind = "svg")
                    \cup G("C18:one line per input and output channel", w.kind = "svg" => w.lines = l.h.inch + l.h.outch)
                ELSE {} : i \in DOMAIN ev.changed}
UFiles(ev) == [s EXCEPT !.last = NoRun]

---------------------------------------------------------------------------
(* Signals and DSPs handled directly.                                      *)
SigKnown(oid) == oid # 0 /\ Has(s.sg, oid) /\ s.sg[oid].known
DspKnown(oid) == oid # 0 /\ Has(s.ds, oid) /\ s.ds[oid].known

UFxb(ev) == [s EXCEPT !.fxp = [on |-> TRUE, doid |-> ev.doid, v |-> DspOf(ev.doid)]]
FFx(ev) == LET v == s.fxp.v IN
    G("C07:effects can be appended", ev.res = IF v.fixed /\ ev.how \notin {"uptr", "rshu", "rvrshu"} THEN "UnsupportedError" ELSE "ok")
UFx(ev) ==
    LET v == s.fxp.v
        s1 == IF ev.how \in {"move"} /\ Has(s.ds, s.fxp.doid) THEN [s EXCEPT !.ds[s.fxp.doid].known = FALSE] ELSE s
    IN  IF ev.res # "ok" \/ ~ SigKnown(ev.soid) THEN s1
        ELSE IF ~ v.known THEN [s1 EXCEPT !.sg[ev.soid].known = FALSE]
        ELSE [s1 EXCEPT !.sg[ev.soid].chain = Append(@, [uid |-> v.uid, mul |-> v.mul, add |-> v.add, drift |-> v.drift,
                                                         pos |-> v.pos, off |-> s.sg[ev.soid].pos - v.pos, envs |-> v.envs])]

FDenv(ev) == IF ~ DspKnown(ev.oid) THEN {} ELSE
    LET v == s.ds[ev.oid]  ok == ev.id \in v.ids IN
    G("C05:envelopes only for parameters that support them", ev.res = IF ok THEN "ok" ELSE "UnsupportedError")
    \cup G("C05:nothing is attached when rejected", ev.has = (ok \/ Has(v.envs, ev.id)))
UDenv(ev) == IF ~ DspKnown(ev.oid) \/ ev.id \notin s.ds[ev.oid].ids THEN s ELSE
    [s EXCEPT !.ds[ev.oid].envs = Put(@, ev.id, [v0 |-> ev.v0, sl |-> ev.slope, len |-> ev.len, er |-> ev.sr4, pos |-> 0])]
FDhas(ev) == IF ~ DspKnown(ev.oid) THEN {} ELSE G("C05:exactly the attached envelopes are there", ev.ans = Has(s.ds[ev.oid].envs, ev.id))

UDcopy(ev) ==                                                   \* copy(), move(), assignments of DSPs
    IF ev.from = ev.to \/ ~ Has(s.ds, ev.from) THEN s ELSE
    LET s1 == [s EXCEPT !.ds = Put(@, ev.to, s.ds[ev.from])] IN
    IF ev.how = "move" THEN [s1 EXCEPT !.ds[ev.from].known = FALSE] ELSE s1
USopy(ev) ==                                                    \* the same for signals
    IF ev.from = ev.to \/ ~ Has(s.sg, ev.from) THEN s ELSE
    LET s1 == [s EXCEPT !.sg = Put(@, ev.to, s.sg[ev.from])] IN
    IF ev.how = "move" THEN [s1 EXCEPT !.sg[ev.from].known = FALSE] ELSE s1

UDreset(ev) == IF ~ DspKnown(ev.oid) THEN s ELSE [s EXCEPT !.ds[ev.oid].pos = 0, !.ds[ev.oid].envs = ResetEnvs(@)]
FOk(ev) == G("C05,C07:valid use of DSPs and signals succeeds", ev.res = "ok")
USreset(ev) == IF ~ SigKnown(ev.soid) THEN s ELSE [s EXCEPT !.sg[ev.soid] = ResetSig(@)]
USprep(ev) == IF ~ SigKnown(ev.soid) THEN s ELSE [s EXCEPT !.sg[ev.soid] = ("hr" :> ev.sr4) @@ @]

USrenb(ev) == [s EXCEPT !.ren = [on |-> TRUE, soid |-> ev.soid, n |-> ev.n, ch |-> ev.ch, rendered |-> FALSE, done |-> {},
                                 hr |-> IF SigKnown(ev.soid) /\ Has(s.sg[ev.soid], "hr") THEN s.sg[ev.soid].hr ELSE 1]]
FSrender(ev) == IF ~ SigKnown(ev.soid) THEN {} ELSE
    LET v == s.sg[ev.soid]
        Out(c) == Stage(v, Len(v.chain), c)
    IN  FOk(ev)
        \cup G("C07:the signal and every effect run once per block", s.ren.rendered /\ s.ren.done = DOMAIN v.chain)
        \cup G("C07:the result is what the last effect produced", (s.ren.rendered /\ v.pos >= ev.n) => ChansOK(ev.out, ev.ch, v.pos - ev.n, ev.n, Out))
USrender(ev) == [s EXCEPT !.ren = NoRender]

FSrepr(ev) == IF ~ SigKnown(ev.soid) THEN {} ELSE LET v == s.sg[ev.soid] IN
    G("C07,C14:description lists the signal and its effects in order",
        ev.names = <<"S" \o ToString(v.uid)>> \o [k \in DOMAIN v.chain |-> "D" \o ToString(v.chain[k].uid)])

---------------------------------------------------------------------------
Fails(ev) ==
    CASE ev.e = "reset" -> FReset(ev) [] ev.e = "prep" -> FPrep(ev) [] ev.e = "set" -> FSet(ev)
      [] ev.e = "render" -> FRender(ev) [] ev.e = "proc" -> FProc(ev) [] ev.e = "match" -> FMatch(ev)
      [] ev.e = "host" -> FHost(ev) [] ev.e = "cfg" -> FCfg(ev) [] ev.e = "check" -> FCheck(ev)
      [] ev.e = "end" -> FEnd(ev) [] ev.e = "files" -> FFiles(ev)
      [] ev.e = "fx" -> FFx(ev) [] ev.e = "denv" -> FDenv(ev) [] ev.e = "dhas" -> FDhas(ev)
      [] ev.e \in {"dprep", "dreset", "dproc", "sprep", "sreset"} -> FOk(ev)
      [] ev.e = "srender" -> FSrender(ev) [] ev.e = "srepr" -> FSrepr(ev)
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "begin" -> S0(s.cli) [] ev.e = "def" -> UDef(ev) [] ev.e = "ask" -> UAsk(ev)
      [] ev.e = "cli" -> S0([sec |-> ev.sec, lin |-> ev.lin, db |-> ev.db])
      [] ev.e = "mkdir" -> [s EXCEPT !.dirs = @ \cup {ev.path}]
      [] ev.e = "reset" -> UReset(ev) [] ev.e = "prep" -> UPrep(ev) [] ev.e = "set" -> USet(ev)
      [] ev.e = "render" -> URender(ev) [] ev.e = "proc" -> UProc(ev) [] ev.e = "match" -> UMatch(ev)
      [] ev.e = "host" -> UHost(ev) [] ev.e = "cfg" -> UCfg(ev) [] ev.e = "check" -> UCheck(ev)
      [] ev.e = "save" -> USave(ev) [] ev.e = "plot" -> UPlot(ev)
      [] ev.e = "run" -> URun(ev) [] ev.e = "end" -> UEnd(ev) [] ev.e = "files" -> UFiles(ev)
      [] ev.e = "fxb" -> UFxb(ev) [] ev.e = "fx" -> UFx(ev) [] ev.e = "denv" -> UDenv(ev)
      [] ev.e \in {"dcopy", "dassign"} -> UDcopy(ev) [] ev.e \in {"scopy", "sassign"} -> USopy(ev)
      [] ev.e = "dreset" -> UDreset(ev) [] ev.e = "sreset" -> USreset(ev) [] ev.e = "sprep" -> USprep(ev)
      [] ev.e = "srenb" -> USrenb(ev) [] ev.e = "srender" -> USrender(ev)
      [] OTHER -> s

\* one observed event
Observe(ev) == s' = Next1(ev) /\ bad' = bad \cup Fails(ev)
=============================================================================
