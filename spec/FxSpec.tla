------------------------------- MODULE FxSpec -------------------------------
(***************************************************************************)
(* C08: stock effects. An effect is its current setting and its attached   *)
(* automation; processing is a pure function of those and the block.       *)
(* Samples go in as n/64 and come out in 1/65536. Linear gains are n/64    *)
(* (exact), levels are half decibels (tables, a few units of tolerance).   *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad
S0 == NoFun

GainKind(k) == k \in {"gaindb", "gainlin"}
Supports(k, i, o) == i = o \/ (GainKind(k) /\ i = 1)
EnvOK(k, id) == GainKind(k) /\ id = 0
NoEnv == [on |-> FALSE, lost |-> FALSE]

\* setting of frame f of the block: delivered automation, attached automation, or the fixed value
AutoAt(e, k) == IF k + 1 < e.len THEN e.v0 + ((e.v1 - e.v0) * (k + 1)) \div e.len ELSE e.v1
Setting(x, ev, f) ==
    IF Has(ev, "env") /\ EnvOK(x.kind, ev.eid) THEN ev.env[f]
    ELSE IF Has(ev, "we") /\ ev.we = 1 /\ x.env.on THEN AutoAt(x.env, x.env.pos + f - 1)
    ELSE x.g

\* linear gains along a ramp are multiples of 1/(64 * len)
LinOut(x, ev, f, v) ==
    IF ~ Has(ev, "env") /\ Has(ev, "we") /\ ev.we = 1 /\ x.env.on
    THEN LET e == x.env  k == e.pos + f - 1  m == Min2(k + 1, e.len)
         IN  v * (16 \div e.len) * (e.v0 * e.len + (e.v1 - e.v0) * m)
    ELSE v * 16 * Setting(x, ev, f)

Lost(x, ev) == ~ (Has(ev, "env") /\ EnvOK(x.kind, ev.eid)) /\ Has(ev, "we") /\ ev.we = 1 /\ x.env.on /\ x.env.lost
SampleOK(x, ev, f, v, y) ==
    CASE Lost(x, ev) -> TRUE
      [] x.kind = "gainlin" -> y = LinOut(x, ev, f, v)
      [] x.kind = "gaindb" -> LET r == Db18(Setting(x, ev, f)) IN IF r = 0 THEN Abs(y) <= Abs(v) \div 4 ELSE Abs(y - (v * r) \div 256) <= 3
      [] x.kind = "clip" -> LET t == Db18(x.g) \div 4  w == v * 1024  sg == IF v < 0 THEN -1 ELSE 1 IN
                            IF Abs(w) <= t - 2 THEN y = w
                            ELSE IF Abs(w) >= t + 2 THEN Abs(y - sg * t) <= 2
                            ELSE Abs(y - w) <= 4

In(ev, c, f) == ev.in[(IF ev.i = ev.oc THEN c - 1 ELSE 0) * ev.n + f]

FProc(ev) ==
    LET x == s[ev.o] IN
    IF ~ x.known THEN {}
    ELSE IF ~ Supports(x.kind, ev.i, ev.oc) THEN G("C08:unsupported channel layouts are rejected", ev.res = "ChannelLayoutError")
    ELSE G("C08:supported layouts are processed", ev.res = "ok")
         \cup (IF ev.res # "ok" THEN {} ELSE
            G("C08:output as long as the input", ev.on = ev.n /\ Len(ev.out) = ev.oc)
            \cup (IF ev.on # ev.n \/ Len(ev.out) # ev.oc THEN {} ELSE
                G("C08:every sample is the documented function of the input sample and the current setting",
                    \A c \in 1 .. ev.oc : \A f \in 1 .. ev.n : SampleOK(x, ev, f, In(ev, c, f), ev.out[c][f]))))

Fails(ev) ==
    CASE ev.e = "fproc" -> FProc(ev)
      [] ev.e = "fsup" -> G("C08:supported layouts are n-to-n, and mono-to-n for gains", ev.ans = Supports(s[ev.o].kind, ev.i, ev.oc))
      [] ev.e = "fenvsup" -> G("C05,C08:automation is supported for the gains only", ev.ans = EnvOK(s[ev.o].kind, ev.id))
      [] ev.e = "fattach" -> G("C05,C08:automation can be attached to the gains only", ev.res = IF EnvOK(s[ev.o].kind, ev.id) THEN "ok" ELSE "UnsupportedError")
      [] ev.e = "fprep" -> G("C08:preparation succeeds", ev.res = "ok")
      [] ev.e = "fget" -> IF ev.id # 0 \/ ~ s[ev.o].known THEN {} ELSE
            G("C08:the current setting is read back",
                IF s[ev.o].kind = "gainlin" THEN ev.ans = s[ev.o].g * 1000 ELSE Abs(ev.ans - Max2(s[ev.o].g, -240) * 32000) <= 2)
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "begin" -> S0
      [] ev.e = "fnew" -> Put(s, ev.o, [kind |-> ev.kind, g |-> IF Has(ev, "dflt") /\ ev.dflt = 1 THEN (IF ev.kind = "gainlin" THEN 64 ELSE 0) ELSE ev.g,
                                        env |-> NoEnv, known |-> TRUE])
      [] ev.e = "fset" -> IF ev.id = 0 THEN [s EXCEPT ![ev.o].g = ev.v] ELSE s
      [] ev.e = "fattach" -> IF ev.res = "ok" THEN [s EXCEPT ![ev.o].env = [on |-> TRUE, v0 |-> ev.v0, v1 |-> ev.v1, len |-> ev.len, pos |-> 0, lost |-> FALSE]] ELSE s
      [] ev.e = "freset" -> IF s[ev.o].env.on /\ ev.we = 1 THEN [s EXCEPT ![ev.o].env.pos = 0, ![ev.o].env.lost = FALSE] ELSE s
      [] ev.e = "fproc" -> IF ~ (Has(ev, "we") /\ ev.we = 1 /\ s[ev.o].env.on) THEN s
                           ELSE IF ev.res # "ok" THEN [s EXCEPT ![ev.o].env.lost = TRUE]       \* whether a rejected block counts is not specified
                           ELSE [s EXCEPT ![ev.o].env.pos = @ + ev.n]
      [] ev.e = "fcopy" -> IF ev.from = ev.to THEN s ELSE
            LET s1 == Put(s, ev.to, s[ev.from]) IN IF ev.how \in {"move", "mctor", "massign"} THEN [s1 EXCEPT ![ev.from].known = FALSE] ELSE s1
      [] OTHER -> s
=============================================================================
