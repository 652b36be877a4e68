------------------------------- MODULE GenSpec ------------------------------
(***************************************************************************)
(* C09: generators as state machines producing one frame after the other.  *)
(* A sine is its phase, a sweep its position, direction and phase, noise a *)
(* function of seed, channel count and frame number only. Values are       *)
(* observed in 10^-6, phases are in 2^-30 turns, h is a digest of the      *)
(* exact bits of a frame over all channels.                                *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad
S0 == [seed |-> "0", o |-> NoFun, ref |-> NoFun, first |-> NoFun]
Two30 == 1073741824
Tonal == {"sine", "sweep", "silence"}

RECURSIVE Log20(_)
Log20(n) == IF n % 2 = 0 THEN 1048576 + Log20(n \div 2) ELSE LogTab[(n + 1) \div 2]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* --------------------------------------------------------------- sweeps
\* number of frames of one pass: round(rate * dn / dd)
SweepLen(p, rate) == (2 * rate * p.dn + p.dd) \div (2 * p.dd)
\* increment of the phase at frame j of a pass, in 2^-30 turns
Inc(p, rate, j0, rev) ==
    LET den == rate * p.dn
        j == IF rev THEN den - j0 * p.dd ELSE j0 * p.dd                 \* portion = j / den
    IN  IF p.f0 = p.f1 THEN MulDiv(Two30, p.f0, rate)
        ELSE IF p.type = "log" THEN
            LET up == p.f1 > p.f0
                m == Log20(Max2(p.f0, p.f1)) - Log20(Min2(p.f0, p.f1))
                e == MulDiv(m, IF up THEN j ELSE den - j, den)          \* octaves above the lower frequency
                f == MulDiv(Min2(p.f0, p.f1) * 16384 * Pow2(e \div 1048576), Exp24(e % 1048576), Two24)
            IN  MulDiv(Two30, f, rate * 16384)
        ELSE LET base == MulDiv(Two30, p.f0, rate)
                 x == MulDiv(Two30, Abs(p.f1 - p.f0), rate)
                 d == MulDiv(x, j, den)
             IN  IF p.f1 > p.f0 THEN base + d ELSE base - d

Phase0(p) == MulDiv(Two30, p.pn % p.pd, p.pd)
Start(x) == [x EXCEPT !.k = 0, !.pos = 0, !.rev = FALSE, !.ph = Phase0(x), !.slack = 0, !.drift = 0,
                      !.silent = (x.kind = "silence" \/ (x.kind = "sweep" /\ SweepLen(x, x.rate) = 0))]

\* state after one more frame
StepF(x) ==
    CASE x.kind = "sine" -> [x EXCEPT !.k = @ + 1]
      [] x.kind = "sweep" /\ ~ x.silent ->
            LET last == x.pos + 1 = SweepLen(x, x.rate)
                now == Inc(x, x.rate, x.pos, x.rev)
            IN  IF last /\ x.loop = 0 THEN [x EXCEPT !.k = @ + 1, !.silent = TRUE]
                ELSE LET pos == IF last THEN 0 ELSE x.pos + 1
                         rev == IF last THEN ~ x.rev ELSE x.rev
                         nxt == Inc(x, x.rate, pos, rev)
                     IN  [x EXCEPT !.k = @ + 1, !.pos = pos, !.rev = rev, !.ph = (@ + now \div 2 + nxt \div 2) % Two30, !.drift = @ + (nxt - now) \div 2, !.slack = @ + 2]
      [] OTHER -> [x EXCEPT !.k = @ + 1]
RECURSIVE StepN(_, _)
StepN(x, n) == IF n = 0 THEN x ELSE IF x.kind # "sweep" \/ x.silent THEN [x EXCEPT !.k = @ + n] ELSE StepN(StepF(x), n - 1)

SineAt(x, k) ==
    LET m == x.fd * x.rate IN Sin6(MulDiv(Two24, x.pn % x.pd, x.pd) + MulDiv(Two24, MulMod(k, x.fn % m, m), m))
\* does the observed value fit the state?
ValueOK(x, v) ==
    CASE x.kind = "noise" -> TRUE
      [] x.kind = "sine" -> Abs(v - SineAt(x, x.k)) <= 8
      [] x.silent -> v = 0
      [] OTHER -> Abs(v - Sin6(x.ph \div 64)) <= (x.slack + Abs(x.drift)) \div 160 + (IF x.type = "log" THEN 400 ELSE 20)
RECURSIVE ValuesOK(_, _, _)
ValuesOK(x, vals, i) == i > Len(vals) \/ (ValueOK(x, vals[i]) /\ ValuesOK(StepF(x), vals, i + 1))

\* --------------------------------------------------------------- streams
Key(x, ch) == CASE x.kind = "noise" -> <<"noise", x.seed, ch>>
                [] x.kind = "sine" -> <<"sine", x.fn, x.fd, x.pn, x.pd, x.rate, ch>>
                [] x.kind = "sweep" -> <<"sweep", x.dn, x.dd, x.f0, x.f1, x.type, x.loop, x.pn, x.pd, x.rate, ch>>
                [] OTHER -> <<"silence", ch>>
Known(key) == IF Has(s.ref, key) THEN s.ref[key] ELSE NoFun
Consistent(r, k, h) == \A i \in DOMAIN h : (k + i - 1) \in DOMAIN r => r[k + i - 1] = h[i]

FRender(ev) ==
    LET x == s.o[ev.o]  key == Key(x, ev.ch) IN
    G("C09:rendering succeeds", ev.res = "ok" /\ ev.on = ev.n)
    \cup (IF ev.res # "ok" \/ ev.on # ev.n THEN {} ELSE
        G("C09:the declared waveform at every frame", ValuesOK(x, ev.vals, 1))
        \cup G("C09:within full scale", ev.unit)
        \cup G("C09:identical on all channels", x.kind \in Tonal => ev.same)
        \cup G("C06,C09:one continuous stream however it is split, copied or reset", Consistent(Known(key), x.k, ev.h))
        \cup (IF x.kind # "noise" \/ x.k # 0 \/ ev.n < 4 THEN {} ELSE
                G("C09:different seeds differ", \A q \in DOMAIN s.first :
                    (q[1] # x.seed /\ q[2] = ev.ch) => s.first[q] # <<ev.h[1], ev.h[2], ev.h[3], ev.h[4]>>)))
URender(ev) ==
    LET x == s.o[ev.o]  key == Key(x, ev.ch) IN
    IF ev.res # "ok" \/ ev.on # ev.n THEN s ELSE
    [s EXCEPT !.o[ev.o] = StepN(x, ev.n),
              !.ref = Put(@, key, [k \in x.k .. (x.k + ev.n - 1) |-> ev.h[k - x.k + 1]] @@ Known(key)),
              !.first = IF x.kind = "noise" /\ x.k = 0 /\ ev.n >= 4 THEN Put(@, <<x.seed, ev.ch>>, <<ev.h[1], ev.h[2], ev.h[3], ev.h[4]>>) ELSE @]

FStat(ev) ==                                                    \* noise only
    G("C09:noise is spread evenly over the range",
        \A c \in DOMAIN ev.st : LET t == ev.st[c] IN
            Abs(t[1]) <= 70 /\ Abs(t[2] - 333) <= 45 /\ Abs(t[3]) <= 110 /\ t[4] >= 980 /\ t[4] <= 1000 /\ Abs(t[5] - 500) <= 60)

Num0(ev, k, d) == IF Has(ev, k) THEN ev[k] ELSE d
Valid(ev) == CASE ev.kind = "sine" -> Num0(ev, "fn", 1000) > 0
             [] ev.kind = "sweep" -> Num0(ev, "dn", 1) >= 0 /\ Num0(ev, "f0", 20) > 0 /\ Num0(ev, "f1", 20000) > 0
             [] OTHER -> TRUE
UNew(ev) == IF ev.res # "ok" THEN s ELSE
    [s EXCEPT !.o = Put(@, ev.o,
        [kind |-> ev.kind, fn |-> Num0(ev, "fn", 1000), fd |-> Num0(ev, "fd", 1), pn |-> Num0(ev, "pn", 0), pd |-> Num0(ev, "pd", 1),
         dn |-> Num0(ev, "dn", 1), dd |-> Num0(ev, "dd", 1), f0 |-> Num0(ev, "f0", 20), f1 |-> Num0(ev, "f1", 20000), type |-> Num0(ev, "type", "log"), loop |-> Num0(ev, "loop", 0),
         seed |-> IF Has(ev, "seed") THEN ToString(ev.seed) ELSE s.seed, rate |-> 0,
         k |-> 0, pos |-> 0, rev |-> FALSE, ph |-> 0, slack |-> 0, drift |-> 0, silent |-> FALSE])]

Fails(ev) ==
    CASE ev.e = "gnew" -> G("C09:exactly the valid parameters are accepted", (ev.res = "ok") = Valid(ev))
      [] ev.e = "sprep" -> G("C09:any configuration is supported", ev.res = "ok" /\ ev.sup)
      [] ev.e = "srender" -> FRender(ev)
      [] ev.e = "stat" -> FStat(ev)
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "begin" -> [S0 EXCEPT !.seed = s.seed]
      [] ev.e = "cli" -> [S0 EXCEPT !.seed = ev.seed]
      [] ev.e = "gnew" -> UNew(ev)
      [] ev.e = "sprep" -> LET x == [s.o[ev.o] EXCEPT !.rate = ev.rate] IN [s EXCEPT !.o[ev.o] = IF x.k = 0 THEN Start(x) ELSE x]
      [] ev.e = "sreset" -> IF s.o[ev.o].rate = 0 THEN s ELSE [s EXCEPT !.o[ev.o] = Start(@)]
      [] ev.e = "scopy" -> [s EXCEPT !.o = Put(@, ev.to, s.o[ev.from])]
      [] ev.e = "srender" -> URender(ev)
      [] ev.e \in {"skip", "stat"} -> [s EXCEPT !.o[ev.o] = StepN(@, ev.n)]
      [] OTHER -> s
=============================================================================
