------------------------------- MODULE MatSpec ------------------------------
(***************************************************************************)
(* C13 (and the numbers of C14): stock matchers. A matcher is its condition *)
(* and, for EqualsTo, the position of its reference signal. Samples are     *)
(* exact fractions code / den.                                              *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad
S0 == [lin |-> 6, db |-> 1, m |-> NoFun]
NaNCode == 2000000001
InfCode == 2000000002
Num0(ev, k, d) == IF Has(ev, k) THEN ev[k] ELSE d
Finite(d) == Abs(d) < 2000000000

\* ------------------------------------------------------- the audio of an event
At(ev, c, f) == ev.data[c * ev.n + f + 1]
Places(ev) == (0..(ev.ch - 1)) \X (0..(ev.n - 1))
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* tolerance in 1/den, rounded down; negative tn means the default of that matcher
Tol(x, den) == IF x.tn < 0 THEN (IF x.kind = "eq" THEN MulDiv(1, den, 100000) ELSE MulDiv(1, den, 1000)) ELSE MulDivR(x.tn, den, x.td)[1]

\* ------------------------------------------------------- EqualsTo
Ref(x, ev, c, f) == (x.base + (x.pos + f) * x.a + c * x.b) * x.gain * (ev.den \div 64)
Differs(x, ev, c, f) == LET d == At(ev, c, f) IN ~ Finite(d) \/ Abs(d - Ref(x, ev, c, f)) > Tol(x, ev.den)
\* ------------------------------------------------------- peaks
Mag(d) == IF d = NaNCode THEN NaNCode ELSE Abs(d)
Peak(ev) == LET all == {Mag(ev.data[i]) : i \in DOMAIN ev.data} IN
            IF NaNCode \in all THEN NaNCode ELSE IF all = {} THEN 0 ELSE CHOOSE v \in all : \A w \in all : v >= w
\* level of h half decibels in 1/den: exact at and below these
Level(h, den) == IF h = 0 THEN den ELSE IF den <= 262144 THEN Db18(h) \div (262144 \div den) ELSE Db18(h) * (den \div 262144)
Fuzz(h, den) == IF h = 0 \/ h < -240 THEN 0 ELSE IF den <= 262144 THEN 1 ELSE 2 * (den \div 262144)
\* three-valued: "y", "n" or "?" where our arithmetic cannot tell
Sure(dist, tol, fuzz) == IF dist <= tol - fuzz THEN "y" ELSE IF dist > tol + fuzz THEN "n" ELSE IF fuzz = 0 THEN (IF dist <= tol THEN "y" ELSE "n") ELSE "?"
PeakVerdict(x, ev) == LET p == Peak(ev) IN IF ~ Finite(p) THEN "n" ELSE Sure(Abs(p - Level(x.h, ev.den)), Tol(x, ev.den), Fuzz(x.h, ev.den))
OverVerdict(x, ev, d) == IF ~ Finite(d) THEN "n" ELSE Sure(Abs(d) - Level(x.h, ev.den), Tol(x, ev.den), Fuzz(x.h, ev.den))     \* "n": it exceeds the threshold

Verdict(x, ev) ==
    CASE x.kind = "eq" -> IF \E p \in Places(ev) : Differs(x, ev, p[1], p[2]) THEN "n" ELSE "y"
      [] x.kind = "at" -> PeakVerdict(x, ev)
      [] OTHER -> LET v == {OverVerdict(x, ev, ev.data[i]) : i \in DOMAIN ev.data} IN IF "n" \in v THEN "n" ELSE IF "?" \in v THEN "?" ELSE "y"

\* the place a failure has to be reported at
PlaceOK(x, ev) ==
    LET p == <<ev.fc, ev.ff>> IN
    /\ p \in Places(ev)
    /\ CASE x.kind = "eq" -> /\ Differs(x, ev, p[1], p[2])
                             /\ \A q \in Places(ev) : Before(q, p) => ~ Differs(x, ev, q[1], q[2])
         [] x.kind = "at" -> Mag(At(ev, p[1], p[2])) = Peak(ev)
         [] OTHER -> /\ OverVerdict(x, ev, At(ev, p[1], p[2])) # "y"
                     /\ \A q \in Places(ev) : Before(q, p) => OverVerdict(x, ev, At(ev, q[1], q[2])) # "n"

\* ------------------------------------------------------- numbers in the text
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
HalfStep(dec) == IF dec >= 6 THEN 1 ELSE Pow10(6 - dec) \div 2 + 1
\* 2^24 * 10^(x / 20), x in 10^-6 dB
RECURSIVE Shift(_, _)
Shift(v, n) == IF n = 0 THEN v ELSE IF n > 0 THEN Shift(2 * v, n - 1) ELSE Shift(v \div 2, n + 1)
Ratio24(x) == LET e == IF x >= 0 THEN MulDiv(x, 174165, 1000000) ELSE -MulDiv(-x, 174165, 1000000) - 1
              IN  Shift(Exp24(e % 1048576), e \div 1048576)
\* a shown linear value: code / den
LinOK(num, code, den) ==
    CASE ~ Finite(code) -> num[1] = code
      [] Abs(code) \div den >= 100 -> TRUE
      [] OTHER -> Abs(num[1] - (IF code >= 0 THEN MulDiv(code, 1000000, den) ELSE -MulDiv(-code, 1000000, den))) <= HalfStep(num[2]) + 2
DbOK(num, code, den) ==
    LET a == Mag(code) IN
    CASE ~ Finite(a) -> num[1] = a
      [] a \div den >= 100 -> TRUE
      [] MulDiv(a, 1000000, den) < 1 -> num[1] = -120000000
      [] OTHER -> LET v == MulDiv(a, 16777216, den) h == HalfStep(num[2]) + 30 IN
                  num[1] < 42000000 /\ num[1] > -121000000 /\ v >= Ratio24(num[1] - h) - 2 /\ v <= Ratio24(num[1] + h) + 2
NumsOK(x, ev) ==
    LET d == At(ev, ev.fc, ev.ff) IN
    CASE x.kind = "eq" ->
            LET r == Ref(x, ev, ev.fc, ev.ff)
                df == IF d = NaNCode THEN NaNCode ELSE IF ~ Finite(d) THEN InfCode ELSE Abs(d - r) IN
            /\ Len(ev.nums) = 4
            /\ LinOK(ev.nums[1], r, ev.den) /\ DbOK(ev.nums[2], r, ev.den) /\ LinOK(ev.nums[3], df, ev.den) /\ DbOK(ev.nums[4], df, ev.den)
            /\ \A i \in 1..4 : Finite(ev.nums[i][1]) => ev.nums[i][2] = IF i % 2 = 1 THEN s.lin ELSE s.db
      [] OTHER -> /\ Len(ev.nums) = 1 /\ DbOK(ev.nums[1], d, ev.den)
                  /\ Finite(ev.nums[1][1]) => ev.nums[1][2] = s.db

FMatch(ev) ==
    LET x == s.m[ev.o] v == Verdict(x, ev) IN
    IF x.kind = "eq" /\ x.pos < 0 THEN {}
    ELSE G("C13:matching raises no error", ev.res = "ok")
         \cup (IF ev.res # "ok" THEN {} ELSE
            G("C13:" \o x.kind \o " passes exactly when its condition holds", v = "?" \/ ev.ans = (v = "y"))
            \cup (IF ev.ans \/ v = "y" THEN {} ELSE
                G("C13:" \o x.kind \o " reports an offending sample", PlaceOK(x, ev))
                \cup (IF ~ PlaceOK(x, ev) THEN {} ELSE G("C14:" \o x.kind \o " describes the failure with the right values", NumsOK(x, ev)))))

Fails(ev) ==
    CASE ev.e = "mmatch" -> FMatch(ev)
      [] ev.e = "mper" -> G("C13,C03:full-signal and per-block matchers", ev.ans = (s.m[ev.o].kind # "at"))
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "cli" -> [s EXCEPT !.lin = ev.lin, !.db = ev.db]
      [] ev.e = "begin" -> [s EXCEPT !.m = NoFun]
      [] ev.e = "mnew" -> [s EXCEPT !.m = Put(@, ev.o, [kind |-> ev.kind, base |-> Num0(ev, "base", 0), a |-> Num0(ev, "a", 0), b |-> Num0(ev, "b", 0),
                                gain |-> IF Num0(ev, "gain", 0) = 0 THEN 1 ELSE ev.gain, h |-> Num0(ev, "db", 0), tn |-> Num0(ev, "tn", -1), td |-> Num0(ev, "td", 1),
                                pos |-> IF Num0(ev, "adv", 0) = 0 THEN 0 ELSE -1])]
      [] ev.e = "mreset" -> [s EXCEPT !.m[ev.o].pos = 0]
      [] ev.e = "mcopy" -> [s EXCEPT !.m = Put(@, ev.to, s.m[ev.from])]
      [] ev.e = "mmatch" -> [s EXCEPT !.m[ev.o].pos = IF @ < 0 THEN @ ELSE @ + ev.n]
      [] OTHER -> s
=============================================================================
