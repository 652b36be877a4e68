------------------------------- MODULE EnvSpec ------------------------------
(***************************************************************************)
(* C04: segmented envelopes. The declared curve is a function of time      *)
(* alone; an envelope object is that curve and the number of frames it has *)
(* rendered since its start. Rendering frame k yields the curve at time    *)
(* (k+1)/rate, whatever the blocks, copies and resets before.              *)
(* Values are observed in 1/4096, times are rationals: segment boundaries  *)
(* in ticks of 1/D s, frames in 1/rate s.                                  *)
(***************************************************************************)
EXTENDS Num

\* segment: [kind, a, b, beg, d]: value a at tick beg, b at tick beg + d
EndVal(e) == IF e.segs = <<>> THEN e.v0 ELSE e.segs[Len(e.segs)].b
EndTick(e) == IF e.segs = <<>> THEN 0 ELSE LET g == e.segs[Len(e.segs)] IN g.beg + g.d

AddSeg(e, kind, to, d) ==
    [e EXCEPT !.segs = Append(@, [kind |-> kind, a |-> EndVal(e), b |-> IF kind = "hold" THEN EndVal(e) ELSE to, beg |-> EndTick(e), d |-> d])]

\* 2^20 * log2 of a small natural number
RECURSIVE Log20(_)
Log20(n) == IF n % 2 = 0 THEN 1048576 + Log20(n \div 2) ELSE LogTab[(n + 1) \div 2]
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* value * 4096 of segment g at the fraction num/den of its duration
SegQ(g, num, den) ==
    LET x == Abs(g.b - g.a) * 4096  sg == IF g.b < g.a THEN -1 ELSE 1  base == g.a * 4096
    IN  CASE g.kind = "hold" -> base
          [] g.kind = "lin" -> base + sg * MulDiv(x, num, den)
          [] g.kind = "s" ->
                LET t2 == MulDiv(MulDiv(16 * x, num, den), num, den)  t3 == MulDiv(t2, num, den)
                IN  base + sg * ((3 * t2 - 2 * t3) \div 16)
          [] g.kind = "exp" ->
                LET s0 == IF g.a < 0 THEN -1 ELSE 1
                    lo == Min2(Abs(g.a), Abs(g.b))
                    up == Abs(g.b) >= Abs(g.a)
                    m == Log20(Max2(Abs(g.a), Abs(g.b))) - Log20(lo)
                    ex == MulDiv(m, IF up THEN num ELSE den - num, den)
                IN  s0 * MulDiv(lo * 4096 * Pow2(ex \div 1048576), Exp24(ex % 1048576), Two24)

\* value * 4096 of the declared curve at frame k
RECURSIVE CurveFrom(_, _, _)
CurveFrom(e, j, k) ==
    IF j > Len(e.segs) THEN EndVal(e) * 4096
    ELSE LET g == e.segs[j]  now == (k + 1) * e.D
         IN  IF now < (g.beg + g.d) * e.rate THEN SegQ(g, now - g.beg * e.rate, g.d * e.rate) ELSE CurveFrom(e, j + 1, k)
CurveQ(e, k) == CurveFrom(e, 1, k)
Tol(e) == 4

---------------------------------------------------------------------------
VARIABLES s, bad
S0 == NoFun                                                     \* envelope objects by name

FRender(ev) ==
    LET e == s[ev.o]
        wrong == {i \in 1 .. ev.n : Abs(ev.vals[i] - CurveQ(e, e.k + i - 1)) > Tol(e)}
    IN  G("C04:rendering succeeds", ev.res = "ok")
        \cup G("C04:as many values as requested", ev.size = ev.n)
        \cup (IF ev.size # ev.n \/ ev.res # "ok" \/ ~ e.known THEN {} ELSE
                G("C04:value of the declared curve at every frame", wrong = {}))

Fails(ev) ==
    CASE ev.e = "erender" -> FRender(ev)
      [] ev.e = "eprep" -> G("C04:sample rates are positive", (ev.res = "ok") = (ev.rate > 0))
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "begin" -> S0
      [] ev.e = "enew" -> Put(s, ev.o, [v0 |-> ev.v0, segs |-> <<>>, k |-> 0, rate |-> 44100, D |-> 1, known |-> TRUE])
      [] ev.e = "eseg" -> [s EXCEPT ![ev.o] = AddSeg([@ EXCEPT !.D = ev.D], ev.kind, IF ev.kind = "hold" THEN 0 ELSE ev.to, ev.d)]
      [] ev.e = "eprep" -> IF ev.rate <= 0 THEN s
                           ELSE [s EXCEPT ![ev.o] = [@ EXCEPT !.rate = ev.rate, !.known = @ /\ (s[ev.o].k = 0 \/ s[ev.o].rate = ev.rate)]]
      [] ev.e = "ereset" -> [s EXCEPT ![ev.o] = [@ EXCEPT !.k = 0, !.known = TRUE]]
      [] ev.e = "ecopy" -> Put(s, ev.to, s[ev.from])
      [] ev.e = "erender" -> [s EXCEPT ![ev.o].k = @ + ev.n]
      [] OTHER -> s
=============================================================================
