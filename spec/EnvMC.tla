-------------------------------- MODULE EnvMC -------------------------------
(***************************************************************************)
(* The step-by-step algorithm of SegmentedEnvelope (time within the current *)
(* segment, segment index, value at its beginning), checked against the     *)
(* declared curve of EnvSpec for every list of segments and every history   *)
(* of rendering, resetting, re-preparing and copying within the bounds.     *)
(* Time is counted in units of 1/(rate * D) s, all rates dyadic.            *)
(***************************************************************************)
EXTENDS EnvSpec
CONSTANTS Depth, MaxSegs, Durs, Targets, Kinds, D, Rates, Bug
VARIABLES im, script, ops
S2(n) == ToString(n)
RateUnit == CHOOSE m \in Rates : \A r \in Rates : m >= r        \* durations are counted at the highest rate

\* im[o] = [segs: sequence of [kind, b, d], v0, end, idx, now, beg, val, rate]; now in units of 1/(rate*D)
Obj(v0) == [segs |-> <<>>, v0 |-> v0, end |-> v0, idx |-> 1, now |-> 0, beg |-> 4096 * v0, val |-> 4096 * v0, rate |-> 0]
Dur(x, g) == g.d * x.rate
Value(x, g) == SegQ([kind |-> g.kind, a |-> IF x.beg % 4096 = 0 THEN x.beg \div 4096 ELSE (x.beg + 2048) \div 4096, b |-> g.b, beg |-> 0, d |-> g.d], x.now, Dur(x, g))
RECURSIVE Find(_)
Find(x) ==
    IF x.idx > Len(x.segs) THEN [x EXCEPT !.val = 4096 * x.end]
    ELSE LET g == x.segs[x.idx] IN
         IF x.now < Dur(x, g) \/ (Bug = "le" /\ x.now = Dur(x, g) /\ x.now > 0 /\ g.kind = "hold")
         THEN [x EXCEPT !.val = IF g.kind = "hold" THEN 4096 * g.b ELSE Value(x, g)]
         ELSE LET y == [x EXCEPT !.now = IF Bug = "zerotime" THEN 0 ELSE @ - Dur(x, g), !.idx = @ + 1,
                                 !.beg = IF Bug = "beginvalue" THEN x.val ELSE 4096 * g.b]
              IN  IF Bug = "onestep" THEN [y EXCEPT !.val = 4096 * g.b] ELSE Find(y)
Advance(x) == Find([x EXCEPT !.now = @ + D])
RECURSIVE Render(_, _)
Render(x, n) == IF n = 0 THEN [x |-> x, vals |-> <<>>] ELSE LET y == Advance(x)  r == Render(y, n - 1) IN [x |-> r.x, vals |-> <<y.val>> \o r.vals]
Reset(x) == [x EXCEPT !.now = 0, !.idx = 1, !.beg = IF Bug = "norestart" THEN @ ELSE 4096 * x.v0, !.val = 4096 * x.v0]

Do(ev, t) == s' = Next1(ev) /\ bad' = bad \cup Fails(ev) /\ script' = Append(script, t)
MInit == im = NoFun /\ script = <<>> /\ ops = 0 /\ s = S0 /\ bad = {}
Declare ==
    \/ ops = 0 /\ ops' = 1 /\ im' = Put(im, 1, Obj(1)) /\ Do([e |-> "enew", o |-> 1, v0 |-> 1], "enew o=1 v0=1")
    \/ /\ ops = 1 /\ Len(im[1].segs) < MaxSegs /\ ops' = 1
       /\ \E k \in Kinds, d \in Durs, b \in Targets :
            /\ k = "hold" => b = CHOOSE x \in Targets : TRUE
            /\ LET to == IF k = "hold" THEN im[1].end ELSE b IN
               im' = [im EXCEPT ![1].segs = Append(@, [kind |-> k, b |-> to, d |-> d]), ![1].end = to]
            /\ Do([e |-> "eseg", o |-> 1, kind |-> k, to |-> b, d |-> d, D |-> D], "eseg o=1 kind=" \o k \o (IF k = "hold" THEN "" ELSE " to=" \o S2(b)) \o " d=" \o S2(d) \o " D=" \o S2(D))
    \/ ops = 1 /\ ops' = 2 /\ \E r \in Rates : im' = [im EXCEPT ![1].rate = r] /\ Do([e |-> "eprep", o |-> 1, rate |-> r, res |-> "ok"], "eprep o=1 rate=" \o S2(r))
Act(i) ==
    \/ \E n \in {1, 2} : LET r == Render(im[i], n) IN
        /\ im' = [im EXCEPT ![i] = r.x]
        /\ Do([e |-> "erender", o |-> i, n |-> n, res |-> "ok", size |-> n, vals |-> r.vals], "erender o=" \o S2(i) \o " n=" \o S2(n) \o " form=out")
    \/ im' = [im EXCEPT ![i] = Reset(@)] /\ Do([e |-> "ereset", o |-> i], "ereset o=" \o S2(i))
    \/ /\ i = 1 /\ DOMAIN im = {1} /\ im' = Put(im, 2, IF Bug = "copyrewinds" THEN Reset(im[1]) ELSE im[1])
       /\ Do([e |-> "ecopy", from |-> 1, to |-> 2], "ecopy from=1 to=2 how=copy")
MNext == \/ Declare /\ UNCHANGED <<>>
         \/ /\ ops >= 2 /\ ops < 2 + Depth /\ ops' = ops + 1
            /\ \E i \in DOMAIN im : Act(i)
            /\ (ops + 1 = 2 + Depth /\ Bug = "none") => PrintT("@@ " \o ToString(script'))
MSpec == MInit /\ [][MNext]_<<s, bad, im, script, ops>>
Sound == bad = {}
=============================================================================
