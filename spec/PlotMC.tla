------------------------------- MODULE PlotMC -------------------------------
(***************************************************************************)
(* Implementation-shaped model of how a plot comes about, judged by         *)
(* PlotSpec and replayed in the real code: blocks are collected into the    *)
(* full input and output buffers (or these are given directly), a pane per  *)
(* buffer gets the range of its axis from the peak, and a line per channel  *)
(* whose time grows by 1 / rate with each frame.                            *)
(***************************************************************************)
EXTENDS PlotSpec, MCUtil
CONSTANTS Wide, Bug
VARIABLES pc, q, script, b, full, p      \* p: parameters, b: blocks done, full: collected audio

Ins(f, c) == InCode(p, f, c)
\* one block of frames [at, at + m): what the DSP makes of it, per channel
OutOf(in, oc) == [c \in 1..oc |-> [f \in DOMAIN in[1] |-> in[((c - 1) % Len(in)) + 1][f] * p.g + (c - 1) * p.add]]
BlockIn(at, m) == [c \in 1..p.ic |-> [f \in 1..m |-> Ins(at + f - 1, c - 1)]]
App(a, x) == [c \in DOMAIN a |-> a[c] \o x[c]]
Size == IF p.how = "direct" THEN p.n ELSE p.block

Code4(v) == (v * 10000) \div 64
\* line of a channel: points [t (in frames), v]; what it shows at the time of each frame of the test
T5(k) == MulDiv(k, 100000, p.rate)
Line(chan, late) ==
    LET m == Len(chan)
        shown(f) == IF f < late \/ f - late >= m THEN <<1, 0>> ELSE <<Code4(chan[f - late + 1]), Code4(chan[f - late + 1]) + 1>>
    IN  [fin |-> m > 0, t0 |-> IF m = 0 THEN -1 ELSE T5(late), t1 |-> IF m = 0 THEN -1 ELSE T5(late + m - 1), v |-> [f \in 1..p.n |-> shown(f - 1)]]
Peak(chans) == LET vs == UNION {{Abs(v) : v \in Range(chans[c])} : c \in DOMAIN chans} IN IF vs = {} THEN 0 ELSE CHOOSE v \in vs : \A w \in vs : v >= w
Cut(chan) == IF Bug = "lastframe" /\ Len(chan) > 1 THEN SubSeq(chan, 1, Len(chan) - 1) ELSE IF Bug = "onlylast" /\ p.how = "host" /\ p.n > p.block THEN SubSeq(chan, 1, p.block) ELSE chan
PaneOf(chans, which) ==
    LET count == CASE Bug = "firstonly" -> 1 [] Bug = "outcount" -> Min2(Len(chans), p.oc) [] Bug = "atmost2" -> Min2(2, Len(chans)) [] OTHER -> Len(chans)
        src(c) == IF Bug = "samechannel" /\ which = "out" THEN 1 ELSE c
        late == IF Bug = "latestart" THEN 1 ELSE 0
        line(c) == LET l == Line(Cut(chans[src(c)]), late) IN
                   IF Bug = "flatsilent" /\ Peak(chans) = 0 THEN [l EXCEPT !.fin = FALSE]
                   ELSE IF Bug = "timegoeson" THEN [l EXCEPT !.t0 = @ + T5((c - 1) * p.n), !.t1 = @ + T5((c - 1) * p.n)] ELSE l
        all == [c \in 1..count |-> line(c)]
    IN  IF Bug = "skipsilent" THEN SelectSeq(all, LAMBDA l : \E k \in DOMAIN l.v : l.v[k] # <<0, 1>>) ELSE all
Ev == [e |-> "plot", how |-> p.how, n |-> p.n, rate |-> p.rate, ic |-> p.ic, oc |-> p.oc, seed |-> p.seed, mul |-> p.mul, g |-> p.g, add |-> p.add, block |-> p.block,
       quiet |-> p.quiet, fails |-> p.fails, res |-> IF p.fails = 1 THEN "ok" ELSE "ok", file |-> ~ (Bug = "notonfail" /\ p.fails = 1 /\ p.how = "host"),
       panes |-> LET i == PaneOf(full.in, "in")  o == PaneOf(full.out, "out") IN
                 CASE Bug = "swapped" -> <<o, i>> [] Bug = "onepane" -> <<i \o o>> [] OTHER -> <<i, o>>]
Text == "plot how=" \o p.how \o " n=" \o S2(p.n) \o " rate=" \o S2(p.rate) \o " ic=" \o S2(p.ic) \o " oc=" \o S2(p.oc) \o " seed=" \o S2(p.seed) \o " mul=" \o S2(p.mul)
        \o " g=" \o S2(p.g) \o " add=" \o S2(p.add) \o " block=" \o S2(p.block) \o " quiet=" \o S2(p.quiet) \o " fails=" \o S2(p.fails)

Params == [how : {"direct", "host"}, n : IF Wide THEN {2, 3, 4, 9} ELSE {2, 5}, rate : IF Wide THEN {4, 8, 10} ELSE {8}, ic : 1..3, oc : 1..3, seed : {0, 60}, mul : {1},
           g : IF Wide THEN {-1, 0, 1, 2} ELSE {0, -2}, add : {0, 70}, block : IF Wide THEN {1, 2, 3, 100} ELSE {2, 100}, quiet : 0..2, fails : {0, 1}]
\* what makes no difference is fixed
Sensible(x) == /\ (x.how = "direct" => x.block = 100 /\ x.fails = 0)
               /\ (x.quiet # 0 => x.seed = 0)
               /\ (~ Wide => (x.fails = 1 => x.block = 2 /\ x.ic = 1))
NoP == [how |-> "none", n |-> 0, ic |-> 0, oc |-> 0]
MInit == pc = "start" /\ q = <<>> /\ script = <<>> /\ b = 0 /\ full = [in |-> <<>>, out |-> <<>>] /\ p = NoP /\ s = S0 /\ bad = {}
Start == /\ pc = "start" /\ p' \in {x \in Params : Sensible(x)}
         /\ full' = [in |-> [c \in 1..p'.ic |-> <<>>], out |-> [c \in 1..p'.oc |-> <<>>]] /\ pc' = "run" /\ b' = 0 /\ UNCHANGED <<q, script, s, bad>>
Block == /\ pc = "run" /\ b < p.n
         /\ LET m == Min2(Size, p.n - b)
                in == BlockIn(b, m)
                out == OutOf(in, p.oc)
            IN full' = [in |-> App(full.in, IF Bug = "inplace" THEN [c \in 1..p.ic |-> IF c <= p.oc THEN out[c] ELSE in[c]] ELSE in),
                        out |-> IF Bug = "droptail" /\ m < Size THEN full.out ELSE App(full.out, out)]
         /\ b' = b + Size /\ UNCHANGED <<pc, q, script, p, s, bad>>
Draw == /\ pc = "run" /\ b >= p.n /\ pc' = "end"
        /\ bad' = bad \cup Fails(Ev) /\ s' = Next1(Ev) /\ script' = <<Text>>
        /\ Bug = "none" => PrintT("@@ " \o ToString(script'))
        /\ UNCHANGED <<q, b, full, p>>
MSpec == MInit /\ [][Start \/ Block \/ Draw]_<<s, bad, pc, q, script, b, full, p>>
Sound == bad = {}
=============================================================================
