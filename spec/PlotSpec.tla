------------------------------ MODULE PlotSpec ------------------------------
(***************************************************************************)
(* C18: a plot is two panes (input above output) of lines, one per channel; *)
(* a line is a function of time. v[k] are bounds (10^-4) of what the line    *)
(* shows at the time of frame k - 1; they allow for the resolution of the    *)
(* picture. t0 and t1 are the ends of the line in 10^-5 s.                   *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad
S0 == [none |-> 0]
Num0(ev, k, d) == IF Has(ev, k) THEN ev[k] ELSE d

\* the audio, in 1/64
InCode(ev, f, c) == CASE Num0(ev, "quiet", 0) = 1 -> 0
                      [] Num0(ev, "quiet", 0) = 2 -> IF c = 0 /\ f = 1 THEN 5 ELSE 0
                      [] OTHER -> (((f * 7 + c * 3 + ev.seed) % 129) - 64) * Num0(ev, "mul", 1)
OutCode(ev, f, c) == InCode(ev, f, c % ev.ic) * ev.g + c * ev.add
InBounds(b, code) == LET v == (code * 10000) \div 64 IN b[1] <= v + 1 /\ b[2] >= v

\* does a line show this channel?
Span(ev) == MulDiv(ev.n - 1, 100000, ev.rate)
Slack(ev) == Span(ev) \div 20000 + 3
Shows(line, ev, code(_)) ==
    /\ line.fin /\ Len(line.v) = ev.n
    /\ \A f \in 0..(ev.n - 1) : InBounds(line.v[f + 1], code(f))
Whole(line, ev) == line.fin /\ Abs(line.t0) <= Slack(ev) /\ Abs(line.t1 - Span(ev)) <= Slack(ev)

Pane(ev, name, lines, chans, code(_, _)) ==
    G("C18:one line per " \o name \o " channel", Len(lines) = chans)
    \cup G("C18:every " \o name \o " line spans the test from time zero", \A i \in DOMAIN lines : Whole(lines[i], ev))
    \cup G("C18:every " \o name \o " channel is shown with its samples at their times",
           \A c \in 0..(chans - 1) : \E i \in DOMAIN lines : Shows(lines[i], ev, LAMBDA f : code(f, c)))
    \cup G("C18:every " \o name \o " line shows a channel",
           \A i \in DOMAIN lines : \E c \in 0..(chans - 1) : Shows(lines[i], ev, LAMBDA f : code(f, c)))

Fails(ev) ==
    IF ev.e # "plot" THEN {} ELSE
    G("C18:the plot is written", ev.res = "ok" /\ ev.file)
    \cup (IF ev.res # "ok" \/ ~ ev.file THEN {} ELSE
        G("C18:a pane for the input and one for the output", Len(ev.panes) = 2)
        \cup (IF Len(ev.panes) # 2 THEN {} ELSE
            Pane(ev, "input", ev.panes[1], ev.ic, LAMBDA f, c : InCode(ev, f, c))
            \cup Pane(ev, "output", ev.panes[2], ev.oc, LAMBDA f, c : OutCode(ev, f, c))))
Next1(ev) == s
=============================================================================
