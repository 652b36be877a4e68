------------------------------- MODULE BufSpec ------------------------------
(***************************************************************************)
(* C16: audio buffers. A buffer is a fixed number of channels, each the same *)
(* number of samples. Observed after every operation through all accessors. *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad
S0 == [b |-> NoFun]                                             \* object -> [ch, n, d: channels of samples]
Num0(ev, k, d) == IF Has(ev, k) THEN ev[k] ELSE d

Zeros(ch, n) == [ch |-> ch, n |-> n, d |-> [c \in 1..ch |-> [f \in 1..n |-> 0]]]
Cleared(x) == Zeros(x.ch, 0)
Appended(x, y) == [x EXCEPT !.n = @ + y.n, !.d = [c \in 1..x.ch |-> x.d[c] \o y.d[c]]]
MaxAbs(q) == LET m == {Abs(q[i]) : i \in DOMAIN q} IN IF m = {} THEN 0 ELSE CHOOSE v \in m : \A w \in m : v >= w

SameChannels(ev) == s.b[ev.o].ch = s.b[ev.p].ch
RangeOK(x, ev) == ev.n > 0 /\ ev.from >= 0 /\ ev.from <= x.n /\ ev.n <= x.n - ev.from      \* negative numbers stand for wrapped ones
MagOK(x, ev) == RangeOK(x, ev) /\ (Has(ev, "c") => ev.c >= 0 /\ ev.c < x.ch)
MagOf(x, ev) == LET part(c) == SubSeq(x.d[c], ev.from + 1, ev.from + ev.n) IN
                IF Has(ev, "c") THEN MaxAbs(part(ev.c + 1)) ELSE MaxAbs([c \in 1..x.ch |-> MaxAbs(part(c))])

\* the transition function
Next1(ev) ==
    LET put(o, x) == [s EXCEPT !.b = Put(@, o, x)] IN
    CASE ev.e = "begin" -> S0
      [] ev.e = "bnew" -> put(ev.o, IF Num0(ev, "dflt", 0) = 1 THEN Zeros(0, 0) ELSE Zeros(ev.ch, ev.n))
      [] ev.e = "bset" -> [s EXCEPT !.b[ev.o].d[ev.c + 1][ev.f + 1] = ev.v]
      [] ev.e = "bcopy" -> put(ev.o, s.b[ev.p])
      [] ev.e = "blike" -> put(ev.o, Zeros(s.b[ev.p].ch, s.b[ev.p].n))
      [] ev.e = "bmove" -> [s EXCEPT !.b = Put(Put(@, ev.p, Cleared(s.b[ev.p])), ev.o, s.b[ev.p])]
      [] ev.e = "bassign" -> IF SameChannels(ev) THEN put(ev.o, s.b[ev.p]) ELSE s
      [] ev.e = "bmassign" -> IF SameChannels(ev) /\ ev.o # ev.p THEN [s EXCEPT !.b = Put(Put(@, ev.p, Cleared(s.b[ev.p])), ev.o, s.b[ev.p])] ELSE s
      [] ev.e = "bappend" -> IF SameChannels(ev) THEN put(ev.o, Appended(s.b[ev.o], s.b[ev.p])) ELSE s
      [] ev.e = "bclear" -> put(ev.o, Cleared(s.b[ev.o]))
      [] OTHER -> s

\* what is seen of a buffer
Seen(ev, x) ==
    G("C16:channel count is fixed", ev.chs = x.ch)
    \cup G("C16:frame count after each operation", ev.fr = x.n)
    \cup G("C16:samples of each channel after each operation", ev.data = x.d)
    \cup G("C16:all accessors agree", ev.ptr)
Fails(ev) ==
    CASE ev.e \in {"begin", "fin", "eof", "cli"} -> {}
      [] ev.e = "bmag" ->
            LET x == s.b[ev.o] IN
            G("C16:magnitude of exactly the valid ranges", (ev.res = "ok") = MagOK(x, ev))
            \cup (IF ev.res = "ok" /\ MagOK(x, ev) THEN G("C16:largest absolute sample of the range", ev.ans = MagOf(x, ev)) ELSE {})
      [] ev.e \in {"bassign", "bmassign", "bappend"} ->
            G("C16:another channel count is rejected", (ev.res = "ok") = SameChannels(ev)) \cup Seen(ev, Next1(ev).b[ev.o])
      [] OTHER -> G("C16:operation succeeds", ev.res = "ok") \cup Seen(ev, Next1(ev).b[ev.o])
=============================================================================
