------------------------------- MODULE MCUtil -------------------------------
(* Helpers of the implementation-shaped models: script text and the codes   *)
(* in which the harnesses write audio.                                      *)
EXTENDS Integers, Sequences, TLC
S2(n) == ToString(n)
B2(b) == IF b THEN "1" ELSE "0"
RECURSIVE Join(_, _)
Join(w, sep) == IF w = <<>> THEN "" ELSE IF Len(w) = 1 THEN w[1] ELSE w[1] \o sep \o Join(Tail(w), sep)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
\* arithmetic-progression code of a sequence, as the harness writes it
RECURSIVE RunLen(_, _, _)
RunLen(v, k, d) == IF k < Len(v) /\ v[k + 1] - v[k] = d THEN 1 + RunLen(v, k + 1, d) ELSE 1
RECURSIVE Ap(_)
Ap(v) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN << <<v[1], 0, 1>> >>
         ELSE LET d == v[2] - v[1]  n == RunLen(v, 1, d) IN << <<v[1], d, n>> >> \o Ap(SubSeq(v, n + 1, Len(v)))
Aps(chans) == [c \in DOMAIN chans |-> Ap(chans[c])]

=============================================================================
