-------------------------------- MODULE BufMC -------------------------------
(***************************************************************************)
(* Implementation-shaped model of AudioBuffer, checked against BufSpec for *)
(* every history of Depth operations on two buffers. A buffer holds one    *)
(* flat block of samples and a pointer to the start of each channel;       *)
(* blocks live on a heap, moving hands a block over, appending and copying *)
(* allocate. Every history is also printed as a script for the real code.  *)
(***************************************************************************)
EXTENDS BufSpec
CONSTANTS Depth, Bug, Shapes, Full
VARIABLES heap, o, script, ops, fill

\* heap: block -> samples; o[i] = [ch, n, blk, ptr: channel -> <<block, offset>> or <<0, 0>>]
Null == <<0, 0>>
Fresh == 1 + Cardinality(DOMAIN heap)
Ptrs(ch, n, blk) == [c \in 1..ch |-> IF n > 0 THEN <<blk, (c - 1) * n>> ELSE Null]
Load(h, p, f) == IF p[1] = 0 \/ ~ Has(h, p[1]) THEN 1999999999 ELSE LET q == h[p[1]] IN IF p[2] + f + 1 \in DOMAIN q THEN q[p[2] + f + 1] ELSE 1999999999

View(h, x) == [chs |-> x.ch, fr |-> x.n, data |-> [c \in 1..x.ch |-> [f \in 1..x.n |-> Load(h, x.ptr[c], f - 1)]], ptr |-> TRUE]

\* outcome of an operation: [heap, o, res]
New(i, ch, n) == [heap |-> Put(heap, Fresh, [k \in 1..(ch * n) |-> 0]), o |-> [o EXCEPT ![i] = [ch |-> ch, n |-> n, blk |-> Fresh, ptr |-> Ptrs(ch, n, Fresh)]], res |-> "ok"]
Set(i, c, f, v) == [heap |-> [heap EXCEPT ![o[i].ptr[c + 1][1]] = [@ EXCEPT ![o[i].ptr[c + 1][2] + f + 1] = v]], o |-> o, res |-> "ok"]
CopyCtor(i, j) == LET x == o[j] IN
    [heap |-> Put(heap, Fresh, heap[x.blk]),
     o |-> [o EXCEPT ![i] = [x EXCEPT !.blk = Fresh, !.ptr = IF Bug = "shallow" THEN x.ptr ELSE Ptrs(x.ch, x.n, Fresh)]], res |-> "ok"]
Gone(x, b) == [ch |-> x.ch, n |-> IF Bug = "keepframes" THEN x.n ELSE 0, blk |-> b, ptr |-> Ptrs(x.ch, 0, b)]
MoveCtor(i, j) == LET x == o[j] IN [heap |-> Put(heap, Fresh, <<>>), o |-> [[o EXCEPT ![j] = Gone(x, Fresh)] EXCEPT ![i] = x], res |-> "ok"]
Assign(i, j) == LET x == o[j] IN
    IF i = j THEN [heap |-> heap, o |-> o, res |-> "ok"]
    ELSE IF o[i].ch # x.ch THEN [heap |-> heap, o |-> IF Bug = "latecheck" THEN [o EXCEPT ![i].n = x.n] ELSE o, res |-> "ChannelLayoutError"]
    ELSE [heap |-> Put(heap, Fresh, heap[x.blk]), o |-> [o EXCEPT ![i] = [x EXCEPT !.blk = Fresh, !.ptr = Ptrs(x.ch, x.n, Fresh)]], res |-> "ok"]
MoveAssign(i, j) == LET x == o[j] IN
    IF i = j THEN [heap |-> heap, o |-> o, res |-> "ok"]
    ELSE IF o[i].ch # x.ch THEN [heap |-> heap, o |-> o, res |-> "ChannelLayoutError"]
    ELSE MoveCtor(i, j)
Append2(i, j) == LET x == o[i]  y == o[j]  n == x.n + y.n IN
    IF x.ch # y.ch THEN [heap |-> heap, o |-> o, res |-> "ChannelLayoutError"]
    ELSE [heap |-> Put(heap, Fresh, [k \in 1..(x.ch * n) |-> LET c == (k - 1) \div n  f == (k - 1) % n IN
                        IF f < x.n THEN Load(heap, x.ptr[c + 1], f) ELSE Load(heap, y.ptr[c + 1], f - x.n)]),
          o |-> [o EXCEPT ![i] = [x EXCEPT !.n = n, !.blk = Fresh, !.ptr = IF Bug = "staleptr" /\ x.n > 0 THEN x.ptr ELSE Ptrs(x.ch, n, Fresh)]], res |-> "ok"]
Clear(i) == [heap |-> Put(heap, Fresh, <<>>), o |-> [o EXCEPT ![i] = Gone(o[i], Fresh)], res |-> "ok"]
MagRes(i, c, from, n) ==
    LET x == o[i] IN
    IF c >= x.ch \/ n = 0 \/ from + n > x.n THEN "IndexError" ELSE "ok"
MagVal(i, c, from, n) ==
    LET x == o[i]  cs == IF c < 0 THEN 1..x.ch ELSE {c + 1}
        vs == {LET v == Load(heap, x.ptr[k], f - 1) IN IF Bug = "noabs" THEN v ELSE Abs(v) : k \in cs, f \in (from + 1)..(from + n)}
    IN  IF vs = {} THEN 0 ELSE CHOOSE v \in vs : \A w \in vs : v >= w

---------------------------------------------------------------------------
Say(t) == script' = Append(script, t)
S2(n) == ToString(n)
\* apply outcome r of operation ev (without observations) on buffer i
Do(ev, i, r, text) ==
    /\ heap' = r.heap /\ o' = r.o
    /\ LET full == View(r.heap, r.o[i]) @@ [res |-> r.res] @@ ev IN s' = Next1(full) /\ bad' = bad \cup Fails(full)
    /\ Say(text)

V == 3 + Len(script)                                            \* distinct samples of both signs
Val == IF Len(script) % 2 = 0 THEN V ELSE -V
MInit == /\ heap = NoFun /\ o = [i \in {1, 2} |-> [ch |-> 0, n |-> 0, blk |-> 0, ptr |-> <<>>]] /\ s = S0 /\ bad = {} /\ script = <<>>
         /\ ops = -4 /\ fill = <<>>
SetOp(i, c, f) == Do([e |-> "bset", o |-> i, c |-> c, f |-> f, v |-> Val], i, Set(i, c, f, Val), "bset o=" \o S2(i) \o " c=" \o S2(c) \o " f=" \o S2(f) \o " v=" \o S2(Val))
Places(i, sh) == LET ch == sh \div 10  n == sh % 10 IN [k \in 1..(ch * n) |-> <<i, (k - 1) \div n, (k - 1) % n>>]
Ops ==
    \/ \E i \in {1, 2}, c \in 0..1, f \in 0..1 :
        /\ c < o[i].ch /\ f < o[i].n /\ (Full \/ f = o[i].n - 1)
        /\ SetOp(i, c, f)
    \/ \E i, j \in {1, 2} :
        \/ i # j /\ Do([e |-> "bcopy", o |-> i, p |-> j], i, CopyCtor(i, j), "bcopy o=" \o S2(i) \o " p=" \o S2(j))
        \/ i # j /\ Do([e |-> "bmove", o |-> i, p |-> j], i, MoveCtor(i, j), "bmove o=" \o S2(i) \o " p=" \o S2(j))
        \/ Do([e |-> "bassign", o |-> i, p |-> j], i, Assign(i, j), "bassign o=" \o S2(i) \o " p=" \o S2(j))
        \/ Do([e |-> "bmassign", o |-> i, p |-> j], i, MoveAssign(i, j), "bmassign o=" \o S2(i) \o " p=" \o S2(j))
        \/ (o[i].n + o[j].n <= 8) /\ Do([e |-> "bappend", o |-> i, p |-> j], i, Append2(i, j), "bappend o=" \o S2(i) \o " p=" \o S2(j))
    \/ \E i \in {1, 2} : Do([e |-> "bclear", o |-> i], i, Clear(i), "bclear o=" \o S2(i))
    \/ \E i \in {1, 2}, c \in -1..1, f \in 0..1, n \in 0..2 :
        /\ Full \/ (f = 0 /\ n = o[i].n) \/ (f = 1 /\ n = 2)
        /\ UNCHANGED <<heap, o>>
        /\ LET ev0 == [e |-> "bmag", o |-> i, from |-> f, n |-> n, res |-> MagRes(i, c, f, n), ans |-> IF MagRes(i, c, f, n) = "ok" THEN MagVal(i, c, f, n) ELSE -1]
               ev == IF c < 0 THEN ev0 ELSE [c |-> c] @@ ev0
           IN  s' = Next1(ev) /\ bad' = bad \cup Fails(ev)
        /\ Say("bmag o=" \o S2(i) \o " from=" \o S2(f) \o " n=" \o S2(n) \o (IF c < 0 THEN "" ELSE " c=" \o S2(c)))
\* after its operations every history ends with a look at both buffers
MNext ==
    \/ /\ ops \in {-4, -3} /\ ops' = ops + 1                     \* two buffers of some shapes, filled with distinct samples
       /\ LET i == ops + 5 IN \E sh \in Shapes :
            /\ Do([e |-> "bnew", o |-> i, ch |-> sh \div 10, n |-> sh % 10], i, New(i, sh \div 10, sh % 10), "bnew o=" \o S2(i) \o " ch=" \o S2(sh \div 10) \o " n=" \o S2(sh % 10))
            /\ fill' = fill \o Places(i, sh)
    \/ /\ ops = -2 /\ ops' = IF Len(fill) <= 1 THEN 0 ELSE ops
       /\ IF fill = <<>> THEN fill' = fill /\ UNCHANGED <<heap, o, s, bad, script>>
          ELSE fill' = Tail(fill) /\ LET q == Head(fill) IN SetOp(q[1], q[2], q[3])
    \/ ops >= 0 /\ ops < Depth /\ ops' = ops + 1 /\ fill' = fill /\ Ops
    \/ /\ ops \in {Depth, Depth + 1} /\ ops' = ops + 1 /\ fill' = fill
       /\ LET i == ops + 1 - Depth IN
          /\ Do([e |-> "bdump", o |-> i], i, [heap |-> heap, o |-> o, res |-> "ok"], "bdump o=" \o S2(i))
          /\ (i = 2 /\ Bug = "none") => PrintT("@@ " \o ToString(script \o <<"bdump o=2">>))
MSpec == MInit /\ [][MNext]_<<s, bad, heap, o, script, ops, fill>>
Sound == bad = {}
=============================================================================
