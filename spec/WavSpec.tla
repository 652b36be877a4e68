------------------------------- MODULE WavSpec ------------------------------
(***************************************************************************)
(* C10, C11: wav files. A file is its format, shape, rate and the codes of *)
(* its samples; WavFile objects are positions in a file.                    *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad
\* files by name: what is in them; objects: what they play
S0 == [files |-> NoFun, o |-> NoFun]
NaNCode == 2000000001
InfCode == 2000000002
Num0(ev, k, d) == IF Has(ev, k) THEN ev[k] ELSE d

\* ------------------------------------------------------- files of our own
\* sample in 1/64 of full scale
Code(f, c, seed) == ((f * 7 + c * 3 + seed) % 129) - 64
Full(bits) == CASE bits = 16 -> 32768 [] bits = 24 -> 8388608 [] OTHER -> 0
\* what a sample of file x is in the given unit (exact ones only)
OwnAt(x, f, c, unit) ==
    LET v == Code(f, c, x.seed) IN
    IF x.bits \in {16, 24} /\ v = 64 THEN (IF unit = Full(x.bits) THEN unit - 1 ELSE 1999999999)
    ELSE v * (unit \div 64)

\* ------------------------------------------------------- writing
\* <<floor, remainder>> of data * scale / den for the largest code (scale) of a format
Scaled(data, fmt, den) ==
    CASE fmt = "pcm16" -> MulDivR(data, 32767, den)
      [] fmt \in {"pcm24", "dflt"} -> MulDivR(data, 8388607, den)
      [] OTHER -> LET h == MulDivR(data, 1073741823, den) r == 2 * h[2] + data IN << 2 * h[1] + r \div den, r % den >>
Top(fmt) == CASE fmt = "pcm16" -> 32767 [] fmt \in {"pcm24", "dflt"} -> 8388607 [] OTHER -> 2147483647
\* is this the nearest code to data / den, clipped to full scale?
NearestAbs(a, fmt, den, code) ==
    IF a >= den THEN code = Top(fmt)
    ELSE LET q == Scaled(a, fmt, den) IN
         IF 2 * q[2] < den THEN code = q[1] ELSE IF 2 * q[2] > den THEN code = q[1] + 1 ELSE code \in {q[1], q[1] + 1}
Nearest(data, fmt, den, code) ==
    CASE data = InfCode -> code = Top(fmt)
      [] data = -InfCode -> code = -Top(fmt)
      [] data >= 0 -> NearestAbs(data, fmt, den, code)
      [] OTHER -> NearestAbs(-data, fmt, den, -code)
CodeOK(data, fmt, den, code) == IF fmt = "float32" THEN code = data ELSE IF data = NaNCode THEN TRUE ELSE Nearest(data, fmt, den, code)
WFormat(fmt) == IF fmt = "float32" THEN 3 ELSE 1
WBits(fmt) == CASE fmt = "pcm16" -> 16 [] fmt \in {"pcm24", "dflt"} -> 24 [] OTHER -> 32

FWrite(ev) ==
    G("C11:writing succeeds exactly where a file can be", (ev.res = "ok") = (Num0(ev, "broken", 0) = 0))
    \cup (IF ev.res # "ok" THEN {} ELSE
        G("C11:a readable wav file is written", ev.ok)
        \cup (IF ~ ev.ok THEN {} ELSE
            G("C11:requested format", ev.wf = WFormat(ev.fmt) /\ ev.wbits = WBits(ev.fmt))
            \cup G("C11:channel count, frame count and sample rate", ev.wch = ev.ch /\ ev.wn = ev.n /\ ev.wrate = ev.rate)
            \cup G("C11:sizes in the file match its content", ev.sizes)
            \cup (IF ev.wch # ev.ch \/ ev.wn # ev.n THEN {} ELSE
                G("C11:every sample as the nearest code at its place",
                  \A c \in 1..ev.ch : \A f \in 1..ev.n : CodeOK(ev.data[(c - 1) * ev.n + f], ev.fmt, ev.den, ev.codes[c][f])))))

\* ------------------------------------------------------- reading
\* audio of a written file in the given unit, within two quantisation steps of the format
Clip1(a, unit) == Max2(-unit, Min2(unit, a))
BackOK(x, f, c, unit, v) ==
    LET d == x.data[c * x.n + f + 1] IN
    IF x.fmt = "float32" THEN (IF Abs(d) >= 2000000000 THEN v = d ELSE v = d)
    ELSE IF d = NaNCode THEN TRUE
    ELSE IF Abs(d) = InfCode THEN Abs(v - (IF d > 0 THEN unit ELSE -unit)) <= 2
    ELSE Abs(v - Clip1(IF Abs(d) >= x.den THEN (IF d > 0 THEN unit ELSE -unit) ELSE MulDiv(d, unit, x.den), unit)) <= 2
SampleOK(x, f, c, unit, v) == IF x.own THEN v = OwnAt(x, f, c, unit) ELSE BackOK(x, f, c, unit, v)

\* position k of an object: the frame of the file it is at, or none
FrameAt(o, x, k) == IF o.loop THEN k % x.n ELSE k
Silent(o, x, k) == x.n = 0 \/ (~ o.loop /\ k >= x.n)

FNew(ev) == G("C10:exactly the readable files can be played", (ev.res = "ok") = (Has(s.files, ev.name) /\ s.files[ev.name].good))
FPrep(ev) ==
    LET x == s.files[s.o[ev.o].file] IN
    G("C10:file's channel count or fewer", ev.sup = (ev.ch <= x.ch))
    \cup G("C10:more channels or another sample rate are errors before any audio", (ev.res = "ok") = (ev.ch <= x.ch /\ ev.rate = x.rate))
FRender(ev) ==
    LET o == s.o[ev.o]  x == s.files[o.file]
        p == IF x.own THEN "C10:" ELSE "C10,C11:" IN
    G("C10:playing succeeds", ev.res = "ok" /\ ev.on = ev.n)
    \cup (IF ev.res # "ok" \/ ev.on # ev.n THEN {} ELSE
        G("C10:silence after the end of the file", \A c \in 0..(ev.ch - 1) : \A i \in 0..(ev.n - 1) :
            Silent(o, x, o.k + i) => ev.out[c + 1][i + 1] = 0)
        \cup G(p \o "the file's frames in order on each channel", \A c \in 0..(ev.ch - 1) : \A i \in 0..(ev.n - 1) :
            (~ Silent(o, x, o.k + i)) => SampleOK(x, FrameAt(o, x, o.k + i), c, ev.unit, ev.out[c + 1][i + 1])))

Fails(ev) ==
    CASE ev.e = "wwrite" -> FWrite(ev)
      [] ev.e = "wnew" -> FNew(ev)
      [] ev.e = "sprep" -> FPrep(ev)
      [] ev.e = "wrender" -> FRender(ev)
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "begin" -> S0
      [] ev.e = "wfile" -> [s EXCEPT !.files = Put(@, ev.name, [own |-> TRUE, good |-> Num0(ev, "junk", 0) = 0, ch |-> ev.ch, n |-> ev.n, rate |-> ev.rate,
                                seed |-> ev.seed, bits |-> Num0(ev, "bits", -32), fmt |-> "", data |-> <<>>, den |-> 1])]
      [] ev.e = "wwrite" /\ ev.res = "ok" -> [s EXCEPT !.files = Put(@, ev.name, [own |-> FALSE, good |-> TRUE, ch |-> ev.ch, n |-> ev.n, rate |-> ev.rate,
                                seed |-> 0, bits |-> 0, fmt |-> ev.fmt, data |-> ev.data, den |-> ev.den])]
      [] ev.e = "wnew" /\ ev.res = "ok" -> [s EXCEPT !.o = Put(@, ev.o, [file |-> ev.name, loop |-> ev.loop = "yes", k |-> 0])]
      [] ev.e = "sreset" -> [s EXCEPT !.o[ev.o].k = 0]
      [] ev.e = "scopy" -> [s EXCEPT !.o = Put(@, ev.to, s.o[ev.from])]
      [] ev.e = "wrender" -> [s EXCEPT !.o[ev.o].k = @ + ev.n]
      [] OTHER -> s
=============================================================================
