-------------------------------- MODULE RegMC -------------------------------
(***************************************************************************)
(* Implementation-shaped model of the runner: two containers of tasks and   *)
(* of names, a global list of failure messages, counters, the loop over the *)
(* selected container with its exception handlers; options; the default     *)
(* seed of noise. Every program within the bounds is judged by RegSpec and  *)
(* executed for real.                                                        *)
(* Mode "run": programs of tasks that pass, record failures, assert or       *)
(* throw. Mode "opts": tasks that observe options, two programs in a row.    *)
(***************************************************************************)
EXTENDS RegSpec, MCUtil
CONSTANTS Mode, Wide, Bug
VARIABLES im, q, script

E(ev, t) == [ev |-> ev, t |-> t]
\* tasks: [t, name, cat, steps]; names: by category; msgs: the global list; passed, failed
Im0 == [tests |-> <<>>, gens |-> <<>>, names |-> [test |-> {}, generate |-> {}], msgs |-> <<>>, passed |-> 0, failed |-> 0, made |-> 0, n |-> 0, items |-> <<>>, files |-> {}, stop |-> FALSE, pc |-> "start", prog |-> 1]

RegOp(x, t, name, cat, steps) ==
    LET names == IF Bug = "dupcross" THEN x.names["test"] \cup x.names["generate"] ELSE x.names[cat]
        dup == name \in names /\ Bug # "dupok"
        task == [t |-> t, name |-> name, cat |-> cat, steps |-> steps] IN
    [im |-> IF dup THEN (IF Bug = "dupreplaces" THEN [x EXCEPT !.tests = <<>>] ELSE x)
            ELSE IF cat = "test" THEN [x EXCEPT !.tests = Append(@, task), !.names[cat] = @ \cup {name}] ELSE [x EXCEPT !.gens = Append(@, task), !.names[cat] = @ \cup {name}],
     evs |-> <<E([e |-> "beh", t |-> t, steps |-> steps], ""),
               E([e |-> "reg", t |-> t, name |-> name, cat |-> cat, res |-> IF dup THEN "ValueError" ELSE "ok"], "reg t=" \o S2(t) \o " name=" \o name \o " cat=" \o cat \o " steps=" \o Join(steps, ","))>>]

---------------------------------------------------------------------------
(* one task: its steps one after the other                                 *)
MarkOf(t, i, st) == CASE st \in {"eh", "ef", "ea", "fm", "sx", "vx", "cx", "hx", "xx"} -> "m" \o S2(t) \o "." \o S2(i) [] st = "em" -> "flagE" [] st = "am" -> "flagA" [] OTHER -> "?"
Hash(seed) == CASE seed = "0" -> 11 [] seed = "7" -> 22 [] seed = "8" -> 33 [] OTHER -> 44
NoiseEv(x, o, st) ==
    LET seed == IF st = "nz" THEN (CASE Bug = "seedignored" -> "0" [] OTHER -> o.seed) ELSE IF Bug = "ownfollows" THEN o.seed ELSE "7" IN
    [e |-> "noise", seed |-> IF st = "nz" THEN "cli" ELSE "7", h |-> Hash(seed) + (IF Bug = "countedseed" THEN x.made ELSE 0)]
Dec(o, k) == CASE Bug = "swapped" /\ k = "db" -> o["lin"] [] Bug = "nodecimals" -> NoOpt[k] [] OTHER -> o[k]
DescEv(o) == [e |-> "desc", nums |-> [i \in DOMAIN Expected |-> [j \in DOMAIN Expected[i] |-> <<Expected[i][j][1], Dec(o, Expected[i][j][2])>>]]]
FileOf(o, t, i) == (IF o.root = "." \/ Bug = "norooot" THEN "" ELSE "droot/") \o "sm" \o S2(t) \o "." \o S2(i) \o ".wav"

RECURSIVE Follow(_, _, _, _, _)
\* [x, evs, exc]: exc is <<>> or <<step, mark>> of the exception that left the task
Follow(x, o, task, i, evs) ==
    IF i > Len(task.steps) THEN [x |-> x, evs |-> evs, exc |-> <<>>, n |-> Len(task.steps)]
    ELSE LET st == task.steps[i]  m == MarkOf(task.t, i, st) IN
         IF st \in {"ea", "am", "fm", "ft", "sx", "ix", "vx", "cx", "hx", "xx"} THEN [x |-> x, evs |-> evs, exc |-> <<st, m>>, n |-> i]
         ELSE LET y == CASE st \in {"eh", "ef", "em"} -> [x EXCEPT !.msgs = IF Bug = "lastmsg" THEN <<m>> ELSE Append(@, m)]
                         [] st \in {"nz", "z7"} -> [x EXCEPT !.made = @ + 1]
                         [] st = "sv" -> [x EXCEPT !.files = @ \cup {FileOf(o, task.t, i)}]
                         [] OTHER -> x
                  ev == CASE st \in {"nz", "z7"} -> <<E(NoiseEv(x, o, st), "")>> [] st = "ds" -> <<E(DescEv(o), "")>> [] OTHER -> <<>>
              IN  Follow(y, o, task, i + 1, evs \o ev)
RunTask(x0, o, task) ==
    LET x == IF Bug = "noclear" \/ (Bug = "clearlate" /\ x0.msgs # <<>> /\ x0.failed > 0) THEN x0 ELSE [x0 EXCEPT !.msgs = <<>>]
        r == Follow(x, o, task, 1, <<>>)
        asserted == r.exc # <<>> /\ ~ (Bug = "swallows" /\ r.exc[1] \in {"ix"})
        fail == asserted \/ (r.x.msgs # <<>> /\ Bug # "assertonly")
        keys == (IF asserted THEN <<r.exc[2]>> ELSE <<>>) \o (IF asserted /\ Bug = "onlyassert" THEN <<>> ELSE r.x.msgs)
        item == [name |-> task.name, ok |-> ~ fail, keys |-> IF fail THEN keys ELSE <<>>]
    IN  [x |-> [r.x EXCEPT !.items = Append(@, item), !.failed = IF fail THEN @ + 1 ELSE @, !.passed = IF fail THEN @ ELSE @ + 1,
                           !.stop = (Bug = "stopfail" /\ fail) \/ (Bug = "stopthrow" /\ r.exc # <<>> /\ r.exc[1] = "ix")],
         evs |-> <<E([e |-> "ran", t |-> task.t], "")>> \o r.evs \o <<E([e |-> "left", t |-> task.t, n |-> r.n], "")>>]
RECURSIVE RunAll(_, _, _)
RunAll(x, o, tasks) ==
    IF tasks = <<>> \/ x.stop THEN [x |-> x, evs |-> <<>>]
    ELSE LET a == RunTask(x, o, tasks[1])  b == RunAll(a.x, o, Tail(tasks)) IN [x |-> b.x, evs |-> a.evs \o b.evs]

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : TRUE IN <<m>> \o SeqOf(S \ {m})
\* the program's main(): o is the record of options, args their text
MainOp(x, o, args, order) ==
    LET tasks0 == CASE Bug = "gensignored" -> x.tests [] Bug = "both" /\ o.gens = 0 -> x.tests \o x.gens [] OTHER -> IF o.gens = 1 THEN x.gens ELSE x.tests
        tasks == IF o.shuffle = 1 /\ Len(tasks0) > 1 /\ order = "swapped" THEN (IF Bug = "shuffledrops" THEN <<tasks0[2], tasks0[2]>> ELSE <<tasks0[2], tasks0[1]>> \o SubSeq(tasks0, 3, Len(tasks0)))
                 ELSE IF Bug = "reversed" THEN [i \in DOMAIN tasks0 |-> tasks0[Len(tasks0) + 1 - i]] ELSE tasks0
        r == RunAll(x, o, tasks)
        none == tasks0 = <<>>
        exit == CASE none -> 0 [] Bug = "exitparity" -> r.x.failed % 2 [] Bug = "exitzero" -> IF r.x.passed > 0 THEN 0 ELSE IF r.x.failed > 0 THEN 1 ELSE 0 [] OTHER -> IF r.x.failed > 0 THEN 1 ELSE 0
        tot == IF Bug = "totals" THEN r.x.passed ELSE Len(tasks0)
        opts == [gens |-> o.gens, shuffle |-> o.shuffle, seed |-> o.seed, root |-> o.root, sec |-> o.sec, lin |-> o.lin, db |-> o.db, hz |-> o.hz, rad |-> o.rad]
        txt(k) == " " \o k \o "=" \o (IF k \in {"seed", "root"} THEN o[k] ELSE S2(o[k]))
        given == Join(SelectSeq([i \in 1..9 |-> LET k == <<"gens", "shuffle", "seed", "root", "sec", "lin", "db", "hz", "rad">>[i] IN IF o[k] = NoOpt[k] THEN "" ELSE txt(k)], LAMBDA w : w # ""), "")
    IN  [im |-> r.x,
         evs |-> <<E(opts @@ [e |-> "main"], "run args=" \o args \o given)>> \o r.evs
                 \o <<E([e |-> "report", items |-> r.x.items, p |-> IF none THEN -1 ELSE r.x.passed, pt |-> IF none THEN -1 ELSE tot, f |-> IF r.x.failed > 0 THEN r.x.failed ELSE -1, ft |-> IF r.x.failed > 0 THEN tot ELSE -1,
                        exit |-> exit, files |-> SeqOf(r.x.files)], ""),
                      E([e |-> "again", same |-> TRUE], "")>>]

---------------------------------------------------------------------------
StepLists == << <<"ok">>, <<"em">>, <<"em", "eh">>, <<"am", "em">>, <<"em", "am">>, <<"ix">>, <<"eh", "sx">>, <<"xx">> >>
Few == << <<"ok">>, <<"em">>, <<"ix">> >>
Cats == {"test", "generate"}
Then(a, b) == [im |-> b.im, evs |-> a.evs \o b.evs]
Begin(x) == [im |-> [Im0 EXCEPT !.prog = x.prog, !.made = 0], evs |-> <<E([e |-> "begin", sc |-> x.prog], "")>>]
\* options and their text
Opts == IF Mode = "run" THEN { <<NoOpt, "">>, <<[NoOpt EXCEPT !.gens = 1], "--run-generators">>, <<[NoOpt EXCEPT !.shuffle = 1], "--shuffle">> }
        ELSE { <<[NoOpt EXCEPT !.seed = sd, !.root = rt, !.gens = g, !.lin = l, !.db = d],
                 Join(SelectSeq(<<IF sd = "0" THEN "" ELSE "--seed," \o sd, IF rt = "." THEN "" ELSE "-d,droot", IF g = 1 THEN "-g" ELSE "", IF l = 6 THEN "" ELSE "--lin-decimals," \o S2(l), IF d = 1 THEN "" ELSE "--db-decimals," \o S2(d)>>, LAMBDA w : w # ""), ",")>> :
               sd \in {"0", "7", "8"}, rt \in {".", "droot"}, g \in {0, 1}, l \in IF Wide THEN {6, 2} ELSE {6}, d \in {1, 3} }

MInit == im = Im0 /\ q = <<>> /\ script = <<>> /\ s = [S0 EXCEPT !.static = FALSE, !.tasks = <<>>] /\ bad = {}
Take(r, pc, n) == im' = [r.im EXCEPT !.pc = pc, !.n = n] /\ q' = r.evs /\ UNCHANGED <<s, bad, script>>
Emit == /\ q # <<>> /\ q' = Tail(q) /\ im' = im
        /\ s' = Next1(q[1].ev) /\ bad' = bad \cup Fails(q[1].ev)
        /\ script' = IF q[1].ev.e = "begin" THEN <<>> ELSE IF q[1].t = "" THEN script ELSE Append(script, q[1].t)
        /\ (Len(q) = 1 /\ im.pc = "end" /\ Bug = "none") => PrintT("@@ " \o ToString(script'))
Choose ==
    /\ q = <<>>
    /\ CASE im.pc = "start" -> Take(Begin(im), "reg", 0)
         [] im.pc = "reg" /\ Mode = "run" ->
               \/ /\ im.n < 3
                  /\ \E name \in {"a", "b"}, cat \in Cats : \E i \in DOMAIN StepLists :
                        /\ im.n = 0 => name = "a"
                        /\ (im.n = 2 /\ ~ Wide) => i <= Len(Few)
                        /\ Take(RegOp(im, 5 + im.n, IF im.n = 2 /\ name = "b" THEN "c" ELSE name, cat, IF im.n = 2 /\ ~ Wide THEN Few[i] ELSE StepLists[i]), "reg", im.n + 1)
               \/ /\ im.n \in {0, 2, 3}
                  /\ \E o \in Opts, order \in {"same", "swapped"} : (order = "swapped" => o[1].shuffle = 1) /\ Take(MainOp(im, o[1], o[2], order), "end", im.n)
         [] im.pc = "reg" /\ im.n = 0 -> LET a == RegOp(im, 5, "n0", "test", <<"nz", "z7", "sv", "nz", "ds">>)  b == RegOp(a.im, 6, "n0", "generate", <<"z7", "nz", "sv">>) IN Take(Then(a, b), "reg", 1)
         [] im.pc = "reg" -> \E o \in Opts : Take(MainOp(im, o[1], o[2], "same"), "end", im.n)
         [] im.pc = "end" /\ Mode = "opts" /\ im.prog = 1 -> Take(Begin([im EXCEPT !.prog = 2]), "reg", 0)
         [] OTHER -> FALSE
MSpec == MInit /\ [][Emit \/ Choose]_<<s, bad, im, q, script>>
Sound == bad = {}
=============================================================================
