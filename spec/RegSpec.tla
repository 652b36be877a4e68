------------------------------- MODULE RegSpec ------------------------------
(***************************************************************************)
(* C15, C19: the runner. A program is a sequence of registered tasks; a run *)
(* executes those of one category. A task is a list of steps, of which some *)
(* leave a failure message and some end the task with an exception.         *)
(***************************************************************************)
EXTENDS Num
VARIABLES s, bad

\* tasks registered before main() by macros
Statics == << [t |-> 1, name |-> "static test A", cat |-> "test"], [t |-> 2, name |-> "static generator A", cat |-> "generate"],
              [t |-> 3, name |-> "static test B", cat |-> "test"], [t |-> 4, name |-> "static test B", cat |-> "generate"] >>
NoOpt == [bad |-> 0, gens |-> 0, shuffle |-> 0, seed |-> "0", root |-> ".", sec |-> 3, lin |-> 6, db |-> 1, hz |-> 1, rad |-> 1]
Num0(ev, k, d) == IF Has(ev, k) THEN ev[k] ELSE d
\* tasks: in registration order; steps: by task; log: tasks executed; done: steps done by each
\* orders, noise, descs: what was seen in earlier programs with the same seed
S0 == [static |-> TRUE, tasks |-> Statics, steps |-> NoFun, opt |-> NoOpt, log |-> <<>>, done |-> NoFun, orders |-> NoFun, noise |-> NoFun, shuffled |-> 0, moved |-> FALSE]

\* ------------------------------------------------------- what a task does
Throwing == {"ea", "am", "fm", "ft", "sx", "ix", "vx", "cx", "hx", "xx"}
Ends(st) == st \in Throwing \/ (st = "dp" /\ s.opt.root = "")
Recording == {"eh", "ef", "em"}
StepsOf(t) == IF Has(s.steps, t) THEN s.steps[t] ELSE <<>>
\* number of steps it gets to
Reach(t) == LET q == StepsOf(t)  e == {i \in DOMAIN q : Ends(q[i])} IN IF e = {} THEN Len(q) ELSE CHOOSE i \in e : \A j \in e : i <= j
Mark(t, i) == LET st == StepsOf(t)[i] IN
    CASE st \in {"eh", "ef", "ea", "fm", "sx", "vx", "cx", "hx", "xx"} -> "m" \o ToString(t) \o "." \o ToString(i)
      [] st = "em" -> "flagE" [] st = "am" -> "flagA" [] OTHER -> "?"
\* places of the steps that leave a message
Messages(t) == {i \in 1..Reach(t) : StepsOf(t)[i] \in Recording \/ Ends(StepsOf(t)[i])}
FailsTask(t) == Messages(t) # {}
BagOfMarks(t) == LET marks == {Mark(t, i) : i \in Messages(t)} IN [m \in marks |-> Cardinality({i \in Messages(t) : Mark(t, i) = m})]
BagOf(q) == [m \in Range(q) |-> Cardinality({i \in DOMAIN q : q[i] = m})]

Cat == IF s.opt.gens = 1 THEN "generate" ELSE "test"
Selected == SelectSeq(s.tasks, LAMBDA x : x.cat = Cat)
Ids(q) == [i \in DOMAIN q |-> q[i].t]
Name(t) == (CHOOSE x \in Range(s.tasks) : x.t = t).name
Failed == {t \in Range(Ids(Selected)) : FailsTask(t)}

\* ------------------------------------------------------- registration
Dup(ev) == \E x \in Range(s.tasks) : x.name = ev.name /\ x.cat = ev.cat
FReg(ev) == G("C15:exactly the duplicates of a category are rejected", (ev.res = "ok") = ~ Dup(ev))

\* ------------------------------------------------------- results
Saved(t) == {(IF s.opt.root \in {"", "."} THEN "" ELSE "droot/") \o (IF StepsOf(t)[i] = "sv" THEN "s" ELSE "p") \o "m" \o ToString(t) \o "." \o ToString(i) \o (IF StepsOf(t)[i] = "sv" THEN ".wav" ELSE ".svg") :
             i \in {i \in 1..Reach(t) : StepsOf(t)[i] \in {"sv", "pv"}}}
OrderKey == <<s.opt.seed, Cat, Ids(Selected)>>
FReport(ev) ==
    IF s.opt.bad = 1 THEN G("C19:wrong options are reported and nothing is run", ev.exit # 0 /\ s.log = <<>> /\ ev.items = <<>>)
    ELSE IF s.opt.bad = 2 THEN G("C19:help is shown and nothing is run", ev.exit = 0 /\ s.log = <<>> /\ ev.items = <<>>)
    ELSE
    LET want == Ids(Selected) IN
    G("C15:every selected task is executed exactly once", Len(s.log) = Len(want) /\ Range(s.log) = Range(want))
    \cup G("C15:in registration order unless shuffled", s.opt.shuffle = 1 \/ s.log = want)
    \cup G("C15,C19:the seed determines the shuffled order", (s.opt.shuffle = 1 /\ Has(s.orders, OrderKey)) => s.orders[OrderKey] = s.log)
    \cup G("C15,C19:the whole seed determines the order", (s.opt.shuffle = 1 /\ Len(want) >= 12) =>      \* by chance: one in 12!
            \A k \in DOMAIN s.orders : (k # OrderKey /\ k[2] = Cat /\ k[3] = want) => s.orders[k] # s.log)
    \cup G("C15:every task goes through its steps whatever others did", \A t \in Range(s.log) : Has(s.done, t) /\ s.done[t] = Reach(t))
    \cup G("C15:every executed task is reported once, in order", [i \in DOMAIN ev.items |-> ev.items[i].name] = [i \in DOMAIN s.log |-> Name(s.log[i])])
    \cup (IF Len(ev.items) # Len(s.log) THEN {} ELSE
            G("C15:exactly the failing tasks are reported as failed", \A i \in DOMAIN ev.items : ev.items[i].ok = ~ FailsTask(s.log[i]))
            \cup G("C15:each with all of its own messages and no others", \A i \in DOMAIN ev.items : BagOf(ev.items[i].keys) = BagOfMarks(s.log[i])))
    \cup G("C15:exit status", ev.exit >= 0 /\ (ev.exit = 0) = (Failed = {}))
    \cup G("C15:totals", Selected = <<>> \/
            (ev.p = Len(want) - Cardinality(Failed) /\ ev.pt = Len(want) /\ (IF Failed = {} THEN ev.f \in {-1, 0} ELSE ev.f = Cardinality(Failed) /\ ev.ft = Len(want))))
    \cup G("C19,C12:relative paths are resolved from the data root", Range(ev.files) = UNION {Saved(t) : t \in Range(s.log)})

\* ------------------------------------------------------- texts
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
HalfStep(dec) == IF dec >= 6 THEN 1 ELSE Pow10(6 - dec) \div 2 + 1
Expected == << << <<-3250000, "db">> >>, << <<312500, "lin">> >>, << <<1234500000, "hz">>, <<1500000, "rad">> >>,
               << <<625000, "sec">>, <<50250000, "hz">>, <<1000750000, "hz">>, <<0, "rad">> >>, << <<-6500000, "db">>, <<31250, "lin">> >>,
               << <<440250000, "hz">>, <<0, "rad">>, <<7812, "lin">> >> >>
FDesc(ev) ==
    G("C14,C19:descriptions show the arguments with the configured decimals",
      /\ Len(ev.nums) = Len(Expected)
      /\ \A i \in DOMAIN Expected :
            /\ Len(ev.nums[i]) = Len(Expected[i])
            /\ \A j \in DOMAIN Expected[i] : LET want == Expected[i][j]  got == ev.nums[i][j] IN got[2] = s.opt[want[2]] /\ Abs(got[1] - want[1]) <= HalfStep(got[2]))

NoiseSeed(ev) == IF ev.seed = "cli" THEN s.opt.seed ELSE ev.seed
FNoise(ev) ==
    G("C19,C09:noise is a function of its seed", Has(s.noise, NoiseSeed(ev)) => s.noise[NoiseSeed(ev)] = ev.h)
    \cup G("C19,C09:different seeds make different noise", \A q \in DOMAIN s.noise : q # NoiseSeed(ev) => s.noise[q] # ev.h)

Fails(ev) ==
    CASE ev.e = "reg" -> FReg(ev)
      [] ev.e = "report" -> FReport(ev)
      [] ev.e = "desc" -> FDesc(ev)
      [] ev.e = "noise" -> FNoise(ev)
      [] ev.e = "again" -> G("C19:executing the same program again gives the same output", ev.same)
      [] ev.e = "eof" -> G("C15,C19:shuffling changes the order", s.shuffled >= 5 => s.moved)
      [] OTHER -> {}
Next1(ev) ==
    CASE ev.e = "nostatic" -> [s EXCEPT !.static = FALSE]
      [] ev.e = "begin" -> [s EXCEPT !.tasks = IF s.static THEN Statics ELSE <<>>, !.steps = NoFun, !.opt = NoOpt, !.log = <<>>, !.done = NoFun]
      [] ev.e = "beh" -> [s EXCEPT !.steps = Put(@, ev.t, ev.steps)]
      [] ev.e = "reg" -> IF ev.res # "ok" THEN s ELSE [s EXCEPT !.tasks = Append(@, [t |-> ev.t, name |-> ev.name, cat |-> ev.cat])]
      [] ev.e = "main" -> [s EXCEPT !.opt = [k \in DOMAIN NoOpt |-> Num0(ev, k, NoOpt[k])]]
      [] ev.e = "ran" -> [s EXCEPT !.log = Append(@, ev.t)]
      [] ev.e = "left" -> [s EXCEPT !.done = Put(@, ev.t, ev.n)]
      [] ev.e = "noise" -> [s EXCEPT !.noise = Put(@, NoiseSeed(ev), ev.h)]
      [] ev.e = "report" -> IF s.opt.shuffle # 1 \/ s.opt.bad # 0 THEN s ELSE
                [s EXCEPT !.orders = Put(@, OrderKey, s.log), !.shuffled = IF Len(Selected) >= 5 THEN @ + 1 ELSE @, !.moved = @ \/ (Len(Selected) >= 5 /\ s.log # Ids(Selected))]
      [] OTHER -> s
=============================================================================
