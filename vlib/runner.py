"""Scenarios for the runner: programs with registered tasks, options and outcomes (see harness/h_reg.cpp)."""
from .stock import line

NAMES = ["a", "b", "c~d", "gain~test", "test~-~passed", "[~FAILED~]~1/2", "x'y", "ünï", "static~test~A", "static~generator~A", "static~test~B", "B", "b~"]

def steps(r, rich=False):
    fail = ["eh", "ef", "ea", "em", "am", "fm", "ft", "sx", "ix", "vx", "cx", "hx", "xx"]
    ok = ["ok", "np", "tm", "dp"] + (["nz", "nz", "ds", "sv", "pv", "wf", f"z{r.choice([0, 1, 7, 99])}"] if rich else [])
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 5])):
        out.append(r.choice(fail) if r.random() < 0.35 else r.choice(ok))
    return ",".join(out) or "ok"

def options(r, many=0.4):
    args, kw = [], {}
    if r.random() < 0.35:
        args.append(r.choice(["--run-generators", "-g"]))
        kw["gens"] = 1
    if r.random() < 0.45:
        args.append("--shuffle")
        kw["shuffle"] = 1
    if r.random() < 0.5:
        seed = r.choice(["0", "1", "2", "7", "4294967295", "123456"])
        args += r.choice([["--seed", seed], ["-s", seed], [f"--seed={seed}"]])
        kw["seed"] = seed
    q = r.random()
    if q < 0.15:
        args += r.choice([["--data-root-path", "droot"], ["-d", "droot"], ["-d", "droot/"], ["--data-root-path=./droot"]])
        kw["root"] = "droot"
    elif q < 0.25:
        args += ["-d", "@ABS@"]
        kw["root"] = "@ABS@"
    for k in ("lin", "db", "sec", "hz", "rad"):
        if r.random() < many / 2:
            v = r.choice([0, 1, 2, 3, 4, 6, 8])
            args += [f"--{k}-decimals", str(v)]
            kw[k] = v
    if r.random() < 0.1:
        args += ["--tags", "[x]"]
    if r.random() < 0.06:
        args += r.choice([["--no-such-option"], ["--seed", "abc"], ["--lin-decimals"], ["stray"]])
        kw["bad"] = 1
    elif r.random() < 0.04:
        args += [r.choice(["--help", "-h"])]
        kw["bad"] = 2
    if r.random() < 0.1:
        kw["pre"] = 1
    return line("run", args=",".join(args), **kw)

def program(r, rich=False, static=True, maxtasks=8, dups=0.25):
    lines = []
    if static:
        for t in (1, 2, 3, 4):
            if r.random() < 0.5:
                lines.append(line("beh", t=t, steps=steps(r, rich)))
    names = list(NAMES)
    r.shuffle(names)
    for k in range(r.choice([0, 1, 2, 4, maxtasks])):
        name = r.choice(NAMES) if r.random() < dups else (names.pop() if names else f"n{k}")
        lines.append(line("reg", t=5 + k, name=name, cat=r.choice(["test", "test", "generate"]), steps=steps(r, rich), tags=r.choice([None, "[a][b]"])))
    lines.append(options(r))
    return None, lines

def shuffled(r):
    """Many tasks, the same few seeds and task lists over and over."""
    n = r.choice([6, 7, 12])
    lines = [line("reg", t=5 + k, name=f"n{k}", cat="test", steps=r.choice(["ok", "ok", "eh", "sx"])) for k in range(n)]
    seed = r.choice([None, "0", "1", "2", "3"])
    lines.append(line("run", args=",".join(["--shuffle"] + (["--seed", seed] if seed else [])), shuffle=1, seed=seed))
    return None, lines

def bulk(r):
    """So many failing tasks that their number does not fit into an exit status."""
    return None, [line("bulk", t=10, n=r.choice([255, 256, 256]), cat="test", steps=r.choice(["em", "eh", "vx", "ft"])), line("run", args="")]

SEEDS = ["0", "1", "2", "7", "255", "263", "32775", "65535", "65536", "65543", "131079", "16777223", "1073741831", "2147483647", "2147483648", "2147483655", "4294967295", "4294967288"]

def seeds(r):
    """The same program with many seeds, some of them equal in parts of their digits: noise and order are functions of the whole seed."""
    out = []
    for s in SEEDS + r.sample(SEEDS, 4):
        lines = [line("reg", t=5 + k, name=f"n{k}", cat="test", steps="nz" if k == 0 else f"z{r.choice(SEEDS)}" if k < 3 else "ok") for k in range(12)]
        out.append((None, lines + [line("run", args=",".join((["--seed", s] if s != "0" or r.random() < 0.5 else []) + ["--shuffle"]), shuffle=1, seed=s)]))
    r.shuffle(out)
    return out
