"""What each check runs. Every function returns the rule by which cases are made (for the evidence file)."""
from . import host, stock, runner

def cli_header(sec=3, lin=6, db=1):
    return [dict(e="cli", sec=sec, lin=lin, db=db)]

HOSTCLI = ("--data-root-path", "@SCRATCH@/data")

def hostrun(ctx, scenarios, kind, cli=(), header=None):
    ctx.conform("h_host", "HostTrace", scenarios, HOSTCLI + tuple(cli), header or cli_header(), kind=kind)

HOSTBUGS = dict(checks=["noskip", ("firstonly", dict(Size=2, Depth=2)), "invertblock", "assertcontinues", ("fullmax", dict(Size=2))],
                stream=["lastblock", "stale", "trunc"], life=["setearly", "noreset", "prepblock", "noask", ],
                save=["lastresult", "assertloses", "silentio", "saveinput", "assertnotfailed"],
                config=["rejkeep", "zeroblock", "offbyone"], report=["blocktime", "nolabel"], rerun=["noreset", "envkeeps", "sigkeeps", "fxkeeps"])

def hostmodel(ctx, mode, size, depth, n, timeout=800, cli=(), header=None):
    """HostMC within bounds; its behaviours are replayed in the real code."""
    m = ctx.model("HostMC", dict(Mode=f'"{mode}"', Size=size, Depth=depth), bugs=HOSTBUGS[mode], timeout=timeout)
    hostrun(ctx, [(f"T={ctx.rng.choice(['float', 'double'])}", x) for x in ctx.pick(m, n)], f"behaviours of HostMC ({mode})", cli, header)

CHAINBUGS = dict(dsp=["sharedenv", "assignmerge", "emplacekeeps", "copynobufs", "resetnoenv", "fullblock", "rejectattach"],
                 sig=["sharedchain", "assignappends", "nochaincopy", "orderrev", "resetskips", "fxshared", "skiplast"])

def chainmodel(ctx, mode, depth, wide, n):
    """ChainMC within bounds; its histories are replayed in the real code."""
    m = ctx.model("ChainMC", dict(Mode=f'"{mode}"', Depth=depth, Wide=wide), bugs=CHAINBUGS[mode], timeout=800)
    hostrun(ctx, [(f"T={ctx.rng.choice(['float', 'double'])}", x) for x in ctx.pick(m, n)], f"histories of ChainMC ({mode})")

def many(n, f, *a, **kw):
    return [f(*a, **kw) for _ in range(n)]

def C01(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(900, 9000), host.host_test, r, checks=(1, 5), chain_p=0.2, env_p=0.1, caps_p=0), "host tests with 1-5 checks")
    hostrun(ctx, many(ctx.n(100, 1000), host.rerun, r), "repeated runs")
    hostmodel(ctx, "checks", ctx.n(2, 3), 2, ctx.n(1200, 30000))
    return "random host tests (settings, 1-5 matchers of every kind in every polarity) plus behaviours of HostMC (checks); a case is distinct if its script is, and non-trivial if it makes the code process, render, check or reject something"

def C02(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(500, 5000), host.host_test, r, checks=(0, 2), chain_p=0.4), "host tests")
    hostrun(ctx, many(ctx.n(200, 2000), host.host_test, r, maxn=1500, checks=(0, 2), chain_p=0.4, T="double"), "long host tests")
    hostrun(ctx, many(ctx.n(150, 1500), host.saves, r), "saved output")
    hostmodel(ctx, "stream", ctx.n(5, 9), 1, ctx.n(1080, 30000))
    return "random host tests of up to 1500 frames with a DSP and signal that log and number every frame, saved outputs, plus behaviours of HostMC (stream)"

def C03(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(700, 7000), host.host_test, r, caps_p=0.7, value_p=0.7, chain_p=0.6), "capability answers and values")
    hostrun(ctx, many(ctx.n(150, 1500), host.rerun, r), "repeated runs")
    hostmodel(ctx, "life", ctx.n(2, 3), 1, ctx.n(1200, 30000))
    return "random host tests with random capability answers, values and chains, repeated runs, plus behaviours of HostMC (life)"

ENVBUGS = ["zerotime", "beginvalue", "onestep", "norestart", "copyrewinds", "le"]
BUFBUGS = ["shallow", "keepframes", "latecheck", "staleptr", "noabs"]

def stockrun(ctx, module, scenarios, kind, cli=(), header=()):
    ctx.conform("h_stock", module + "Trace", scenarios, tuple(cli), header, kind=kind)

STOCKBUGS = dict(Fx=["onesided", "firstvalue", "muxone", "muxconst", "anytomono", "stalearr", "sticks", "anyid", "clipauto", "setany", "noreset", "resetvalue", "copyinit", "copyrewinds", "assignnoenv", "movenoenv"],
                 Gen=["toolong", "restarts", "sawtooth", "blockseed", "blockphase", "tailonly", "planar", "resetrev", "resetphase", "resetsilent", "resetnoise", "resetpos", "preprewinds", "copyrestarts", "copynoprep", "sharedengine"],
                 GenReset=["resetrev", "resetphase", "resetsilent", "resetnoise", "resetpos", "sharedengine"],
                 WavPlay=["losesend", "restarts", "wrapblock", "lastchannels", "firstonly", "anyrate", "preprewinds", "rejectrewinds", "sharedoffset", "resetend", "copyrewinds", "copyloop"],
                 WavWrite=["wrap", "twoscales", "trunc", "clipfloat", "planar", "firstchannel", "losesframe", "bits"],
                 Mat=["nochain", "nanequal", "strict", "nanbelow", "signed", "notol", "framesfirst", "signedpeak", "nanpeak", "lastplace", "stopsearly", "blockstart", "absframe", "keepspeak", "firstchannel", "noreset", "copyrewinds", "perblock", "sharedref"],
                 Plot=["lastframe", "onlylast", "firstonly", "outcount", "atmost2", "samechannel", "latestart", "flatsilent", "timegoeson", "skipsilent", "notonfail", "swapped", "onepane", "inplace", "droptail"],
                 RegRun=["dupcross", "dupok", "dupreplaces", "lastmsg", "noclear", "clearlate", "swallows", "assertonly", "onlyassert", "stopfail", "stopthrow", "both", "shuffledrops", "reversed", "exitparity", "exitzero", "totals"],
                 RegOpts=["seedignored", "ownfollows", "countedseed", "swapped", "nodecimals", "norooot", "gensignored"])

def stockmodel(ctx, name, quick, thorough, n, cli=(), header=(), bugs=None, harness="h_stock", **kw):
    """The model <name>MC within bounds; its behaviours are replayed in the real code. Broken variants are rejected within the quick bounds."""
    m = ctx.model(name + "MC", quick if ctx.quick else thorough, bugs=[(b, quick) for b in STOCKBUGS[bugs or name]], timeout=800 if ctx.quick else 3000)
    ctx.conform(harness, name + "Trace", [(f"T={ctx.rng.choice(['float', 'double'])}", x) for x in ctx.pick(m, n)], tuple(cli), header, kind=f"behaviours of {name}MC", **kw)

def C04(ctx):
    r = ctx.rng
    stockrun(ctx, "Env", many(ctx.n(700, 8000), stock.envelope, r), "envelopes in arbitrary blocks")
    stockrun(ctx, "Env", many(ctx.n(100, 1000), stock.envelope_grow, r), "segments added on the way")
    m = ctx.model("EnvMC", dict(Depth=3 if ctx.quick else 4, MaxSegs=2, Durs="{0,1,3}" if ctx.quick else "{0,1,2}", Targets="{2,4}", Kinds='{"hold","lin","exp","s"}', D=4, Rates="{2,4}"), bugs=ENVBUGS, timeout=800)
    stockrun(ctx, "Env", [(f"T={r.choice(['float', 'double'])}", x) for x in ctx.pick(m, ctx.n(1000, 20000))], "behaviours of EnvMC")
    stockrun(ctx, "Env", many(ctx.n(10, 60), stock.envelope_default_rate, r) + many(ctx.n(10, 100), stock.envelope_long, r), "long envelopes and the default rate")
    return "random envelopes rendered in random blocks, copied, reset and grown, plus every behaviour of EnvMC or a sample chosen by the seed"

def C05(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(600, 6000), host.direct_dsp, r), "DSP objects used directly")
    hostrun(ctx, many(ctx.n(300, 3000), host.host_test, r, env_p=0.9, checks=(0, 1)), "envelopes in host tests")
    hostrun(ctx, many(ctx.n(100, 1000), host.rerun, r), "repeated runs")
    chainmodel(ctx, "dsp", ctx.n(2, 3), "TRUE", ctx.n(684, 30000))
    return "random histories of attaching, copying, moving, assigning, preparing and processing DSPs, envelopes in host tests, repeated runs, plus histories of ChainMC (dsp)"

def C06(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(400, 4000), host.rerun, r), "repeated runs of spies")
    hostrun(ctx, many(ctx.n(300, 3000), host.rerun_stock, r), "repeated runs of stock components")
    hostrun(ctx, many(ctx.n(200, 2000), host.direct_sig, r), "signals used directly")
    hostmodel(ctx, "rerun", 2, ctx.n(1, 2), ctx.n(600, 20000))
    # all blocks have one size: whether audio depends on that is C09's matter
    stockmodel(ctx, "Gen", dict(Depth=3, Sizes="{2}"), dict(Depth=5, Sizes="{2}"), ctx.n(800, 20000), (), [dict(e="cli", seed="0")], "GenReset")
    return "random histories of running the same or returned objects again, of stock and observing components, signals used directly, plus behaviours of HostMC (rerun) and GenMC"

def C07(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(700, 7000), host.direct_sig, r), "signals used directly")
    hostrun(ctx, many(ctx.n(200, 2000), host.host_test, r, chain_p=1.0, checks=(0, 1)), "chains in host tests")
    chainmodel(ctx, "sig", ctx.n(2, 3), ctx.n("TRUE", "FALSE"), ctx.n(1000, 30000))
    return "random histories of building, copying, moving and rendering signals with effects, chains in host tests, plus histories of ChainMC (sig)"

def C08(ctx):
    r = ctx.rng
    stockrun(ctx, "Fx", many(ctx.n(1500, 15000), stock.effects, r), "stock effects")
    stockmodel(ctx, "Fx", dict(Wide="TRUE", Depth=2), dict(Wide="FALSE", Depth=3), ctx.n(1200, 30000))
    return "random histories of stock effects (values, automation, layouts, in-place processing, copies), plus behaviours of FxMC"

def C09(ctx):
    r = ctx.rng
    for seed in [0, 7] if ctx.quick else [0, 1, 7, 4000000000]:
        cli = ["--seed", str(seed)] if seed else []
        hd = [dict(e="cli", seed=str(seed))]
        stockrun(ctx, "Gen", many(ctx.n(250, 3000), stock.generators, r) + [stock.noise_stats(r)], f"generators, seed {seed}", cli, hd)
    stockrun(ctx, "Gen", many(ctx.n(100, 1500), stock.generators, r, "sine") + many(ctx.n(100, 1500), stock.generators, r, "sweep"), "tonal signals", (), [dict(e="cli", seed="0")])
    stockmodel(ctx, "Gen", dict(Depth=2, Sizes="{1,2,5}"), dict(Depth=4, Sizes="{1,2,5}"), ctx.n(1040, 30000), (), [dict(e="cli", seed="0")])
    return "random histories of stock generators (parameters, partitions, resets, copies) under several seeds, statistics of noise, plus behaviours of GenMC"

WAVCLI = ("--data-root-path", "@SCRATCH@")

def C10(ctx):
    r = ctx.rng
    stockrun(ctx, "Wav", many(ctx.n(900, 9000), stock.playback, r), "playback", WAVCLI)
    stockrun(ctx, "Wav", many(ctx.n(100, 1000), stock.writing, r), "written files played", WAVCLI)
    stockmodel(ctx, "Wav", dict(Mode='"play"', Depth=2, Wide="TRUE"), dict(Mode='"play"', Depth=3, Wide="FALSE"), ctx.n(1200, 30000), WAVCLI, (), "WavPlay")
    return "random wav files played in random partitions, loops, copies and layouts, written files played back, plus behaviours of WavMC (play)"

def C11(ctx):
    r = ctx.rng
    stockrun(ctx, "Wav", many(ctx.n(900, 9000), stock.writing, r), "written files", WAVCLI)
    stockmodel(ctx, "Wav", dict(Mode='"write"', Depth=0, Wide="FALSE"), dict(Mode='"write"', Depth=0, Wide="TRUE"), ctx.n(1200, 22000), WAVCLI, (), "WavWrite")
    hostrun(ctx, many(ctx.n(200, 2000), host.saves, r), "files written by host tests")
    return "random audio written in every format and read back by an independent reader, files written by host tests, plus behaviours of WavMC (write)"

def C12(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(900, 8000), host.saves, r), "file requests")
    hostmodel(ctx, "save", 2, ctx.n(1, 2), ctx.n(1000, 30000))
    return "random host tests with file requests, existing and unwritable places, both kinds of paths and every outcome of the checks, plus behaviours of HostMC (save)"

def C13(ctx):
    r = ctx.rng
    stockrun(ctx, "Mat", many(ctx.n(1500, 15000), stock.matchers, r), "stock matchers", (), cli_header())
    stockmodel(ctx, "Mat", dict(Depth=2, Wide="FALSE"), dict(Depth=2, Wide="TRUE"), ctx.n(2000, 40000), (), cli_header())
    return "random reference audio and sequences of matched blocks with boundary values, NaN and infinities, resets and copies, plus behaviours of MatMC"

def C14(ctx):
    r = ctx.rng
    for sec, lin, db in ([(3, 6, 1), (1, 2, 0), (6, 8, 3), (0, 0, 2)] if ctx.quick else [(3, 6, 1), (1, 2, 0), (6, 8, 3), (0, 0, 2), (2, 4, 4), (5, 1, 6)]):
        cli = ["--sec-decimals", str(sec), "--lin-decimals", str(lin), "--db-decimals", str(db)] if (sec, lin, db) != (3, 6, 1) else []
        hostrun(ctx, many(ctx.n(250, 2000), host.host_test, r, checks=(1, 4), chain_p=0.1, env_p=0), f"failing checks, decimals {sec}/{lin}/{db}", cli, cli_header(sec, lin, db))
    hostmodel(ctx, "report", ctx.n(3, 5), 1, 2000)
    return "random host tests with failing checks under several options for decimals, descriptions of all stock components with random arguments, plus behaviours of HostMC (report)"

def regrun(ctx, scenarios, kind, static=True, **kw):
    ctx.conform("h_reg", "RegTrace", scenarios, **kw, header=[] if static else [dict(e="nostatic")], flags=() if static else ("-DHX_NO_STATIC",), kind=kind)

def C15(ctx):
    r = ctx.rng
    regrun(ctx, many(ctx.n(500, 5000), runner.program, r), "programs with failing tasks")
    regrun(ctx, many(ctx.n(120, 1200), runner.program, r, static=False), "programs without static tasks", False)
    regrun(ctx, many(ctx.n(80, 800), runner.shuffled, r), "shuffled programs")
    regrun(ctx, many(ctx.n(4, 16), runner.bulk, r), "hundreds of failing tasks")
    stockmodel(ctx, "Reg", dict(Mode='"run"', Wide="FALSE"), dict(Mode='"run"', Wide="TRUE"), ctx.n(600, 10000), (), [dict(e="nostatic")], "RegRun", "h_reg", flags=("-DHX_NO_STATIC",))
    return "random programs of tests and generators that pass, fail, throw and leave failures, run with random options, plus behaviours of RegMC (run)"

def C16(ctx):
    r = ctx.rng
    m = ctx.model("BufMC", dict(Depth=3, Shapes="{11,22,10}", Full="FALSE" if ctx.quick else "TRUE"), bugs=BUFBUGS, timeout=800)
    stockrun(ctx, "Buf", [(f"T={r.choice(['float', 'double'])}", x) for x in ctx.pick(m, ctx.n(1500, 30000))], "behaviours of BufMC")
    stockrun(ctx, "Buf", many(ctx.n(2000, 20000), stock.buffers, r), "histories of buffer operations")
    return "random histories of buffer operations with invalid ones among them, plus behaviours of BufMC"

def C17(ctx):
    r = ctx.rng
    hostrun(ctx, many(ctx.n(700, 7000), host.host_test, r, noise=0.8, bad_cfg=0.8, value_p=0.5, caps_p=0.0, defaults_p=0.15), "settings in any order, superseded and rejected ones")
    hostrun(ctx, many(ctx.n(200, 2000), host.host_test, r, noise=0.0, bad_cfg=0.3, caps_p=0.8), "rejected sample rates and layouts")
    hostrun(ctx, many(ctx.n(200, 2000), host.no_input_or_empty, r), "nothing to process or no input")
    hostmodel(ctx, "config", 2, 3, ctx.n(1500, 11000))
    return "random settings in any order, invalid and superseded ones among them, runs with nothing to process, plus behaviours of HostMC (config)"

def C18(ctx):
    r = ctx.rng
    ctx.conform("h_plot", "PlotTrace", many(ctx.n(400, 4000), stock.plots, r), kind="plots of known audio")
    stockmodel(ctx, "Plot", dict(Wide="FALSE"), dict(Wide="TRUE"), ctx.n(500, 6000), harness="h_plot")
    return "plots of random known audio drawn directly or by host tests, plus behaviours of PlotMC"

def C19(ctx):
    r = ctx.rng
    regrun(ctx, many(ctx.n(350, 3500), runner.program, r, rich=True), "programs observing their options")
    regrun(ctx, many(ctx.n(80, 800), runner.shuffled, r), "shuffled programs")
    for _ in range(ctx.n(1, 8)):
        regrun(ctx, runner.seeds(r), "the same program with many seeds", static=False, shards=1)
    stockmodel(ctx, "Reg", dict(Mode='"opts"', Wide="FALSE"), dict(Mode='"opts"', Wide="TRUE"), 100, (), [dict(e="nostatic")], "RegOpts", "h_reg", flags=("-DHX_NO_STATIC",), shards=1)
    return "random programs observing their options, the same program with many seeds, shuffles, plus behaviours of RegMC (opts)"
