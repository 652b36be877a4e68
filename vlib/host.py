"""Scenarios for the audio test host, signal chains and DSP objects (see harness/h_host.cpp for the operations)."""

def frames(sr4, n, den):
    return (2 * sr4 * n + 4 * den) // (8 * den)

def is_tie(sr4, n, den):
    return (sr4 * n) % (4 * den) == 2 * den

RATES = [4, 4, 32, 12, 20, 400, 44100 * 4, 48000 * 4, 22051, 96000 * 4, 8000 * 4]

def duration_for(rng, sr4, want):
    for _ in range(50):
        den = rng.choice([1024, 1000, 10, 1024])
        n = (want * 4 * den + sr4 // 2) // sr4 + rng.choice([0, 0, 0, 1, -1])
        if n <= 0 or sr4 * n * 2 + 4 * den >= 2 ** 31 or is_tie(sr4, n, den):
            continue
        # stay clear of floating point doubt about the rounding
        r = (sr4 * n) % (4 * den)
        if abs(r - 2 * den) * 50 < den * 4:
            continue
        if frames(sr4, n, den) >= 1 and abs(frames(sr4, n, den) - want) <= want // 2 + 1:
            return n, den
    return None

class Gen:
    def __init__(self, rng):
        self.r = rng
        self.uid = 0
        self.lines = []
        self.slot = 0

    def new_uid(self):
        self.uid += 1
        return self.uid

    def add(self, op, **kw):
        self.lines.append(op + "".join(f" {k}={str(v).replace(' ', '~')}" for k, v in kw.items() if v is not None))

    def maybe(self, p):
        return self.r.random() < p

    # ------------------------------------------------------------ parts
    def env_args(self, sr4):
        """A linear envelope whose values in frames at rate sr4 are multiples of 1/16."""
        r = self.r
        ratio = r.choice([(1, 1), (1, 1), (2, 1), (1, 2), (4, 1)])      # envelope rate : host rate
        er = sr4 * ratio[0] // ratio[1]
        if er * ratio[1] != sr4 * ratio[0] or er == 0:
            er, ratio = sr4, (1, 1)
        slope = r.choice([1, 2, 3, 16, -1, -4, 7]) * ratio[1]
        ln = r.choice([0, 1, 2, 3, 5, 8, 13, 40, 3000])
        if abs(slope * ln) > 10 ** 6:
            slope = ratio[1]
        return dict(v0=r.choice([0, 16, -16, 5, 160]), slope=slope, len=ln, sr4=er)

    def dsp(self, slot, uid=None, kind=None, envs=(), **kw):
        r = self.r
        a = dict(mul=r.choice([1, 1, 2, -1, 3]), add=r.choice([0, 0, 1, -5, 17]), drift=r.choice([0, 0, 1, 2, -3]))
        a.update(kw)
        uid = uid or self.new_uid()
        self.add("dsp", d=slot, uid=uid, kind=kind, envs=",".join(map(str, envs)) or None, **a)
        return uid

    def sig(self, slot, **kw):
        uid = self.new_uid()
        self.add("sig", s=slot, uid=uid, bias=self.r.choice([0, 0, 64, -128, 5]), **kw)
        return uid

    def chain(self, sslot, n, sr4, base=10, hows=("copy", "dcopy", "move", "uptr", "rsh", "rshu", "rvrsh", "rvrshu"), env_p=0.3, **kw):
        for k in range(n):
            ids = self.r.sample([0, 1, 2, 7], self.r.choice([1, 2])) if self.maybe(env_p) else []
            self.dsp(base + k, envs=ids, mul=self.r.choice([1, 1, 2, -1]), **kw)
            for i in ids:
                self.add("denv", d=base + k, id=i, how=self.r.choice("lr"), **self.env_args(sr4))
            self.add("fx", s=sslot, d=base + k, how=self.r.choice(hows))

    def check(self, n, och, **kw):
        r = self.r
        nf = r.choice([0, 0, 1, 1, 2, 3])
        pts = sorted({r.choice([0, n - 1, r.randrange(n), r.randrange(n), min(n - 1, r.randrange(8))]) for _ in range(nf)}) if n > 0 else []
        a = dict(lvl=r.choice(["expect", "expect", "expect", "assert"]), pol=r.choice([1, 1, 0]), pb=r.choice([1, 1, 0]), fch=r.randrange(och))
        a.update(kw)
        if "fail" not in a:
            a["fail"] = ",".join(map(str, pts)) or None
        if a["lvl"] == "assert" and "fail" not in kw and self.maybe(0.6):
            # make most asserts hold
            a["fail"] = None if a["pol"] else str(r.randrange(n))
        self.add("check", uid=self.new_uid(), how=r.choice(["copy", "move", "const", "base"]), **a)

    def size(self, maxn=40):
        r = self.r
        sr4 = r.choice(RATES)
        while True:
            n = r.choice([1, 2, 3, r.randrange(1, 12), r.randrange(1, maxn), r.randrange(1, maxn)])
            d = duration_for(r, sr4, n)
            if d:
                n = frames(sr4, *d)
                if n <= 2 * maxn:
                    return sr4, d, n
            sr4 = r.choice(RATES)

    def block_for(self, n):
        r = self.r
        return max(1, r.choice([1, 2, 3, 4, 5, 7, 8, n, n - 1, n + 1, 2 * n, max(1, n // 2), max(1, n // 3), 16, 1024, r.randrange(1, n + 2)]))

    def run(self, key=None, r=99, files=None):
        self.add("run", key=key, r=r, files=files)

# ---------------------------------------------------------------- one host test with everything in it
def host_test(rng, maxn=40, checks=(0, 4), chain_p=0.5, caps_p=0.0, value_p=0.4, env_p=0.3, noise=0.3, defaults_p=0.05, how=None, files=False, T=None, extra=None, bad_cfg=0.0, channels=None):
    g = Gen(rng)
    r = rng
    T = T or r.choice(["double", "double", "float"])
    sr4, dur, n = g.size(maxn)
    block = g.block_for(n)
    use_default_dur = g.maybe(defaults_p)
    use_default_rate = use_default_dur and g.maybe(0.5)
    use_default_block = g.maybe(defaults_p)
    if files:
        use_default_dur = use_default_rate = False
        while sr4 % 4:
            sr4, dur, n = g.size(maxn)
        block = g.block_for(n)
    if use_default_rate:
        sr4 = 44100 * 4
    if use_default_dur:
        if not use_default_rate:
            sr4 = r.choice([44100 * 4, 4000 * 4, 321 * 4, 48000 * 4])
        n = frames(sr4, 1, 10)
        block = max(block, 97)
    if use_default_block:
        block = 1024
    och = r.choice([1, 1, 2, 2, 3, 5])
    ich = r.choice([1, 1, 2, 2, 3, och])
    if channels:
        ich, och = channels
    cap = g.maybe(caps_p)
    # capability answers
    def caps(kind, i, o):
        kw = {}
        if cap:
            bad = g.maybe(0.3)
            rates = [sr4, 8, 44100]
            if bad and g.maybe(0.5):
                rates = [x for x in rates if x != sr4] or [7]
            kw["rates"] = r.choice(["any", ",".join(map(str, rates))]) if not bad else ",".join(map(str, rates))
            if kind == "dsp":
                lay = [(i, o), (1, 1), (2, 2)]
                if bad and kw["rates"].find(str(sr4)) >= 0:
                    lay = [x for x in lay if x != (i, o)] or [(9, 9)]
                kw["layouts"] = ",".join(f"{a}:{b}" for a, b in lay)
            else:
                kw["chans"] = str(max(0, i - 1)) if bad and g.maybe(0.7) else r.choice(["any", str(i), str(i + 1)])
        return kw
    env_ids = r.sample([0, 1, 2, 7], r.choice([1, 2, 3])) if g.maybe(env_p) else []
    how = how or r.choice(["uptr", "uptr", "copy", "bcopy", "ccopy", "move"])
    kw = caps("dsp", ich, och)
    g.dsp(1, envs=env_ids, kind="fixed" if how == "uptr" and g.maybe(0.3) else None, **kw)
    for i in env_ids:
        if g.maybe(0.8):
            g.add("denv", d=1, id=i, how=r.choice("lr"), **g.env_args(sr4))
    g.sig(1, **caps("sig", ich, ich))
    fx = r.choice([1, 1, 2, 3]) if g.maybe(chain_p) else 0
    for k in range(fx):
        ids = r.sample([0, 1, 2], 1) if g.maybe(env_p / 2) else []
        g.dsp(10 + k, envs=ids, mul=r.choice([1, 1, 2, -1]), **caps("dsp", ich, ich))
        for i in ids:
            g.add("denv", d=10 + k, id=i, how="l", **g.env_args(sr4))
        g.add("fx", s=1, d=10 + k, how=r.choice(["copy", "dcopy", "uptr", "rsh", "rshu", "rvrsh", "rvrshu", "move"]))
    g.add("host", d=1, how=how)
    cfg = []
    if not use_default_rate:
        cfg.append(("rate", dict(v4=sr4)))
    if not use_default_block:
        cfg.append(("block", dict(v=block)))
    if not use_default_dur:
        cfg.append(("dur", dict(n=dur[0], den=dur[1])))
    if ich != 1 or g.maybe(0.3):
        cfg.append(("short", dict(w="stereoIn")) if ich == 2 and g.maybe(0.5) else ("short", dict(w="monoIn")) if ich == 1 and g.maybe(0.5) else ("inch", dict(v=ich)))
    if och != 1 or g.maybe(0.3):
        cfg.append(("short", dict(w="stereoOut")) if och == 2 and g.maybe(0.5) else ("short", dict(w="monoOut")) if och == 1 and g.maybe(0.5) else ("outch", dict(v=och)))
    if ich == och and ich in (1, 2) and g.maybe(0.3):
        cfg = [c for c in cfg if c[0] not in ("inch", "outch") and not (c[0] == "short")] + [("short", dict(w="inMono" if ich == 1 else "inStereo"))]
    if g.maybe(0.3):
        cfg.append(("label", dict(t=r.choice(["lbl", "a b", "0", "Gain at 3 dB", "x"]))))
    if cap and g.maybe(0.5):        # refused by the DSP, unless it accepts everything; the last rate is what the test needs
        ix = next((i for i, c in enumerate(cfg) if c[0] == "rate"), None)
        only = any(x in l for l in g.lines for x in ["rates=%d," % sr4] if l.startswith("dsp d=1 "))
        if ix is not None and only:
            for _ in range(r.choice([1, 2])):
                seq_at = r.randint(0, len(cfg))
                cfg.insert(seq_at, ("rate", dict(v4=r.choice([36, 1234, 96000]))))
    vals = []
    if g.maybe(value_p):
        for _ in range(r.choice([1, 2, 3, 4])):
            vals.append(("value", dict(id=r.choice([0, 1, 1, 5, 0, -1]), v=r.choice([2, 1, -1, 3, 0, 4, -2]))))
    nchk = r.randint(*checks)
    # merge in random order: values and checks keep their own order
    if len([c for c in cfg if c[0] == "rate"]) < 2:
        r.shuffle(cfg)
    seq = list(cfg)
    def weave(items):
        pos = 0
        for it in items:
            pos = r.randint(pos, len(seq))
            seq.insert(pos, it)
            pos += 1
    # superseded settings: an earlier value of a setting that appears later
    for op, kw in list(cfg):
        if op in ("rate", "block", "dur", "inch", "outch") and g.maybe(noise) and not cap:
            prior = {"rate": dict(v4=r.choice(RATES)), "block": dict(v=r.choice([1, 3, 64, 4096])), "dur": dict(n=r.choice([0, 1, 7]), den=10), "inch": dict(v=r.choice([1, 2, 128])), "outch": dict(v=r.choice([1, 2, 4, 128]))}[op]
            ix = seq.index((op, kw))
            seq.insert(r.randint(0, ix), (op, prior))
    if bad_cfg:
        for _ in range(r.choice([1, 2, 3])):
            if g.maybe(bad_cfg):
                seq.insert(r.randint(0, len(seq)), r.choice([("rate", dict(v4=0)), ("rate", dict(v4=-4)), ("rate", dict(v4=-176400)), ("block", dict(v=0)), ("inch", dict(v=0)), ("inch", dict(v=129)), ("outch", dict(v=0)), ("outch", dict(v=129)), ("outch", dict(v=130)), ("dur", dict(n=-1, den=1024)), ("dur", dict(n=-5, den=10))]))
    weave(vals)
    inputs = [("input", dict(s=1))]
    weave(inputs)
    chk = [("check", None)] * nchk
    weave(chk)
    extra_ops = extra(g, n, sr4) if extra else []
    weave(extra_ops)
    for op, kw in seq:
        if op == "check":
            g.check(n, och)
        else:
            g.add(op, **kw)
    g.run(files=1 if files else None)
    return f"T={T}", g.lines

# ---------------------------------------------------------------- focused scenarios
def no_input_or_empty(rng):
    """Erroneous configurations: nothing to process, or nothing to play."""
    g = Gen(rng)
    r = rng
    g.dsp(1)
    g.sig(1)
    g.add("host", d=1, how=r.choice(["uptr", "copy"]))
    ops = [("input", dict(s=1)), ("block", dict(v=r.choice([1, 4, 64]))), ("value", dict(id=0, v=2))]
    which = r.choice(["noinput", "empty", "tiny", "both"])
    if which in ("noinput", "both"):
        ops = ops[1:]
    if which == "noinput":
        ops.append(("dur", dict(n=3, den=10)))
    else:
        ops.append(("dur", dict(n=0, den=10) if which != "tiny" else dict(n=1, den=1024)))
        ops.append(("rate", dict(v4=r.choice([4, 400, 1000]))))
    r.shuffle(ops)
    for op, kw in ops:
        g.add(op, **kw)
    for _ in range(r.choice([0, 1, 2])):
        g.check(5, 1)
    g.run()
    return f"T={r.choice(['double', 'float'])}", g.lines

def rerun(rng, keys=True):
    """The same objects used for several runs, in several ways, with direct use in between."""
    g = Gen(rng)
    r = rng
    T = r.choice(["double", "float"])
    sr4, dur, n = g.size(24)
    ich = och = r.choice([1, 2])
    env_ids = r.sample([0, 1, 2, 7], r.choice([0, 1, 2]))
    uid = g.dsp(1, envs=env_ids, drift=r.choice([1, 2, -3]))
    for i in env_ids:
        g.add("denv", d=1, id=i, how=r.choice("lr"), **g.env_args(sr4))
    g.sig(1)
    g.chain(1, r.choice([0, 1, 2]), sr4, env_p=0.4)
    ref = r.choice([0, 0, 1])
    if ref:
        g.sig(2)
        g.chain(2, r.choice([0, 1]), sr4, base=20, env_p=0.0)
    cur = 1
    runs = r.choice([2, 2, 3, 4])
    n0 = len(g.lines)
    # one configuration, checks with fixed ids so that reports are comparable
    chk = []
    for _ in range(r.choice([0, 1, 2, 3])):
        u = g.new_uid()
        chk.append(dict(uid=u, lvl=r.choice(["expect", "expect", "assert"]), pol=r.choice([1, 1, 0]), pb=r.choice([0, 1]), fch=r.randrange(och), how=r.choice(["copy", "move", "base"]),
                        fail=r.choice([None, str(r.randrange(n)), "0", str(n - 1)])))
        if chk[-1]["lvl"] == "assert":
            chk[-1].update(fail=None if chk[-1]["pol"] else "0")
    cap = g.new_uid()
    eq = dict(uid=g.new_uid(), m="eq", s=2, tol=r.choice([0.5, 1e9]), lvl="expect", pol=r.choice([1, 0]), how=r.choice(["copy", "move"])) if ref else None
    vals = [(r.choice([0, 1, 5]), r.choice([2, 3, -1, 1])) for _ in range(r.choice([0, 1, 2]))]
    # without values a returned DSP keeps the ones it has, so give them always or never
    block = g.block_for(n)
    for k in range(runs):
        how = r.choice(["uptr", "uptr", "copy", "bcopy", "ccopy"]) if k < runs - 1 else r.choice(["uptr", "copy", "move"])
        # advance things outside the test
        for _ in range(r.choice([0, 1, 2])):
            w = r.choice(["dsp", "sig", "reset"])
            if w == "dsp":
                g.add("dprep", d=cur, v4=sr4, i=ich, o=och, max=16)
                g.add("dproc", d=cur, i=ich, o=och, n=r.choice([1, 3, 7, 16]))
            elif w == "sig":
                g.add("sprep", s=1, v4=sr4, ch=ich, max=16)
                g.add("srender", s=1, ch=ich, n=r.choice([1, 5, 16]))
            else:
                g.add("sreset", s=1)
        g.add("host", d=cur, how=how)
        cfg = [("rate", dict(v4=sr4)), ("block", dict(v=block if keys else g.block_for(n))), ("dur", dict(n=dur[0], den=dur[1])), ("inch", dict(v=ich)), ("outch", dict(v=och)), ("input", dict(s=1))]
        r.shuffle(cfg)
        for op, kw in cfg:
            g.add(op, **kw)
        for i, v in vals:
            g.add("value", id=i, v=v)
        for c in chk:
            g.add("check", **c)
        if eq:
            g.add("check", **eq)
        g.add("check", m="cap", uid=cap, lvl="expect", pol=1, how="copy")
        nxt = 30 + k
        g.run(key="k1", r=nxt)
        if how in ("uptr", "move"):
            cur = nxt if how == "uptr" else nxt
        elif r.random() < 0.4:
            cur = nxt                       # go on with the returned copy
        if any(c["lvl"] == "assert" for c in chk) and how in ("uptr", "move"):
            pass
    return f"T={T}", g.lines

STOCK_SIGS = ["sine f=1000 ph=1/2", "sine f=250", "noise seed=7", "noise", "sweep dur=1/64 f0=100 f1=2000 type=log loop=yes", "sweep dur=1/32 f0=100 f1=2000 type=linear loop=no",
              "sweep dur=1/50 f0=900 f1=90 type=log loop=no ph=1", "silence", "wav path=@data/in.wav loop=yes", "wav path=@data/in.wav loop=no"]

def rerun_stock(rng):
    """Repeated runs with the library's own signals, effects and matchers: audio is compared by digest."""
    g = Gen(rng)
    r = rng
    T = r.choice(["double", "float"])
    sr = 8000
    lines = g.lines
    ch = r.choice([1, 2])
    kind = r.choice(STOCK_SIGS)
    if kind.startswith("wav"):
        g.add("mkwav", path="data/in.wav", ch=2, n=r.choice([5, 50, 300]), rate=sr, seed=r.randrange(1000))
        kind = kind.replace("@data/", "@data/")
    lines.append("sig s=1 kind=" + kind)
    if r.random() < 0.5:
        lines.append("dsp d=10 kind=gaindb v=-6")
        g.add("denv", d=10, id=0, how="l", v0=-160, slope=1, len=40, sr4=sr * 4)
        lines.append(f"fx s=1 d=10 how={r.choice(['copy', 'uptr', 'rsh'])}")
    lines.append("dsp d=1 " + r.choice(["kind=gaindb v=-3", "kind=gainlin v=1/2", "kind=clip v=-20"]))
    if "gainlin" in lines[-1] or "gaindb" in lines[-1]:
        if r.random() < 0.6:
            g.add("denv", d=1, id=0, how="r", v0=r.choice([16, -32]), slope=r.choice([1, -1]), len=r.choice([10, 100]), sr4=sr * 4)
    lines.append("sig s=2 kind=" + r.choice([k for k in STOCK_SIGS if not k.startswith("wav")]))
    n = r.choice([20, 100, 333])
    block = r.choice([1, 7, 64, n, 1000]) if n < 200 else r.choice([16, 64, n])
    eqs = [dict(uid=901 + k, m="eq", s=r.choice([1, 2]), tol=r.choice(["1/10", "1/100000", "2"]), lvl="expect", pol=r.choice([0, 1]), how=r.choice(["copy", "move"])) for k in range(r.choice([1, 2]))]
    other = r.choice([None, dict(uid=905, m="below", db=-6, lvl="expect", pol=1), dict(uid=906, m="at", db=-6, lvl="expect", pol=0)])
    cur = 1
    for k in range(r.choice([2, 3])):
        how = r.choice(["uptr", "copy", "bcopy"])
        if r.random() < 0.5:
            g.add("sprep", s=1, v4=sr * 4, ch=ch, max=64)
            g.add("srender", s=1, ch=ch, n=r.choice([1, 13, 64]))
        g.add("host", d=cur, how=how)
        for op, kw in r.sample([("rate", dict(v4=sr * 4)), ("block", dict(v=block)), ("dur", dict(n=n, den=sr)), ("inch", dict(v=ch)), ("outch", dict(v=ch)), ("input", dict(s=1))], 6):
            g.add(op, **kw)
        for e in eqs:
            g.add("check", **e)
        if other:
            g.add("check", **other)
        g.add("check", m="cap", uid=900, lvl="expect", pol=1, how="copy")
        g.run(key="k", r=30 + k)
        if how == "uptr" or r.random() < 0.5:
            cur = 30 + k
    return f"T={T}", lines

def direct_dsp(rng):
    """Envelope attachment, copies, moves and assignments of DSP objects, processed directly."""
    g = Gen(rng)
    r = rng
    sr4 = r.choice([4, 32, 400, 8000 * 4, 44100 * 4])
    live = {}
    nxt = 1
    for _ in range(r.choice([1, 2, 3])):
        ids = r.sample([0, 1, 2, 3, 7], r.choice([1, 2, 3, 4]))
        g.dsp(nxt, envs=ids, drift=r.choice([0, 1, 2]))
        live[nxt] = None
        nxt += 1
    prepared = {}
    for _ in range(r.choice([6, 10, 16, 24])):
        d = r.choice(sorted(live))
        op = r.choice(["env", "env", "env", "has", "copy", "move", "assign", "massign", "prep", "proc", "proc", "proc", "reset", "set", "drop"])
        if op == "env":
            g.add("denv", d=d, id=r.choice([0, 1, 2, 3, 7, 9]), how=r.choice("lr"), **g.env_args(sr4))
            prepared.pop(d, None)
        elif op == "has":
            g.add("dhas", d=d, id=r.choice([0, 1, 2, 3, 7, 9]))
        elif op in ("copy", "move"):
            g.add("d" + op, **{"from": d, "to": nxt})
            live[nxt] = None
            if d in prepared and r.random() < 0.6:
                prepared[nxt] = prepared[d]
            if op == "move":
                live.pop(d)
                prepared.pop(d, None)
                g.add("drop", d=d)
            nxt += 1
        elif op in ("assign", "massign") and len(live) > 1:
            e = r.choice([x for x in sorted(live) if x != d] + ([d] if op == "assign" else []))
            g.add("dassign", **{"from": d, "to": e}, how="move" if op == "massign" else "copy")
            was = prepared.get(d)
            prepared.pop(e, None)
            if was and r.random() < 0.6:
                prepared[e] = was
            if op == "massign":
                live.pop(d)
                prepared.pop(d, None)
                g.add("drop", d=d)
        elif op == "prep":
            m = r.choice([4, 8, 16])
            g.add("dprep", d=d, v4=sr4, i=1, o=1, max=m)
            prepared[d] = m
        elif op == "reset":
            g.add("dreset", d=d)
        elif op == "set":
            g.add("dset", d=d, id=r.choice([0, 1]), v=r.choice([1, 2]))
        elif op == "proc":
            if d not in prepared:
                prepared[d] = r.choice([4, 8, 16])
                g.add("dprep", d=d, v4=sr4, i=1, o=1, max=prepared[d])
            g.add("dproc", d=d, i=1, o=1, n=r.randrange(1, prepared[d] + 1), inplace=r.choice([0, 0, 1]))
        elif op == "drop" and len(live) > 1:
            live.pop(d)
            g.add("drop", d=d)
    for d in sorted(live):
        g.add("dprep", d=d, v4=sr4, i=1, o=1, max=8)
        g.add("dproc", d=d, i=1, o=1, n=8)
        for i in (0, 1, 2, 3, 7):
            g.add("dhas", d=d, id=i)
    return f"T={r.choice(['double', 'float'])}", g.lines

def direct_sig(rng):
    """Chains built in every way; copies, moves and assignments of signals; interleaved renders."""
    g = Gen(rng)
    r = rng
    sr4 = r.choice([4, 32, 400, 8000 * 4, 44100 * 4])
    ch = r.choice([1, 1, 2, 3])
    live, nxt, dslot, dsps = [], 1, 10, []
    for _ in range(r.choice([1, 2])):
        g.sig(nxt)
        live.append(nxt)
        nxt += 1
    ready = set()
    depth = {s: 0 for s in live}
    def newdsp():
        nonlocal dslot
        ids = r.sample([0, 1, 2], r.choice([1, 2])) if r.random() < 0.35 else []
        # every effect in a chain needs its own uid
        g.dsp(dslot, envs=ids, mul=r.choice([1, 1, -1, 2]), drift=r.choice([0, 1, 2, -1]))
        for i in ids:
            g.add("denv", d=dslot, id=i, how="l", **g.env_args(sr4))
        dsps.append(dslot)
        dslot += 1
        return dslot - 1
    for _ in range(r.choice([8, 14, 20, 28])):
        s = r.choice(live)
        op = r.choice(["fx", "fx", "fx", "copy", "copy", "move", "assign", "massign", "render", "render", "render", "render", "reset", "repr", "touch", "prep"])
        if op == "fx" and depth[s] < 5:
            d = newdsp()
            how = r.choice(["copy", "dcopy", "move", "uptr", "rsh", "rshu", "rvrsh", "rvrshu"])
            if r.random() < 0.3 and how in ("copy", "dcopy", "rsh"):
                # the effect has a past, and is used afterwards
                g.add("dprep", d=d, v4=sr4, i=ch, o=ch, max=8)
                g.add("dproc", d=d, i=ch, o=ch, n=r.choice([1, 3, 8]))
            g.add("fx", s=s, d=d, how=how)
            depth[s] += 1
            ready.discard(s)
            if how in ("copy", "dcopy", "rsh", "rvrsh") and r.random() < 0.5:
                g.add("dset", d=d, id=r.choice([0, 1]), v=r.choice([2, 3]))
                g.add("dprep", d=d, v4=sr4, i=ch, o=ch, max=8)
                g.add("dproc", d=d, i=ch, o=ch, n=r.choice([1, 3, 8]))
        elif op in ("copy", "move"):
            g.add("s" + op, **{"from": s, "to": nxt})
            live.append(nxt)
            depth[nxt] = depth[s]
            if s in ready and r.random() < 0.6:
                ready.add(nxt)
            if op == "move":
                live.remove(s)
                g.add("drop", s=s)
            nxt += 1
        elif op in ("assign", "massign") and len(live) > 1:
            e = r.choice([x for x in live if x != s] + ([s] if op == "assign" else []))
            g.add("sassign", **{"from": s, "to": e}, how="move" if op == "massign" else "copy")
            depth[e] = depth[s]
            ready.discard(e)
            if s in ready and r.random() < 0.6:
                ready.add(e)
            if op == "massign":
                live.remove(s)
                g.add("drop", s=s)
        elif op == "prep":
            g.add("sprep", s=s, v4=sr4, ch=ch, max=16)
            ready.add(s)
        elif op == "reset":
            g.add("sreset", s=s)
        elif op == "repr":
            g.add("srepr", s=s)
        elif op == "render":
            if s not in ready:
                g.add("sprep", s=s, v4=sr4, ch=ch, max=16)
                ready.add(s)
            g.add("srender", s=s, ch=ch, n=r.choice([1, 2, 5, 8, 16]))
    for s in live:
        g.add("srepr", s=s)
        g.add("sprep", s=s, v4=sr4, ch=ch, max=16)
        g.add("srender", s=s, ch=ch, n=r.choice([3, 16]))
    return f"T={r.choice(['double', 'float'])}", g.lines

def saves(rng):
    """Every mode x outcome x kind of place, several requests, several runs, places that cannot be written."""
    r = rng
    def place(i, kind):
        sub = r.choice(["", "", "sub/"])
        name = f"f{i}" + (".wav" if kind == "save" else ".svg")
        top = r.choice(["", "", "@abs/", "@abs/", "@cwd/"])
        bad = r.random() < 0.12
        return top + ("nodir/" if bad else sub) + name, bad
    pre = []
    def extra(g, n, sr4):
        ops = []
        for i in range(r.choice([1, 1, 2])):
            kind = r.choice(["save", "save", "plot"])
            path, bad = place(i, kind)
            kw = dict(path=path, mode=r.choice(["always", "fails", "fails", "never"]))
            if kind == "save":
                kw["fmt"] = r.choice(["float32", "float32", "float32", "pcm16", "pcm24", "pcm32", None])
            if r.random() < 0.3 and not bad:
                f = ("data/" + path) if path[0] != "@" else path[1:]
                pre.append(("junk", dict(path=f, id=i)))
            ops.append((kind, kw))
        return ops
    n = r.choice([1, 1, 2])
    opts, lines = host_test(rng, maxn=24, checks=(0, 3), chain_p=0.2, value_p=0.2, env_p=0.1, noise=0.1, files=True, extra=extra)
    head = [f"mkdir path={d}/sub" for d in ("data", "abs", "cwd")]
    head += ["junk path=" + kw["path"] + f" id={kw['id']}" for _, kw in pre]
    head += ["junk path=data/other.wav id=9", "junk path=cwd/f0.wav id=8"] if r.random() < 0.3 else []
    return opts, head + lines
