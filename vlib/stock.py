"""Scenarios for the stock components used directly (see harness/h_stock.cpp for the operations)."""

def line(op, **kw):
    return op + "".join(f" {k}={v}" for k, v in kw.items() if v is not None)

def T(r):
    return f"T={r.choice(['float', 'double'])}"

def splits(r, total):
    """Total frames in blocks."""
    out = []
    big = r.choice([1, 2, 3, 7, 16, 64, total])
    while total > 0:
        n = min(total, r.choice([1, big, big, r.randrange(1, big + 1)]))
        out.append(n)
        total -= n
    return out

# ------------------------------------------------------------------ envelopes
def env_value(r, kind=None):
    return r.choice([1, 2, 3, 5, 8, 12, 48, 64]) if kind == "exp" else r.choice([0, 0, 1, -1, 2, 5, -7, 30, 100, -120])

def envelope(r, maxtotal=400):
    """One or two envelopes, rendered in arbitrary blocks with resets, copies and re-preparation in between."""
    dy = r.random() < 0.5
    if dy:
        rate = r.choice([1, 2, 8, 32, 64, 256, 1024, 8192])
        D = r.choice([1, 4, 16, 64, 256])
    else:
        rate = r.choice([10, 50, 100, 1000, 8000, 22050, 44100, 48000, 96000, 192000])
        D = r.choice([rate, rate, 1000, 64, 100])
    total = r.choice([8, 20, 60, 150, maxtotal])
    ticks = max(1, total * D // rate)
    lines = []
    nsegs = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
    signs = r.choice([1, -1])
    kinds = [r.choice(["hold", "lin", "lin", "s", "exp"]) for _ in range(nsegs)]
    allexp = "exp" in kinds
    val = (lambda: signs * env_value(r, "exp")) if allexp else (lambda: env_value(r))
    o = 1
    v0 = val()
    lines.append(line("enew", o=1, v0=v0))
    for k in kinds:
        d = r.choice([0, 1, 1, 2, ticks // max(1, nsegs), r.randrange(1, ticks + 1)])
        to = val()
        if d == 0 and not dy and k != "hold":
            d = 1                       # jumps only where time is exact
        lines.append(line("eseg", o=1, kind=k, to=to if k != "hold" else None, d=d, D=D, dflt=r.choice([0, 1]) if k == "lin" else None))
    if nsegs == 0:
        lines[0] = line("enew", o=1, v0=v0)
    body = []
    live = {1}
    nxt = 2
    prepped = set()
    def prep(x):
        if r.random() < 0.1:
            body.append(line("eprep", o=x, rate=r.choice([0, -1, -44100])))
        body.append(line("eprep", o=x, rate=rate, max=r.choice([1, 16, 512])))
        prepped.add(x)
    late = None
    if r.random() < 0.3:
        prep(1)
    else:
        late = 1
    started = False
    for n in splits(r, total):
        x = r.choice(sorted(live))
        if x not in prepped:
            prep(x)
        body.append(line("erender", o=x, n=n, form=r.choice(["vec", "out", "out", "bad"])))
        q = r.random()
        if q < 0.08:
            body.append(line("ereset", o=x))
            if r.random() < 0.5:
                prep(x)
        elif q < 0.2 and len(live) < 4:
            body.append(line("ecopy", **{"from": x}, to=nxt, how=r.choice(["copy", "copy", "ctor"])))
            live.add(nxt)
            prepped.add(nxt)
            nxt += 1
        elif q < 0.24:
            # the same envelope at another rate, from the start
            r2 = rate * 2 if dy else rate
            body.append(line("ereset", o=x))
            body.append(line("eprep", o=x, rate=r2))
        elif q < 0.28:
            body.append(line("erender", o=x, n=0, form="out"))
    for x in sorted(live):
        body.append(line("ereset", o=x))
        body.append(line("eprep", o=x, rate=rate))
        for n in splits(r, min(40, total)):
            body.append(line("erender", o=x, n=n, form="out"))
    return T(r), lines + body

def envelope_grow(r):
    """Segments added while the envelope is in use: they go on from the last declared value, at the declared time."""
    rate = r.choice([8, 64, 1024])
    lines = [line("enew", o=1, v0=r.choice([0, 3])), line("eprep", o=1, rate=rate)]
    for _ in range(r.choice([2, 4, 6])):
        lines.append(line("eseg", o=1, kind=r.choice(["lin", "s", "hold"]), to=r.choice([0, 10, -20, 5]), d=r.choice([1, 3, 8, 20]), D=rate))
        for _ in range(r.choice([1, 2])):
            lines.append(line("erender", o=1, n=r.choice([1, 2, 5, 9, 20]), form="out"))
    return T(r), lines

def envelope_default_rate(r):
    lines = [line("enew", o=1, v0=0), line("eseg", o=1, kind=r.choice(["lin", "s"]), to=r.choice([1, 100]), d=r.choice([1, 2, 5]), D=1000)]
    for n in splits(r, 260):
        lines.append(line("erender", o=1, n=n, form="vec"))
    return T(r), lines

def envelope_long(r):
    rate = r.choice([44100, 48000, 96000])
    lines = [line("enew", o=1, v0=0), line("eseg", o=1, kind="hold", d=r.choice([3, 50]), D=1000), line("eseg", o=1, kind=r.choice(["lin", "s"]), to=64, d=r.choice([20, 40]), D=1000),
             line("eseg", o=1, kind="lin", to=-3, d=5, D=1000), line("eprep", o=1, rate=rate)]
    for n in splits(r, r.choice([3000, 5000])) if False else [r.choice([64, 441, 512, 1000]) for _ in range(8)]:
        lines.append(line("erender", o=1, n=n, form="out"))
    return T(r), lines

# ------------------------------------------------------------------ effects
def effects(r):
    lines = []
    live, prepped, nxt = {}, {}, 1
    attached = {}
    def setting(k):
        if k == "gainlin":
            return r.choice([0, 64, 32, -64, 1, 96, 128, -160, 1000, r.randrange(-1000, 1000)])
        if k == "clip":
            return r.choice([0, -12, -6, -40, 12, 24, -240, -300, r.randrange(-120, 30)])
        return r.choice([0, -12, 12, -40, 40, 48, -240, -241, -2000, r.randrange(-200, 49)])
    def new():
        nonlocal nxt
        k = r.choice(["gaindb", "gainlin", "clip"])
        lines.append(line("fnew", o=nxt, kind=k, g=setting(k), dflt=r.choice([0, 0, 0, 0, 1])))
        live[nxt] = k
        nxt += 1
    for _ in range(r.choice([1, 2, 3])):
        new()
    rate = r.choice([64, 1024, 8192])
    for _ in range(r.choice([8, 16, 30])):
        o = r.choice(sorted(live))
        k = live[o]
        op = r.choice(["proc", "proc", "proc", "proc", "set", "set", "get", "sup", "envsup", "attach", "copy", "assign", "reset", "new"])
        if op == "new" and len(live) < 5:
            new()
        elif op == "set":
            lines.append(line("fset", o=o, id=r.choice([0, 0, 0, 1, -1, 7]), v=setting(k)))
        elif op == "get":
            lines.append(line("fget", o=o, id=r.choice([0, 0, 1])))
        elif op == "sup":
            lines.append(line("fsup", o=o, i=r.choice([1, 1, 2, 3, 5]), oc=r.choice([1, 2, 3, 5])))
        elif op == "envsup":
            lines.append(line("fenvsup", o=o, id=r.choice([0, 1, -1, 5])))
        elif op == "attach":
            ln = r.choice([1, 2, 4, 8, 16])
            if k == "gainlin":
                v0, v1 = r.randrange(-500, 500), r.randrange(-500, 500)
            else:
                v0 = r.choice([0, -12, -40, -120])
                v1 = v0 + ln * r.choice([0, 1, -1, 2])
            i = r.choice([0, 0, 0, 1, 2])
            lines.append(line("fattach", o=o, id=i, v0=v0, v1=v1, len=ln, rate=rate))
            if i == 0 and k != "clip":
                attached[o] = True
                prepped.pop(o, None)
        elif op == "copy" and len(live) < 6:
            how = r.choice(["copy", "ctor", "move", "mctor"])
            lines.append(line("fcopy", **{"from": o}, to=nxt, how=how))
            live[nxt] = k
            if o in attached: attached[nxt] = True
            if o in prepped: prepped[nxt] = prepped[o]
            if how in ("move", "mctor"):
                live.pop(o)
            nxt += 1
        elif op == "assign":
            same = [x for x in live if live[x] == k and x != o]
            if same:
                e = r.choice(same)
                how = r.choice(["assign", "massign"])
                lines.append(line("fcopy", **{"from": o}, to=e, how=how))
                attached.pop(e, None)
                if o in attached: attached[e] = True
                prepped.pop(e, None)
                if how == "massign":
                    live.pop(o)
        elif op == "reset":
            lines.append(line("freset", o=o, we=r.choice([0, 1])))
        elif op == "proc":
            n = r.choice([1, 1, 2, 3, 8, 17])
            i = r.choice([1, 1, 2, 3])
            oc = r.choice([i, i, i, i, 1, 2, 4])
            if k == "clip" and r.random() < 0.8:
                oc = i
            we = 1 if o in attached and r.random() < 0.6 and (i == oc or i == 1) else 0
            if we and prepped.get(o, 0) < n or r.random() < 0.2:
                prepped[o] = r.choice([17, 32])
                lines.append(line("fprep", o=o, rate=rate, i=i, oc=oc, max=prepped[o], we=1))
            kw = {}
            if not we and k != "clip" and r.random() < 0.4:
                e = [setting(k) for _ in range(n)]
                kw = dict(env=",".join(map(str, e)), eid=r.choice([0, 0, 0, 1]))
            data = [r.choice([0, 64, -64, 256, -256, 1, -1, r.randrange(-256, 257), r.randrange(-100, 100)]) for _ in range(n * i)]
            lines.append(line("fproc", o=o, i=i, oc=oc, n=n, we=we, inplace=r.choice([0, 1]) if i == oc else 0, **{"in": ",".join(map(str, data))}, **kw))
    return T(r), lines

# ------------------------------------------------------------------ generators
def lognice(n):
    while n % 2 == 0:
        n //= 2
    return n <= 127

FREQS = [f for f in list(range(1, 128)) + [125, 200, 250, 400, 440, 500, 880, 1000, 1600, 2000, 3200, 3520, 4000] if lognice(f)]

def new_gen(r, o, rate, kind=None):
    kind = kind or r.choice(["sine", "sine", "sweep", "sweep", "sweep", "noise", "noise", "silence"])
    if kind == "silence":
        return kind, line("gnew", o=o, kind=kind)
    if kind == "noise":
        return kind, line("gnew", o=o, kind=kind, seed=r.choice([None, None, 0, 1, 2, 5489, 123456789, r.randrange(2 ** 31 - 1000)]))
    pn, pd = r.choice([(0, 1), (0, 1), (1, 4), (1, 2), (3, 4), (1, 1), (-1, 4), (17, 8), (-9, 8), (5, 3), (8, 1)])
    if kind == "sine":
        form = r.choice(["full", "full", "f", "dflt"])
        if form == "dflt":
            return kind, line("gnew", o=o, kind=kind, form=form)
        fn, fd = r.choice([(1000, 1), (1, 1), (rate, 4), (rate, 2), (rate - 1, 1), (rate, 1), (441, 2), (997, 3), (r.randrange(1, 20001), 1), (2 * rate + 5, 1), (1, 4)])
        if form == "f":
            pn = pd = None
        return kind, line("gnew", o=o, kind=kind, fn=fn, fd=fd, pn=pn, pd=pd, form=form)
    type_ = r.choice(["linear", "log"])
    fs = [f for f in FREQS if f < rate * 0.9]
    f0, f1 = r.choice(fs), r.choice(fs)
    f0, f1 = min(f0, rate // 2 - 1) if type_ == "linear" else f0, f1
    if r.random() < 0.15:
        f1 = f0
    dn, dd = r.choice([(r.randrange(1, 120), rate), (r.randrange(1, 60), rate), (1, rate), (0, 1), (1, 100), (7, 1000), (3, 128), (1, 3 * rate), (5, 3 * rate)])
    return kind, line("gnew", o=o, kind=kind, dn=dn, dd=dd, f0=f0, f1=f1, type=type_, loop=r.choice([0, 1]), pn=pn, pd=pd, form=r.choice(["full", "with", "with2"]))

def generators(r, kind=None):
    rate = r.choice([1000, 4000, 8000, 16000]) if kind != "sine" else r.choice([1000, 8000, 22050, 44100, 48000, 96000, 192000])
    ch = r.choice([1, 1, 2, 3])
    lines, live, nxt = [], {}, 1
    for _ in range(r.choice([1, 2, 2, 3])):
        k, l = new_gen(r, nxt, rate, kind)
        lines.append(l)
        live[nxt] = k
        if r.random() < 0.5:      # its twin
            nxt += 1
            lines.append(l.replace(f"o={nxt - 1} ", f"o={nxt} "))
            live[nxt] = k
        nxt += 1
    if r.random() < 0.15:
        bad = r.choice([dict(kind="sine", fn=0, fd=1), dict(kind="sine", fn=-5, fd=1), dict(kind="sweep", dn=-1, dd=2, f0=20, f1=30, type="log", loop=0),
                        dict(kind="sweep", dn=1, dd=2, f0=0, f1=30, type="log", loop=0), dict(kind="sweep", dn=1, dd=2, f0=10, f1=-3, type="linear", loop=1)])
        lines.append(line("gnew", o=99, **bad))
    ready = set()
    def prep(o):
        if r.random() < 0.5:
            lines.append(line("sprep", o=o, rate=rate, ch=ch, max=64))
            if r.random() < 0.5:
                lines.append(line("sreset", o=o))
        else:
            lines.append(line("sprep", o=o, rate=rate, ch=ch, max=64, chain=1))
            lines.append(line("sreset", o=o, chain=1))
        ready.add(o)
    for _ in range(r.choice([8, 14, 24])):
        o = r.choice(sorted(live))
        if o not in ready:
            prep(o)
        op = r.choice(["render"] * 7 + ["reset", "copy", "skip"])
        if op == "render":
            lines.append(line("srender", o=o, ch=ch, n=r.choice([1, 2, 3, 5, 8, 16, 16, 33, 64]), chain=r.choice([0, 1])))
        elif op == "reset":
            lines.append(line("sreset", o=o, chain=r.choice([0, 1])))
            if r.random() < 0.3:
                lines.append(line("sprep", o=o, rate=rate, ch=ch, max=64))
        elif op == "skip":
            lines.append(line("skip", o=o, ch=ch, n=r.choice([10, 100, 1000]) if live[o] == "sine" else r.choice([5, 50])))
        elif len(live) < 7:
            how = r.choice(["copy", "copy", "ctor", "move", "mctor"])
            lines.append(line("scopy", **{"from": o}, to=nxt, how=how))
            live[nxt] = live[o]
            ready.add(nxt)
            if how in ("move", "mctor"):
                live.pop(o)
            nxt += 1
    return T(r), lines

def noise_stats(r):
    lines = []
    for o, seed in enumerate([None, 0, r.randrange(2 ** 31 - 1000)]):
        lines += [line("gnew", o=o, kind="noise", seed=seed), line("sprep", o=o, rate=48000, ch=2, max=8), line("stat", o=o, ch=2, n=6000)]
    return T(r), lines

# ------------------------------------------------------------------ wav files
def playback(r):
    """Files of our own played in any partition, looped or not, with fewer channels, from copies."""
    lines = []
    files = {}
    rate = r.choice([8000, 44100, 48000])
    for k in range(r.choice([1, 1, 2])):
        name = f"f{k}.wav"
        ch, n, bits = r.choice([1, 2, 2, 3, 4]), r.choice([1, 2, 5, 17, 64, 130]), r.choice([-32, -32, 16, 24, 32])
        lines.append(line("wfile", name=name, ch=ch, n=n, rate=rate, seed=r.randrange(129), bits=bits))
        files[name] = (ch, n, bits)
    if r.random() < 0.1:
        lines.append(line("wfile", name="junk.wav", ch=1, n=1, rate=rate, seed=0, junk=1))
        lines.append(line("wnew", o=90, name="junk.wav", loop="no", rel=0))
    if r.random() < 0.1:
        lines.append(line("wnew", o=91, name="missing.wav", loop="yes", rel=r.choice([0, 1])))
    live, nxt = {}, 1
    for _ in range(r.choice([1, 2, 3])):
        name = r.choice(sorted(files))
        lines.append(line("wnew", o=nxt, name=name, loop=r.choice(["yes", "yes", "no", "dflt"]), rel=r.choice([0, 1])))
        live[nxt] = (name, None)
        nxt += 1
    for _ in range(r.choice([6, 12, 25])):
        o = r.choice(sorted(live))
        name, ch = live[o]
        fch, n, bits = files[name]
        unit = {16: 32768, 24: 8388608}.get(bits, 64)
        q = r.random()
        if q < 0.15:
            lines.append(line("sprep", o=o, rate=r.choice([rate, rate, rate, rate * 2, 11025]), ch=r.choice([1, fch, fch + 1, fch + 3]), max=16, chain=r.choice([0, 1])))
        elif q < 0.3:
            lines.append(line("sreset", o=o, chain=r.choice([0, 1])))
        elif q < 0.45 and len(live) < 6:
            how = r.choice(["copy", "copy", "ctor", "move", "mctor"])
            lines.append(line("scopy", **{"from": o}, to=nxt, how=how))
            live[nxt] = live[o]
            if how in ("move", "mctor"):
                live.pop(o)
            nxt += 1
        else:
            if ch is None or r.random() < 0.15:
                ch = r.choice([fch, fch, r.randrange(1, fch + 1)])
                lines.append(line("sprep", o=o, rate=rate, ch=ch, max=r.choice([1, 64, 512]), chain=r.choice([0, 1])))
                live[o] = (name, ch)
            lines.append(line("wrender", o=o, ch=ch, n=r.choice([0, 1, 2, 3, n - 1 or 1, n, n + 1, 2 * n + 1, r.randrange(1, 40)]), chain=r.choice([0, 1]), unit=unit))
    return T(r), lines

def writing(r):
    """Buffers written in every format, and read back."""
    lines = []
    for k in range(r.choice([1, 2])):
        name = f"w{k}.wav"
        fmt = r.choice(["pcm16", "pcm24", "pcm32", "float32", "dflt"])
        ch, n = r.choice([1, 2, 2, 3, 6]), r.choice([0, 1, 2, 7, 30])
        den = r.choice([1, 2, 64, 1024, 32768, 32767, 3, 1000]) if fmt != "float32" else r.choice([1, 64, 1024])
        if den in (32767, 3, 1000):
            # values that are not exact in binary: away from ties
            pick = lambda: r.choice([0, den, -den, 1, -1, 2 * den, r.randrange(-den, den + 1)])
        else:
            pick = lambda: r.choice([0, den, -den, 2 * den, -3 * den, 1, -1, r.randrange(-den, den + 1), r.randrange(-den, den + 1), r.randrange(-4 * den, 4 * den + 1)])
        data = [pick() for _ in range(ch * n)]
        if fmt == "float32" and data and r.random() < 0.3:
            data[r.randrange(len(data))] = r.choice([2000000001, 2000000002, -2000000002, 1000000000])
        elif data and r.random() < 0.15:
            data[r.randrange(len(data))] = r.choice([2000000002, -2000000002])
        rate = r.choice([8000, 22050, 44100, 48000, 96000, 192000, 11025, 1])
        dl = ",".join(map(str, data)) or "empty"
        opt = "double" if den in (32767, 3, 1000) else r.choice(["float", "double"])
        if r.random() < 0.1:
            lines.append(line("wwrite", name="no/such/dir/x.wav", fmt=fmt, ch=ch, n=n, rate=rate, data=dl, den=den, broken=1))
        lines.append(line("wwrite", name=name, fmt=fmt, ch=ch, n=n, rate=rate, data=dl, den=den))
        if n:
            lines.append(line("wnew", o=k, name=name, loop=r.choice(["yes", "no"]), rel=0))
            lines.append(line("sprep", o=k, rate=rate, ch=ch, max=16))
            unit = dict(pcm16=32768, pcm24=8388608, dflt=8388608, pcm32=8388608, float32=den)[fmt]
            lines.append(line("wrender", o=k, ch=ch, n=n, unit=unit, q=1 if fmt != "float32" else 0))
            lines.append(line("wrender", o=k, ch=ch, n=r.choice([1, n]), unit=unit, q=1 if fmt != "float32" else 0))
        if den in (32767, 3, 1000):
            return "T=double", lines
    return f"T={r.choice(['float', 'double'])}", lines

# ------------------------------------------------------------------ matchers
def db18(h):
    return 0 if h < -240 else 10 ** (h / 40)

def matchers(r, kind=None):
    lines, live, nxt = [], {}, 1
    den = r.choice([64, 64, 1024, 1048576])
    k64 = den // 64
    def new(k):
        nonlocal nxt
        tn, td = r.choice([(0, 1), (-1, 1), (-1, 1), (1, 64), (1, 1024), (3, 128), (1, 4), (1, 100), (1, 1000)])
        x = dict(kind=k, tn=tn, td=td)
        if k == "eq":
            x.update(base=r.choice([0, 1, -5, 20]), a=r.choice([0, 1, 1, 2, -3]), b=r.choice([0, 0, 7, -10]), gain=r.choice([0, 0, 0, 2, -1]))
            if r.random() < 0.1:
                x["adv"] = 5
        else:
            x["db"] = r.choice([0, 0, 0, -6, -12, -40, -120, 12, 24, -300, -239, r.randrange(-100, 20)])
        lines.append(line("mnew", o=nxt, **x))
        live[nxt] = dict(x, pos=0, known="adv" not in x)
        nxt += 1
        return nxt - 1
    for _ in range(r.choice([1, 1, 2])):
        o = new(kind or r.choice(["eq", "eq", "at", "below"]))
        lines.append(line("mprep", o=o, rate=48000, ch=2, max=64))
        if "adv" in live[o]:
            lines.append(line("mreset", o=o))
    ch = r.choice([1, 1, 2, 3])
    def tol(x):
        if x["tn"] < 0:
            return (1e-5 if x["kind"] == "eq" else 1e-3) * den
        return x["tn"] / x["td"] * den
    def near(x, c, pos):
        """Sample codes on both sides of what the matcher decides about."""
        t = tol(x)
        off = r.choice([0, 0, int(t), int(t) + 1, -int(t), -int(t) - 1, r.choice([-1, 1])])
        if x["kind"] == "eq":
            return (x["base"] + pos * x["a"] + c * x["b"]) * (x.get("gain") or 1) * k64 + off
        return r.choice([-1, 1]) * (round(db18(x["db"]) * den) + off)
    for _ in range(r.choice([3, 6, 12])):
        o = r.choice(sorted(live))
        x = live[o]
        q = r.random()
        if q < 0.12:
            lines.append(line("mreset", o=o))
            x["pos"] = 0
            continue
        if q < 0.24 and len(live) < 5:
            how = r.choice(["copy", "move"])
            lines.append(line("mcopy", **{"from": o}, to=nxt, how=how))
            live[nxt] = dict(x)
            if how == "move":
                live.pop(o)
            nxt += 1
            continue
        if q < 0.28:
            lines.append(line("mper", o=o))
            continue
        n = r.choice([1, 1, 2, 3, 8])
        data = []
        calm = r.random() < 0.5
        for c in range(ch):
            for f in range(n):
                if x["kind"] == "eq":
                    v = near(x, c, x["pos"] + f) if not calm else (x["base"] + (x["pos"] + f) * x["a"] + c * x["b"]) * (x.get("gain") or 1) * k64
                else:
                    v = r.randrange(-1, 2) if calm else r.choice([0, r.randrange(-den, den + 1) // 4, near(x, c, 0)])
                data.append(v)
        if calm or r.random() < 0.5:
            # one or two special places
            for _ in range(r.choice([0, 1, 1, 2])):
                i = r.randrange(len(data))
                data[i] = r.choice([near(x, i // n, x["pos"] + i % n), data[i] + r.choice([-k64, k64]), 2000000001, 2000000002, -2000000002, near(x, i // n, x["pos"] + i % n)])
        x["pos"] += n
        lines.append(line("mmatch", o=o, ch=ch, n=n, den=den, data=",".join(map(str, data))))
    return T(r), lines

# ------------------------------------------------------------------ buffers
def buffers(r, ops=None):
    lines, live = [], {}
    def val():
        return r.choice([0, 1, -1, 5, -9, r.randrange(-1000, 1001), r.randrange(-1000, 1001)])
    shapes = [r.choice([(1, 1), (1, 4), (2, 3), (2, 0), (3, 2), (0, 0), (2, 5), (1, 0), (4, 1), (0, 3)]) for _ in range(2)]
    def new():
        o = len(live) + 1
        ch, n = r.choice(shapes)
        if r.random() < 0.05:
            lines.append(line("bnew", o=o, dflt=1))
            ch, n = 0, 0
        else:
            lines.append(line("bnew", o=o, ch=ch, n=n))
        live[o] = [ch, n]
        for _ in range(min(6, ch * n)):
            lines.append(line("bset", o=o, c=r.randrange(ch), f=r.randrange(n), v=val(), w=r.choice([0, 1])))
    for _ in range(r.choice([1, 2, 3])):
        new()
    for _ in range(ops or r.choice([5, 12, 25])):
        o, p = r.choice(sorted(live)), r.choice(sorted(live))
        same = [x for x in live if live[x][0] == live[o][0]]
        if r.random() < 0.7:
            p = r.choice(same)
        ch, n = live[o]
        q = r.choice(["set", "set", "set", "copy", "like", "move", "assign", "assign", "massign", "massign", "append", "append", "append", "clear", "mag", "mag", "mag", "dump", "dump", "new"])
        if q == "new" and len(live) < 5:
            new()
        elif q == "set" and ch * n:
            lines.append(line("bset", o=o, c=r.randrange(ch), f=r.randrange(n), v=val(), w=r.choice([0, 1])))
        elif q in ("copy", "like", "move") and len(live) < 7:
            t = len(live) + 1
            lines.append(line("b" + q, o=t, p=p))
            live[t] = list(live[p])
            if q == "move":
                live[p][1] = 0
            lines.append(line("bdump", o=p))
        elif q in ("assign", "massign"):
            lines.append(line("b" + q, o=o, p=p))
            if live[o][0] == live[p][0] and o != p:
                live[o] = list(live[p])
                if q == "massign":
                    live[p][1] = 0
            lines.append(line("bdump", o=p))
        elif q == "append":
            if live[o][1] + live[p][1] > 60:
                continue
            lines.append(line("bappend", o=o, p=p))
            if live[o][0] == live[p][0]:
                live[o][1] += live[p][1]
            lines.append(line("bdump", o=p))
        elif q == "clear" and r.random() < 0.4:
            lines.append(line("bclear", o=o))
            live[o][1] = 0
        elif q == "mag":
            f = r.choice([0, 0, 1, n - 1, n, n + 1, -1, -2])
            k = r.choice([1, n, n - f if f >= 0 else 3, n + 1, 0, 1, 2, -1, -n])
            c = r.choice([None, None, 0, ch - 1, ch, -1])
            lines.append(line("bmag", o=o, **{"from": f}, n=k, c=c))
        else:
            lines.append(line("bdump", o=o))
    for o in sorted(live):
        lines.append(line("bdump", o=o))
    return T(r), lines

# ------------------------------------------------------------------ plots
def plots(r):
    lines = []
    for _ in range(r.choice([1, 2])):
        n = r.choice([2, 3, 5, 17, 40, 100, 150])
        # long enough to have labelled ticks
        rate = r.choice([x for x in (2, 4, 8, 10, 16, 50, 64, 100, 400) if n / x >= 0.2] or [8])
        lines.append(line("plot", how=r.choice(["direct", "host", "host"]), n=n, rate=rate, ic=r.choice([1, 2, 3, 8]), oc=r.choice([1, 2, 3, 4]), seed=r.randrange(129),
                          mul=r.choice([1, 1, 3, 16]), g=r.choice([1, 0, -1, 2]), add=r.choice([0, 5, -40]), block=r.choice([1, 3, 16, 64, 1000]),
                          quiet=r.choice([None, None, None, None, 1, 2]), fails=r.choice([0, 0, 1])))
    return T(r), lines
