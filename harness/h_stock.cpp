// Harness for HART's stock components used directly: envelopes, effects, generators, wav files, matchers, buffers.
// Every command is echoed as an event together with what the real code answered.
#define HART_IMPLEMENTATION
#include "hx.hpp"
#include <memory>
#include <unistd.h>

using namespace hx;

static bool isInt (const std::string& v)
{
    if (v.empty() || v.size() > (v[0] == 0x2d ? 11u : 10u)) return false;
    size_t i = v[0] == '-' ? 1 : 0;
    if (i == v.size()) return false;
    for (; i < v.size(); ++i) if (v[i] < '0' || v[i] > '9') return false;
    return std::llabs (std::stoll (v)) < 2147483000LL;
}

// an event with the arguments of the command; values with commas become lists
static Ev echo (const Cmd& c)
{
    Ev e (c.op.c_str());
    for (auto& kv : c.a)
    {
        if (isInt (kv.second)) { e.i (kv.first.c_str(), std::stoll (kv.second)); continue; }
        if (kv.second.find (',') != std::string::npos || kv.second == "empty")
        {
            std::string l = "[";
            if (kv.second != "empty") for (auto& x : Cmd::split (kv.second)) l += (l.size() > 1 ? "," : "") + (isInt (x) ? x : "\"" + x + "\"");
            e.raw (kv.first.c_str(), l + "]");
            continue;
        }
        e.t (kv.first.c_str(), kv.second);
    }
    return e;
}

static std::string scratch (const std::string& name) { const char* d = std::getenv ("HX_SCRATCH"); return std::string (d ? d : "/nonexistent") + "/" + name; }

template <typename ST>
std::vector<long long> quants (const ST* p, size_t n, double scale) { std::vector<long long> r; for (size_t i = 0; i < n; ++i) r.push_back (quant ((double) p[i], scale)); return r; }
static std::string js (const std::vector<long long>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string (v[i]); return s + "]"; }

// -------------------------------------------------------------- numbers in scripts
// dB values are given in half decibels, linear ones in 1/64; "inf" and "-inf" as they are
static double inUnits (const std::string& kind, const std::string& v)
{
    if (v == "inf" || v == "-inf" || v == "nan") return Cmd::num (v);
    return std::stod (v) / (kind == "gainlin" ? 64.0 : 2.0);
}

// samples: list of codes in 1/den, row by row per channel
template <typename ST>
hart::AudioBuffer<ST> makeBuf (const Cmd& c, const char* key, size_t ch, size_t n, double den)
{
    hart::AudioBuffer<ST> b (ch, n);
    const auto l = Cmd::split (c.s (key));
    for (size_t k = 0; k < ch; ++k)
        for (size_t f = 0; f < n; ++f)
        {
            const std::string& t = l.at (k * n + f);
            b[k][f] = t == "2000000001" ? std::numeric_limits<ST>::quiet_NaN() : t == "2000000002" ? std::numeric_limits<ST>::infinity()
                    : t == "-2000000002" ? -std::numeric_limits<ST>::infinity() : (ST) (std::stod (t) / den);
        }
    return b;
}

// A signal whose audio is (base + frame * a + channel * b) / 64, frame counted from its reset
template <typename ST>
class RampSig : public hart::Signal<ST>
{
public:
    long long base, a, b, pos = 0;
    RampSig (long long base_, long long a_, long long b_) : base (base_), a (a_), b (b_) {}
    bool supportsNumChannels (size_t) const override { return true; }
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<ST>& out) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = (ST) ((double) (base + (pos + (long long) f) * a + (long long) c * b) / 64.0);
        pos += (long long) out.getNumFrames();
    }
    void reset() override { pos = 0; }
    void represent (std::ostream& s) const override { s << "Ramp"; }
    std::unique_ptr<hart::Signal<ST>> copy() const override { return hart::make_unique<RampSig> (*this); }
    std::unique_ptr<hart::Signal<ST>> move() override { return hart::make_unique<RampSig> (std::move (*this)); }
};

template <typename ST>
struct World
{
    using Buf = hart::AudioBuffer<ST>;
    std::map<long long, std::unique_ptr<hart::Envelope>> env;
    std::map<long long, std::unique_ptr<hart::DSP<ST>>> fx;
    std::map<long long, std::string> kindOf;
    std::map<long long, std::unique_ptr<hart::Signal<ST>>> sig;
    std::map<long long, std::unique_ptr<hart::Matcher<ST>>> mat;
    std::map<long long, std::unique_ptr<Buf>> buf;

    // ---------------------------------------------------------- envelopes
    bool envOp (const Cmd& c)
    {
        using SE = hart::SegmentedEnvelope;
        const long long o = c.i ("o");
        if (c.op == "enew") { env[o].reset (new SE ((double) c.i ("v0"))); echo (c).send(); return true; }
        if (c.op == "eseg")
        {
            auto* e = dynamic_cast<SE*> (env.at (o).get());
            const double d = (double) c.i ("d") / (double) c.i ("D");
            const std::string k = c.s ("kind");
            if (k == "hold") e->hold (d);
            else if (k == "lin" && c.i ("dflt")) e->rampTo ((double) c.i ("to"), d);
            else e->rampTo ((double) c.i ("to"), d, k == "lin" ? SE::Shape::linear : k == "exp" ? SE::Shape::exponential : SE::Shape::sCurve);
            echo (c).send();
            return true;
        }
        if (c.op == "eprep") { const std::string r = guarded ([&] { env.at (o)->prepare (c.d ("rate"), (size_t) c.i ("max", 64)); }); echo (c).t ("res", r).send(); return true; }
        if (c.op == "ereset") { env.at (o)->reset(); echo (c).send(); return true; }
        if (c.op == "ecopy")
        {
            if (c.s ("how") == "ctor") env[c.i ("to")].reset (new SE (*dynamic_cast<SE*> (env.at (c.i ("from")).get())));
            else if (c.s ("how") == "mctor") env[c.i ("to")].reset (new SE (std::move (*dynamic_cast<SE*> (env.at (c.i ("from")).get()))));
            else env[c.i ("to")] = env.at (c.i ("from"))->copy();
            echo (c).send();
            return true;
        }
        if (c.op == "erender")
        {
            const size_t n = (size_t) c.i ("n");
            std::vector<double> v;
            const std::string f = c.s ("form");
            const std::string r = guarded ([&] {
                if (f == "vec") v = env.at (o)->renderNextBlock (n);
                else { v.assign (f == "bad" ? n + 3 : n, 77.0); env.at (o)->renderNextBlock (n, v); }
            });
            echo (c).t ("res", r).i ("size", v.size()).raw ("vals", js (quants (v.data(), v.size(), 4096))).send();
            return true;
        }
        return false;
    }

    // ---------------------------------------------------------- effects
    template <typename T> static bool assignAs (hart::DSP<ST>* to, hart::DSP<ST>* from, bool mv)
    {
        auto* a = dynamic_cast<T*> (to); auto* b = dynamic_cast<T*> (from);
        if (! a || ! b) return false;
        if (mv) *a = std::move (*b); else *a = *b;
        return true;
    }
    template <typename T> static std::unique_ptr<hart::DSP<ST>> cloneAs (hart::DSP<ST>* from, bool mv)
    {
        auto* b = dynamic_cast<T*> (from);
        if (! b) return nullptr;
        return std::unique_ptr<hart::DSP<ST>> (mv ? new T (std::move (*b)) : new T (*b));
    }
    static std::unique_ptr<hart::DSP<ST>> clone (hart::DSP<ST>* d, bool mv)
    {
        auto r = cloneAs<hart::GainDb<ST>> (d, mv);
        if (! r) r = cloneAs<hart::GainLinear<ST>> (d, mv);
        if (! r) r = cloneAs<hart::HardClip<ST>> (d, mv);
        return r;
    }

    bool fxOp (const Cmd& c)
    {
        const long long o = c.i ("o");
        if (c.op == "fnew")
        {
            const std::string k = c.s ("kind");
            if (c.i ("dflt", 0)) fx[o].reset (k == "gaindb" ? (hart::DSP<ST>*) new hart::GainDb<ST>() : k == "gainlin" ? (hart::DSP<ST>*) new hart::GainLinear<ST>() : new hart::HardClip<ST>());
            else
            {
                const double g = inUnits (k, c.s ("g"));
                fx[o].reset (k == "gaindb" ? (hart::DSP<ST>*) new hart::GainDb<ST> (g) : k == "gainlin" ? (hart::DSP<ST>*) new hart::GainLinear<ST> (g) : new hart::HardClip<ST> (g));
            }
            kindOf[o] = k;
            echo (c).send();
            return true;
        }
        if (c.op == "fprep")
        {
            const std::string r = guarded ([&] {
                if (c.i ("we")) fx.at (o)->prepareWithEnvelopes (c.d ("rate"), c.i ("i"), c.i ("oc"), c.i ("max"));
                else fx.at (o)->prepare (c.d ("rate"), c.i ("i"), c.i ("oc"), c.i ("max"));
            });
            echo (c).t ("res", r).send();
            return true;
        }
        if (c.op == "freset") { if (c.i ("we")) fx.at (o)->resetWithEnvelopes(); else fx.at (o)->reset(); echo (c).send(); return true; }
        if (c.op == "fset") { fx.at (o)->setValue ((int) c.i ("id"), inUnits (kindOf[o], c.s ("v"))); echo (c).send(); return true; }
        if (c.op == "fget") { echo (c).i ("ans", quant (fx.at (o)->getValue ((int) c.i ("id")), 64000)).send(); return true; }
        if (c.op == "fsup") { echo (c).b ("ans", fx.at (o)->supportsChannelLayout (c.i ("i"), c.i ("oc"))).send(); return true; }
        if (c.op == "fenvsup") { echo (c).b ("ans", fx.at (o)->supportsEnvelopeFor ((int) c.i ("id"))).send(); return true; }
        if (c.op == "fattach")   // linear ramp of len frames at the given rate
        {
            const double u = kindOf[o] == "gainlin" ? 64.0 : 2.0;
            hart::SegmentedEnvelope e ((double) c.i ("v0") / u);
            e.rampTo ((double) c.i ("v1") / u, (double) c.i ("len") / c.d ("rate"));
            const std::string r = guarded ([&] { fx.at (o)->withEnvelope ((int) c.i ("id"), e); });
            echo (c).t ("res", r).send();
            return true;
        }
        if (c.op == "fcopy")
        {
            const long long from = c.i ("from"), to = c.i ("to");
            const std::string h = c.s ("how");
            if (h == "copy") fx[to] = fx.at (from)->copy();
            else if (h == "move") fx[to] = fx.at (from)->move();
            else if (h == "ctor") fx[to] = clone (fx.at (from).get(), false);
            else if (h == "mctor") fx[to] = clone (fx.at (from).get(), true);
            else
            {
                auto* a = fx.at (to).get(); auto* b = fx.at (from).get();
                const bool mv = h == "massign";
                if (! assignAs<hart::GainDb<ST>> (a, b, mv) && ! assignAs<hart::GainLinear<ST>> (a, b, mv) && ! assignAs<hart::HardClip<ST>> (a, b, mv)) std::exit (65);
            }
            kindOf[to] = kindOf[from];
            echo (c).send();
            return true;
        }
        if (c.op == "fproc")
        {
            const size_t ic = (size_t) c.i ("i"), oc = (size_t) c.i ("oc"), n = (size_t) c.i ("n");
            Buf in = makeBuf<ST> (c, "in", ic, n, 64), out (oc, n);
            for (size_t k = 0; k < oc; ++k) for (size_t f = 0; f < n; ++f) out[k][f] = (ST) 1000;
            hart::EnvelopeBuffers eb;
            if (c.has ("env"))
            {
                std::vector<double> v;
                for (auto& x : Cmd::split (c.s ("env"))) v.push_back (inUnits (kindOf[o], x));
                eb[(int) c.i ("eid")] = v;
            }
            const bool inplace = c.i ("inplace") != 0;
            const std::string r = guarded ([&] {
                Buf& target = inplace ? in : out;
                if (c.i ("we")) fx.at (o)->processWithEnvelopes (in, target);
                else fx.at (o)->process (in, target, eb);
            });
            Cmd quiet = c;
            if (quiet.a.count ("in") && quiet.a["in"].find (',') == std::string::npos) quiet.a["in"] += ",";
            if (quiet.a.count ("env") && quiet.a["env"].find (',') == std::string::npos) quiet.a["env"] += ",";
            Ev e = echo (quiet);
            Buf& target = inplace ? in : out;
            std::string s = "[";
            for (size_t k = 0; k < target.getNumChannels(); ++k) s += (k ? "," : "") + js (quants (target[k], n, 65536));
            e.raw ("out", s + "]").t ("res", r).i ("on", target.getNumFrames()).send();
            return true;
        }
        return false;
    }

    // ---------------------------------------------------------- generators and wav files
    template <typename T> static std::unique_ptr<hart::Signal<ST>> sigAs (hart::Signal<ST>* from, bool mv)
    {
        auto* b = dynamic_cast<T*> (from);
        if (! b) return nullptr;
        return std::unique_ptr<hart::Signal<ST>> (mv ? new T (std::move (*b)) : new T (*b));
    }
    static std::unique_ptr<hart::Signal<ST>> sigClone (hart::Signal<ST>* d, bool mv)
    {
        auto r = sigAs<hart::SineWave<ST>> (d, mv);
        if (! r) r = sigAs<hart::SineSweep<ST>> (d, mv);
        if (! r) r = sigAs<hart::WhiteNoise<ST>> (d, mv);
        if (! r) r = sigAs<hart::Silence<ST>> (d, mv);
        if (! r) r = sigAs<hart::WavFile<ST>> (d, mv);
        return r;
    }
    hart::Signal<ST>* makeGen (const Cmd& c)
    {
        const std::string k = c.s ("kind");
        const double ph = hart::twoPi * (double) c.i ("pn", 0) / (double) c.i ("pd", 1);
        if (k == "sine")
        {
            if (c.s ("form") == "dflt") return new hart::SineWave<ST>();
            if (c.s ("form") == "f") return new hart::SineWave<ST> ((double) c.i ("fn") / (double) c.i ("fd"));
            return new hart::SineWave<ST> ((double) c.i ("fn") / (double) c.i ("fd"), ph);
        }
        if (k == "silence") return new hart::Silence<ST>();
        if (k == "noise") return c.has ("seed") ? new hart::WhiteNoise<ST> ((uint_fast32_t) std::stoull (c.s ("seed"))) : new hart::WhiteNoise<ST>();
        using SW = hart::SineSweep<ST>;
        const double dur = (double) c.i ("dn") / (double) c.i ("dd"), f0 = (double) c.i ("f0"), f1 = (double) c.i ("f1");
        const auto ty = c.s ("type") == "log" ? SW::SweepType::log : SW::SweepType::linear;
        const auto lp = c.i ("loop") ? SW::Loop::yes : SW::Loop::no;
        if (c.s ("form") == "with") return new SW (SW().withDuration (dur).withStartFrequency (f0).withEndFrequency (f1).withType (ty).withLoop (lp).withPhase (ph));
        if (c.s ("form") == "with2") return new SW (SW (0.5, 50, 60, SW::SweepType::log, SW::Loop::yes, 1.0).withPhase (ph).withLoop (lp).withType (ty).withEndFrequency (f1).withStartFrequency (f0).withDuration (dur));
        return new SW (dur, f0, f1, ty, lp, ph);
    }

    bool sigOp (const Cmd& c)
    {
        const long long o = c.i ("o");
        if (c.op == "gnew")
        {
            const std::string r = guarded ([&] { sig[o].reset (makeGen (c)); });
            echo (c).t ("res", r).send();
            return true;
        }
        if (c.op == "wfile")
        {
            if (c.i ("junk", 0)) std::ofstream (scratch (c.s ("name"))) << "RIFFjunk that is no audio";
            else writeOwnWav (scratch (c.s ("name")), c.i ("ch"), c.i ("n"), c.i ("rate"), c.i ("seed"), c.i ("bits", -32));
            echo (c).send();
            return true;
        }
        if (c.op == "wnew")
        {
            const std::string path = c.i ("rel") ? c.s ("name") : scratch (c.s ("name"));
            const std::string r = guarded ([&] {
                if (c.s ("loop") == "dflt") sig[o].reset (new hart::WavFile<ST> (path));
                else sig[o].reset (new hart::WavFile<ST> (path, c.s ("loop") == "yes" ? hart::WavFile<ST>::Loop::yes : hart::WavFile<ST>::Loop::no));
            });
            echo (c).t ("res", r).send();
            return true;
        }
        if (c.op == "sprep")
        {
            std::string r = guarded ([&] {
                if (c.i ("chain")) sig.at (o)->prepareWithDSPChain (c.d ("rate"), (size_t) c.i ("ch"), (size_t) c.i ("max"));
                else sig.at (o)->prepare (c.d ("rate"), (size_t) c.i ("ch"), (size_t) c.i ("max"));
            });
            echo (c).t ("res", r).b ("sup", sig.at (o)->supportsNumChannels ((size_t) c.i ("ch"))).send();
            return true;
        }
        if (c.op == "sreset") { if (c.i ("chain")) sig.at (o)->resetWithDSPChain(); else sig.at (o)->reset(); echo (c).send(); return true; }
        if (c.op == "scopy")
        {
            const std::string h = c.s ("how");
            auto& f = sig.at (c.i ("from"));
            if (h == "copy") sig[c.i ("to")] = f->copy();
            else if (h == "move") sig[c.i ("to")] = f->move();
            else sig[c.i ("to")] = sigClone (f.get(), h == "mctor");
            echo (c).send();
            return true;
        }
        if (c.op == "srender" || c.op == "wrender")
        {
            const size_t ch = (size_t) c.i ("ch"), n = (size_t) c.i ("n");
            Buf b (ch, n);
            for (size_t k = 0; k < ch; ++k) for (size_t f = 0; f < n; ++f) b[k][f] = (ST) 99;
            const std::string r = guarded ([&] { if (c.i ("chain")) sig.at (o)->renderNextBlockWithDSPChain (b); else sig.at (o)->renderNextBlock (b); });
            Ev e = echo (c);
            e.t ("res", r).i ("on", b.getNumFrames());
            if (c.op == "wrender")
            {
                std::string s = "[";
                for (size_t k = 0; k < ch; ++k) s += (k ? "," : "") + js ([&] { std::vector<long long> v; for (size_t f = 0; f < n; ++f) v.push_back (c.i ("q", 0) ? quant ((double) b[k][f], (double) c.i ("unit", 64)) : exactInt ((double) b[k][f] * (double) c.i ("unit", 64))); return v; }());
                e.raw ("out", s + "]").send();
                return true;
            }
            bool same = true, unit = true;
            std::vector<long long> h;
            for (size_t f = 0; f < n; ++f)
            {
                Digest d;
                for (size_t k = 0; k < ch; ++k)
                {
                    const ST v = b[k][f] == 0 ? (ST) 0 : b[k][f];
                    d.add (&v, sizeof v);
                    if (! (v == b[0][f])) same = false;
                    if (! (v >= -1 && v <= 1)) unit = false;
                }
                h.push_back (d.value());
            }
            e.b ("same", same).b ("unit", unit).raw ("h", js (h)).raw ("vals", js (quants (b[0], n, 1e6))).send();
            return true;
        }
        if (c.op == "skip")
        {
            Buf b ((size_t) c.i ("ch"), (size_t) c.i ("n"));
            sig.at (o)->renderNextBlock (b);
            echo (c).send();
            return true;
        }
        if (c.op == "stat")   // long-term statistics of a signal, in thousandths
        {
            const size_t ch = (size_t) c.i ("ch"), n = (size_t) c.i ("n");
            Buf b (ch, n);
            sig.at (o)->renderNextBlock (b);
            Ev e = echo (c);
            std::string s = "[";
            for (size_t k = 0; k < ch; ++k)
            {
                double m = 0, v = 0, l1 = 0, mx = 0, x12 = 0; size_t low = 0;
                for (size_t f = 0; f < n; ++f) m += b[k][f];
                m /= (double) n;
                for (size_t f = 0; f < n; ++f)
                {
                    v += (b[k][f] - m) * (b[k][f] - m);
                    if (f) l1 += (b[k][f] - m) * (b[k][f - 1] - m);
                    mx = std::max (mx, std::abs ((double) b[k][f]));
                    x12 += (double) b[k][f] * (double) b[(k + 1) % ch][f];
                    if (std::abs ((double) b[k][f]) < 0.5) ++low;
                }
                s += std::string (k ? "," : "") + "[" + std::to_string (quant (m, 1000)) + "," + std::to_string (quant (v / (double) n, 1000)) + ","
                   + std::to_string (quant (v > 0 ? l1 / v : 1, 1000)) + "," + std::to_string (quant (mx, 1000)) + "," + std::to_string (quant ((double) low / (double) n, 1000)) + "]";
            }
            e.raw ("st", s + "]").send();
            return true;
        }
        return false;
    }

    // ---------------------------------------------------------- writing wav files
    bool writeOp (const Cmd& c)
    {
        if (c.op == "wwrite")
        {
            const size_t ch = (size_t) c.i ("ch"), n = (size_t) c.i ("n");
            const std::string fm = c.s ("fmt");
            Buf b = makeBuf<ST> (c, "data", ch, n, (double) c.i ("den"));
            const std::string p = scratch (c.s ("name"));
            std::string what;
            const std::string r = guarded ([&] {
                if (fm == "dflt") hart::WavWriter<ST>::writeBuffer (b, p, c.d ("rate"));
                else hart::WavWriter<ST>::writeBuffer (b, p, c.d ("rate"), fm == "pcm16" ? hart::WavFormat::pcm16 : fm == "pcm24" ? hart::WavFormat::pcm24 : fm == "pcm32" ? hart::WavFormat::pcm32 : hart::WavFormat::float32);
            });
            Cmd quiet = c;
            if (quiet.a["data"] != "empty" && quiet.a["data"].find (',') == std::string::npos) quiet.a["data"] += ",";
            Ev e = echo (quiet);
            e.t ("res", r);
            Wav w = readWav (p);
            e.b ("ok", w.ok);
            if (w.ok)
            {
                std::string s = "[";
                for (long long k = 0; k < w.channels; ++k)
                {
                    std::vector<long long> v;
                    for (long long f = 0; f < w.frames; ++f) v.push_back (w.format == 3 ? (w.bits == 32 ? exactInt (w.f32 (f, k) * (double) c.i ("den")) : nonInt) : w.pcm (f, k));
                    s += (k ? "," : "") + js (v);
                }
                e.i ("wf", w.format).i ("wbits", w.bits).i ("wch", w.channels).i ("wrate", w.rate).i ("wn", w.frames).b ("sizes", w.sizesOk).raw ("codes", s + "]");
            }
            e.send();
            return true;
        }
        return false;
    }

    // ---------------------------------------------------------- matchers
    bool matOp (const Cmd& c)
    {
        const long long o = c.i ("o");
        if (c.op == "mnew")
        {
            const std::string k = c.s ("kind");
            const double tol = (double) c.i ("tn") / (double) c.i ("td", 1);
            if (k == "eq")
            {
                RampSig<ST> r (c.i ("base"), c.i ("a"), c.i ("b"));
                if (c.i ("gain", 0)) r.followedBy (hart::GainLinear<ST> ((double) c.i ("gain")));
                r.pos = c.i ("adv", 0);
                if (c.i ("tn") < 0) mat[o].reset (new hart::EqualsTo<ST> (r)); else mat[o].reset (new hart::EqualsTo<ST> (r, tol));
            }
            else
            {
                const double db = inUnits ("", c.s ("db"));
                if (k == "at") mat[o].reset (c.i ("tn") < 0 ? new hart::PeaksAt<ST> (db) : new hart::PeaksAt<ST> (db, tol));
                else mat[o].reset (c.i ("tn") < 0 ? new hart::PeaksBelow<ST> (db) : new hart::PeaksBelow<ST> (db, tol));
            }
            echo (c).send();
            return true;
        }
        if (c.op == "mprep") { mat.at (o)->prepare (c.d ("rate"), (size_t) c.i ("ch"), (size_t) c.i ("max")); echo (c).send(); return true; }
        if (c.op == "mreset") { mat.at (o)->reset(); echo (c).send(); return true; }
        if (c.op == "mper") { echo (c).b ("ans", mat.at (o)->canOperatePerBlock()).send(); return true; }
        if (c.op == "mcopy")
        {
            const std::string h = c.s ("how");
            if (h == "move") mat[c.i ("to")] = mat.at (c.i ("from"))->move(); else mat[c.i ("to")] = mat.at (c.i ("from"))->copy();
            echo (c).send();
            return true;
        }
        if (c.op == "mmatch")
        {
            const size_t ch = (size_t) c.i ("ch"), n = (size_t) c.i ("n");
            const Buf b = makeBuf<ST> (c, "data", ch, n, (double) c.i ("den", 64));
            bool ans = false;
            const std::string r = guarded ([&] { ans = mat.at (o)->match (b); });
            Cmd quiet = c;
            if (quiet.a["data"].find (',') == std::string::npos) quiet.a["data"] += ",";
            Ev e = echo (quiet);
            e.t ("res", r).b ("ans", ans);
            long long fc = -1, ff = -1;
            std::string de;
            if (r == "ok" && ! ans) { auto d = mat.at (o)->getFailureDetails(); fc = (long long) d.channel; ff = (long long) d.frame; de = d.description; }
            e.i ("fc", fc).i ("ff", ff).t ("desc", words (de)).raw ("nums", numbers (de)).send();
            return true;
        }
        return false;
    }

    // ---------------------------------------------------------- buffers
    void dump (Ev& e, long long o)
    {
        Buf& b = *buf.at (o);
        const Buf& cb = b;
        bool ptr = true;
        std::string s = "[";
        for (size_t k = 0; k < b.getNumChannels(); ++k)
        {
            s += (k ? "," : "") + js ([&] { std::vector<long long> v; for (size_t f = 0; f < b.getNumFrames(); ++f) v.push_back (exactInt ((double) cb[k][f])); return v; }());
            if (b.getNumFrames() > 0 && (cb.getArrayOfReadPointers()[k] != cb[k] || b.getArrayOfWritePointers()[k] != b[k] || b[k] != cb[k])) ptr = false;
        }
        e.i ("chs", b.getNumChannels()).i ("fr", b.getNumFrames()).raw ("data", s + "]").b ("ptr", ptr);
    }
    bool bufOp (const Cmd& c)
    {
        const long long o = c.i ("o"), p = c.i ("p");
        std::string r = "ok";
        if (c.op == "bnew") buf[o].reset (c.i ("dflt", 0) ? new Buf() : new Buf ((size_t) c.i ("ch"), (size_t) c.i ("n")));
        else if (c.op == "bset") { if (c.i ("w", 0)) buf.at (o)->getArrayOfWritePointers()[c.i ("c")][c.i ("f")] = (ST) c.i ("v"); else (*buf.at (o))[(size_t) c.i ("c")][c.i ("f")] = (ST) c.i ("v"); }
        else if (c.op == "bcopy") buf[o].reset (new Buf (*buf.at (p)));
        else if (c.op == "bmove") buf[o].reset (new Buf (std::move (*buf.at (p))));
        else if (c.op == "blike") buf[o].reset (new Buf (Buf::emptyLike (*buf.at (p))));
        else if (c.op == "bassign") r = guarded ([&] { const Buf& src = *buf.at (p); *buf.at (o) = src; });
        else if (c.op == "bmassign") r = guarded ([&] { *buf.at (o) = std::move (*buf.at (p)); });
        else if (c.op == "bappend") r = guarded ([&] { buf.at (o)->appendFrom (*buf.at (p)); });
        else if (c.op == "bclear") buf.at (o)->clear();
        else if (c.op == "bmag")
        {
            double m = -1;
            auto big = [&] (const char* k) { const long long v = c.i (k); return v < 0 ? (size_t) 0 - (size_t) (-v) : (size_t) v; };
            r = guarded ([&] { m = c.has ("c") ? (double) buf.at (o)->getMagnitude (big ("c"), big ("from"), big ("n")) : (double) buf.at (o)->getMagnitude (big ("from"), big ("n")); });
            echo (c).t ("res", r).i ("ans", exactInt (m)).send();
            return true;
        }
        else if (c.op != "bdump") return false;
        Ev e = echo (c);
        e.t ("res", r);
        if (buf.count (o)) dump (e, o);
        e.send();
        return true;
    }

    void run (const std::vector<Cmd>& cmds)
    {
        for (size_t k = 1; k < cmds.size(); ++k)
        {
            const Cmd& c = cmds[k];
            try
            {
                if (envOp (c) || fxOp (c) || sigOp (c) || writeOp (c) || matOp (c) || bufOp (c)) continue;
            }
            catch (const std::out_of_range&) { std::fprintf (stderr, "script error at %s\n", c.op.c_str()); std::exit (65); }
            std::fprintf (stderr, "unknown op %s\n", c.op.c_str());
            std::exit (65);
        }
    }
};

int main (int argc, char** argv)
{
    return mainLoop (argc, argv, [] (const std::vector<Cmd>& cmds) {
        if (cmds[0].s ("T", "float") == "double") { World<double> w; w.run (cmds); }
        else { World<float> w; w.run (cmds); }
    });
}
