// Harness for the audio test host, signal chains and DSP objects: spies log every callback.
#define HART_IMPLEMENTATION
#include "hx.hpp"
#include <dirent.h>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>

using namespace hx;

static long long nextOid = 1;
static bool quietObjs = false;

static void logObj (const char* k, long long oid, long long uid, const char* how, long long parent)
{
    if (! quietObjs) Ev ("obj").t ("k", k).i ("oid", oid).i ("uid", uid).t ("how", how).i ("parent", parent).send();
}

// "any" | "same" | "none" | list of "i:o"
static bool layoutOk (const std::string& spec, size_t i, size_t o)
{
    if (spec == "any") return true;
    if (spec == "same") return i == o;
    for (auto& x : Cmd::split (spec, ',')) if (x == std::to_string (i) + ":" + std::to_string (o)) return true;
    return false;
}

// "any" | "none" | list of supported rates in quarter Hz
static bool rateOk (const std::string& spec, double rate)
{
    if (spec == "any") return true;
    for (auto& x : Cmd::split (spec, ',')) if (x == std::to_string ((long long) std::round (rate * 4))) return true;
    return false;
}

static long long sr4 (double rate) { return exactInt (rate * 4); }

template <typename ST>
class SpyDSP : public hart::DSP<ST>
{
public:
    long long uid, oid;
    std::string layouts = "any", rates = "any";
    std::set<int> envIds;
    double mul = 1, add = 0, drift = 0;
    long long pos = 0;

    SpyDSP (long long u) : uid (u), oid (nextOid++) { logObj ("dsp", oid, uid, "new", 0); }
    SpyDSP (const SpyDSP& o) : hart::DSP<ST> (o), uid (o.uid), oid (nextOid++), layouts (o.layouts), rates (o.rates), envIds (o.envIds), mul (o.mul), add (o.add), drift (o.drift), pos (o.pos)
    { logObj ("dsp", oid, uid, "copy", o.oid); }
    SpyDSP (SpyDSP&& o) : hart::DSP<ST> (std::move (o)), uid (o.uid), oid (nextOid++), layouts (o.layouts), rates (o.rates), envIds (o.envIds), mul (o.mul), add (o.add), drift (o.drift), pos (o.pos)
    { logObj ("dsp", oid, uid, "move", o.oid); }
    SpyDSP& operator= (const SpyDSP& o)
    {
        hart::DSP<ST>::operator= (o);
        uid = o.uid; layouts = o.layouts; rates = o.rates; envIds = o.envIds; mul = o.mul; add = o.add; drift = o.drift; pos = o.pos;
        return *this;
    }
    SpyDSP& operator= (SpyDSP&& o)
    {
        hart::DSP<ST>::operator= (std::move (o));
        uid = o.uid; layouts = o.layouts; rates = o.rates; envIds = o.envIds; mul = o.mul; add = o.add; drift = o.drift; pos = o.pos;
        return *this;
    }

    void prepare (double sr, size_t i, size_t o, size_t mx) override
    { Ev ("prep").i ("oid", oid).i ("uid", uid).t ("k", "dsp").i ("sr4", sr4 (sr)).i ("i", i).i ("o", o).i ("max", mx).send(); }

    void process (const hart::AudioBuffer<ST>& in, hart::AudioBuffer<ST>& out, const hart::EnvelopeBuffers& env) override
    {
        const size_t n = in.getNumFrames(), ni = in.getNumChannels(), no = out.getNumChannels();
        Ev ev ("proc");
        ev.i ("oid", oid).i ("uid", uid).i ("pos", pos).i ("n", n).i ("on", out.getNumFrames()).i ("i", ni).i ("o", no).raw ("in", bufRuns (in));
        if (ni > 0 && n <= out.getNumFrames())
        {
            if (&in == &out || in[0] == out[0])
            {
                for (size_t c = 0; c < no; ++c)
                    for (size_t f = 0; f < n; ++f)
                        out[c][f] = (ST) (out[c][f] * mul + add + drift * (double) (pos + (long long) f));
            }
            else
            {
                for (size_t c = 0; c < no; ++c)
                    for (size_t f = 0; f < n; ++f)
                        out[c][f] = (ST) (in[c % ni][f] * mul + add + drift * (double) (pos + (long long) f));
            }
        }
        pos += (long long) n;
        std::map<int, const std::vector<double>*> sorted;
        for (auto& p : env) sorted[p.first] = &p.second;
        std::string es = "[";
        bool firstE = true;
        for (auto& p : sorted)
        {
            const auto& v = *p.second;
            es += (firstE ? "[" : ",[") + std::to_string (p.first) + "," + std::to_string (v.size()) + ","
                  + apRuns (v.size(), [&v] (size_t k) { return quant (v[k], 16); }) + "]";
            firstE = false;
        }
        ev.raw ("out", bufRuns (out)).raw ("envs", es + "]").send();
    }

    void reset() override { pos = 0; Ev ("reset").i ("oid", oid).i ("uid", uid).t ("k", "dsp").send(); }
    void setValue (int id, double v) override
    {
        if (id == 0) mul = v;
        if (id == 1) add = v;
        Ev ("set").i ("oid", oid).i ("uid", uid).i ("id", id).i ("v", exactInt (v)).send();
    }
    double getValue (int id) const override { return id == 0 ? mul : id == 1 ? add : 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override
    {
        const bool ok = layoutOk (layouts, i, o);
        Ev ("ask").i ("oid", oid).i ("uid", uid).t ("k", "dsp").t ("what", "layout").i ("i", i).i ("o", o).i ("sr4", 0).b ("ans", ok).send();
        return ok;
    }
    bool supportsSampleRate (double r) const override
    {
        const bool ok = rateOk (rates, r);
        Ev ("ask").i ("oid", oid).i ("uid", uid).t ("k", "dsp").t ("what", "rate").i ("i", 0).i ("o", 0).i ("sr4", sr4 (r)).b ("ans", ok).send();
        return ok;
    }
    bool supportsEnvelopeFor (int id) const override { return envIds.count (id) > 0; }
    void represent (std::ostream& s) const override { s << "D" << uid; }

    std::unique_ptr<hart::DSP<ST>> copy() const override { return hart::make_unique<SpyDSP> (*this); }
    std::unique_ptr<hart::DSP<ST>> move() override { return hart::make_unique<SpyDSP> (std::move (*this)); }
};

// A DSP that can be neither copied nor moved
template <typename SampleType>
class FixedDSP : public SpyDSP<SampleType>
{
    template <typename T> using unique_ptr = std::unique_ptr<T>;
public:
    template <typename T> using DSP = hart::DSP<T>;
    FixedDSP (long long u) : SpyDSP<SampleType> (u) {}
    HART_DSP_FORBID_COPY_AND_MOVE
};

template <typename ST>
class SpySignal : public hart::Signal<ST>
{
public:
    long long uid, oid;
    std::string chans = "any", rates = "any";
    long long pos = 0, bias = 0;

    SpySignal (long long u) : uid (u), oid (nextOid++) { logObj ("sig", oid, uid, "new", 0); }
    SpySignal (const SpySignal& o) : hart::Signal<ST> ((ann (o), o)), uid (o.uid), oid (nextOid++), chans (o.chans), rates (o.rates), pos (o.pos), bias (o.bias)
    { logObj ("sig", oid, uid, "copy", o.oid); }
    SpySignal (SpySignal&& o) : hart::Signal<ST> (std::move (o)), uid (o.uid), oid (nextOid++), chans (o.chans), rates (o.rates), pos (o.pos), bias (o.bias)
    { logObj ("sig", oid, uid, "move", o.oid); }
    SpySignal& operator= (const SpySignal& o) { hart::Signal<ST>::operator= (o); uid = o.uid; chans = o.chans; rates = o.rates; pos = o.pos; bias = o.bias; return *this; }
    SpySignal& operator= (SpySignal&& o) { hart::Signal<ST>::operator= (std::move (o)); uid = o.uid; chans = o.chans; rates = o.rates; pos = o.pos; bias = o.bias; return *this; }
    static void ann (const SpySignal&) {}

    bool supportsNumChannels (size_t n) const override
    {
        const bool ok = chans == "any" || (long long) n <= std::stoll (chans);
        Ev ("ask").i ("oid", oid).i ("uid", uid).t ("k", "sig").t ("what", "layout").i ("i", n).i ("o", n).i ("sr4", 0).b ("ans", ok).send();
        return ok;
    }
    bool supportsSampleRate (double r) const override
    {
        const bool ok = rateOk (rates, r);
        Ev ("ask").i ("oid", oid).i ("uid", uid).t ("k", "sig").t ("what", "rate").i ("i", 0).i ("o", 0).i ("sr4", sr4 (r)).b ("ans", ok).send();
        return ok;
    }
    void prepare (double sr, size_t o, size_t mx) override
    { Ev ("prep").i ("oid", oid).i ("uid", uid).t ("k", "sig").i ("sr4", sr4 (sr)).i ("i", o).i ("o", o).i ("max", mx).send(); }
    void renderNextBlock (hart::AudioBuffer<ST>& out) override
    {
        const size_t n = out.getNumFrames();
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < n; ++f)
                out[c][f] = (ST) ((pos + (long long) f + 1) * 128 + (long long) c + bias);
        Ev ("render").i ("oid", oid).i ("uid", uid).i ("pos", pos).i ("n", n).i ("o", out.getNumChannels()).raw ("out", bufRuns (out)).send();
        pos += (long long) n;
    }
    void reset() override { pos = 0; Ev ("reset").i ("oid", oid).i ("uid", uid).t ("k", "sig").send(); }
    void represent (std::ostream& s) const override { s << "S" << uid; }
    std::unique_ptr<hart::Signal<ST>> copy() const override { return hart::make_unique<SpySignal> (*this); }
    std::unique_ptr<hart::Signal<ST>> move() override { return hart::make_unique<SpySignal> (std::move (*this)); }
};

template <typename ST>
class SpyMatcher : public hart::Matcher<ST>
{
public:
    long long uid, oid;
    bool perBlock = true;
    std::set<long long> fail;     // stream positions (frames since reset) that do not match
    long long fch = 0;
    long long pos = 0;
    size_t lastFrame = 0;

    SpyMatcher (long long u) : uid (u), oid (nextOid++) {}
    SpyMatcher (const SpyMatcher& o) : hart::Matcher<ST> (o), uid (o.uid), oid (nextOid++), perBlock (o.perBlock), fail (o.fail), fch (o.fch), pos (o.pos) {}
    SpyMatcher (SpyMatcher&& o) : hart::Matcher<ST> (std::move (o)), uid (o.uid), oid (nextOid++), perBlock (o.perBlock), fail (o.fail), fch (o.fch), pos (o.pos) {}

    void prepare (double sr, size_t o, size_t mx) override
    { Ev ("prep").i ("oid", oid).i ("uid", uid).t ("k", "mat").i ("sr4", sr4 (sr)).i ("i", o).i ("o", o).i ("max", mx).send(); }
    bool match (const hart::AudioBuffer<ST>& a) override
    {
        const long long n = (long long) a.getNumFrames();
        auto it = fail.lower_bound (pos);
        const bool ok = it == fail.end() || *it >= pos + n;
        lastFrame = ok ? 0 : (size_t) (*it - pos);
        Ev ("match").i ("oid", oid).i ("uid", uid).i ("pos", pos).i ("n", n).i ("o", a.getNumChannels()).b ("ans", ok)
            .i ("ff", ok ? -1 : (long long) lastFrame).i ("fc", fch).raw ("data", bufRuns (a)).send();
        pos += n;
        return ok;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { pos = 0; Ev ("reset").i ("oid", oid).i ("uid", uid).t ("k", "mat").send(); }
    hart::MatcherFailureDetails getFailureDetails() const override
    {
        hart::MatcherFailureDetails d;
        d.frame = lastFrame; d.channel = (size_t) fch;
        d.description = "why" + std::to_string (uid) + "/" + std::to_string (lastFrame) + ".";
        return d;
    }
    void represent (std::ostream& s) const override { s << "M" << uid << "."; }
    std::unique_ptr<hart::Matcher<ST>> copy() const override { return hart::make_unique<SpyMatcher> (*this); }
    std::unique_ptr<hart::Matcher<ST>> move() override { return hart::make_unique<SpyMatcher> (std::move (*this)); }
};

// Passes always; digests everything it is shown
static std::map<long long, std::pair<Digest, long long>> captured;

template <typename ST>
class CapMatcher : public hart::Matcher<ST>
{
public:
    long long uid;
    std::vector<std::vector<ST>> chans;
    CapMatcher (long long u) : uid (u) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<ST>& a) override
    {
        chans.resize (a.getNumChannels());
        Digest d;
        long long n = 0;
        for (size_t c = 0; c < a.getNumChannels(); ++c)
        {
            chans[c].insert (chans[c].end(), a[c], a[c] + a.getNumFrames());
            d.add (chans[c].data(), chans[c].size() * sizeof (ST));
            n = (long long) chans[c].size();
        }
        captured[uid] = { d, n };
        return true;
    }
    bool canOperatePerBlock() override { return true; }
    void reset() override { chans.clear(); }
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& s) const override { s << "Cap" << uid; }
    std::unique_ptr<hart::Matcher<ST>> copy() const override { return hart::make_unique<CapMatcher> (*this); }
    std::unique_ptr<hart::Matcher<ST>> move() override { return hart::make_unique<CapMatcher> (std::move (*this)); }
};

// ---------------------------------------------------------------- failure reports
static std::string after (const std::string& t, const std::string& key, bool& found)
{
    const auto p = t.find (key);
    found = p != std::string::npos;
    if (! found) return "";
    auto q = t.find ('\n', p + key.size());
    return t.substr (p + key.size(), q == std::string::npos ? std::string::npos : q - p - key.size());
}

// number at the start of t as an integer count of its last printed decimal
static void decimals (const std::string& t, long long& units, long long& decs, long long& value)
{
    size_t p = 0;
    std::string digits;
    decs = 0;
    bool dot = false;
    if (p < t.size() && t[p] == '-') { digits += '-'; ++p; }
    for (; p < t.size() && (std::isdigit ((unsigned char) t[p]) || (t[p] == '.' && ! dot)); ++p)
    {
        if (t[p] == '.') dot = true;
        else { digits += t[p]; if (dot) ++decs; }
    }
    const double u = digits.empty() || digits == "-" ? 2e9 : std::strtod (digits.c_str(), nullptr);
    units = std::abs (u) > 1.9e9 ? codeBig : (long long) u;
    value = exactInt (std::strtod (t.c_str(), nullptr));
}

static std::string parseReport (const std::string& m)
{
    const auto nl = m.find ("\nCondition: ");
    const std::string head = nl == std::string::npos ? m.substr (0, m.find ('\n')) : m.substr (0, nl);
    std::string kind = head, label;
    const auto at = head.find (" at \"");
    const bool hasLabel = at != std::string::npos && head.back() == '"';
    if (hasLabel) { kind = head.substr (0, at); label = head.substr (at + 5, head.size() - at - 6); }
    auto hasWord = [&kind] (const char* w) { return kind.find (w) != std::string::npos; };
    bool f, fc, ff, ft, fv;
    const std::string cond = nl == std::string::npos ? std::string() : after (m, "Condition: ", f);
    const std::string ch = after (m, "\nChannel: ", fc), fr = after (m, "\nFrame: ", ff), ts = after (m, "\nTimestamp: ", ft), sv = after (m, "\nSample value: ", fv);
    long long tsu = 0, tsd = 0, tsv = 0, svu = 0, svd = 0, svv = 0;
    if (ft) decimals (ts, tsu, tsd, tsv);
    if (fv) decimals (sv, svu, svd, svv);
    std::string desc;
    const auto svp = m.find ("\nSample value: ");
    if (fv) { const auto e = m.find ('\n', svp + 1); if (e != std::string::npos) desc = m.substr (e + 1); }
    long long dbd = -1, dbu, dbv;
    const auto par = sv.find (" (");
    if (fv && par != std::string::npos && sv.find_first_of ("0123456789", par) != std::string::npos) decimals (sv.substr (par + 2), dbu, dbd, dbv);
    Ev e ("x");
    e.s = "{\"lvl\":\"" + std::string (hasWord ("assert") ? "assert" : hasWord ("expect") ? "expect" : "?") + "\"";
    e.t ("pol", hasWord ("True") ? "T" : hasWord ("False") ? "F" : "?").b ("hasLabel", hasLabel).t ("label", label).t ("cond", cond)
        .b ("det", fc && ff && ft && fv).i ("ch", fc ? std::atoll (ch.c_str()) : -1).i ("fr", ff ? std::atoll (fr.c_str()) : -1)
        .i ("ts", tsu).i ("tsd", tsd).i ("sv", svv).i ("svd", svd).t ("desc", desc).i ("dbd", dbd);
    return e.s + "}";
}

// ---------------------------------------------------------------- file observation
struct FileState { long long size; long long mtime; uint64_t hash; };

static void scan (const std::string& root, const std::string& rel, std::map<std::string, FileState>& out)
{
    DIR* d = opendir ((root + "/" + rel).c_str());
    if (! d) return;
    while (dirent* e = readdir (d))
    {
        const std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        const std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat ((root + "/" + r).c_str(), &st) != 0) continue;
        if (S_ISDIR (st.st_mode)) scan (root, r, out);
        else
        {
            bool ex;
            auto c = slurp (root + "/" + r, ex);
            Digest dg;
            dg.add (c.data(), c.size());
            out[r] = FileState { (long long) st.st_size, (long long) st.st_mtim.tv_sec * 1000000000LL + st.st_mtim.tv_nsec, dg.h };
        }
    }
    closedir (d);
}

static void removeTree (const std::string& root, const std::string& rel)
{
    const std::string p = rel.empty() ? root : root + "/" + rel;
    DIR* d = opendir (p.c_str());
    if (! d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir (d)) { const std::string n = e->d_name; if (n != "." && n != "..") names.push_back (n); }
    closedir (d);
    for (auto& n : names)
    {
        const std::string r = rel.empty() ? n : rel + "/" + n;
        struct stat st;
        if (lstat ((root + "/" + r).c_str(), &st) != 0) continue;
        if (S_ISDIR (st.st_mode)) { removeTree (root, r); rmdir ((root + "/" + r).c_str()); }
        else unlink ((root + "/" + r).c_str());
    }
}

static std::string scratch()   // created by the driver; holds data/ cwd/ abs/
{
    static std::string s;
    if (s.empty()) { const char* e = std::getenv ("HX_SCRATCH"); s = e ? e : ""; if (s.empty()) { std::fprintf (stderr, "HX_SCRATCH?\n"); std::exit (64); } }
    return s;
}

static std::string resolve (const std::string& p)   // "@abs/x" -> absolute scratch path
{
    return p.compare (0, 1, "@") == 0 ? scratch() + "/" + p.substr (1) : p;
}

// where a requested path must end up, relative to the scratch directory
static std::string place (const std::string& p)
{
    const std::string f = p.empty() ? "" : p[0] == '@' ? p.substr (1) : "data/" + p;
    const auto q = f.rfind ('/');
    return "{\"dir\":\"" + Ev::esc (q == std::string::npos ? "" : f.substr (0, q)) + "\",\"file\":\"" + Ev::esc (f) + "\"}";
}

// ---------------------------------------------------------------- interpreter
template <typename ST>
struct Interp
{
    std::map<long long, std::unique_ptr<hart::DSP<ST>>> dsps;
    std::map<long long, std::unique_ptr<hart::Signal<ST>>> sigs;
    std::unique_ptr<hart::AudioTestBuilder<ST>> host;
    std::string savePath, plotPath;

    static SpyDSP<ST>* spy (hart::DSP<ST>* d) { return dynamic_cast<SpyDSP<ST>*> (d); }
    static SpySignal<ST>* spy (hart::Signal<ST>* d) { return dynamic_cast<SpySignal<ST>*> (d); }

    std::unique_ptr<hart::DSP<ST>> makeDsp (const Cmd& c)
    {
        const std::string kind = c.s ("kind", "spy");
        if (kind == "gaindb") return hart::make_unique<hart::GainDb<ST>> (c.d ("v"));
        if (kind == "gainlin") return hart::make_unique<hart::GainLinear<ST>> (c.d ("v"));
        if (kind == "clip") return hart::make_unique<hart::HardClip<ST>> (c.d ("v"));
        std::unique_ptr<SpyDSP<ST>> d;
        if (kind == "fixed") d = hart::make_unique<FixedDSP<ST>> (c.i ("uid"));
        else d = hart::make_unique<SpyDSP<ST>> (c.i ("uid"));
        d->layouts = c.s ("layouts", "any"); d->rates = c.s ("rates", "any");
        d->mul = c.d ("mul", 1); d->add = c.d ("add", 0); d->drift = c.d ("drift", 0);
        std::string ids = "[";
        for (auto x : c.li ("envs")) { d->envIds.insert ((int) x); ids += (ids.size() > 1 ? "," : "") + std::to_string (x); }
        Ev ("def").t ("k", "dsp").i ("oid", d->oid).i ("uid", d->uid).i ("mul", exactInt (d->mul)).i ("add", exactInt (d->add)).i ("drift", exactInt (d->drift))
            .b ("fixed", kind == "fixed").raw ("ids", ids + "]").send();
        return std::unique_ptr<hart::DSP<ST>> (d.release());
    }

    std::unique_ptr<hart::Signal<ST>> makeSig (const Cmd& c)
    {
        const std::string kind = c.s ("kind", "spy");
        using Sweep = hart::SineSweep<ST>;
        if (kind == "silence") return hart::make_unique<hart::Silence<ST>>();
        if (kind == "sine") return hart::make_unique<hart::SineWave<ST>> (c.d ("f", 1000), c.d ("ph"));
        if (kind == "noise") return c.has ("seed") ? hart::make_unique<hart::WhiteNoise<ST>> ((uint_fast32_t) c.i ("seed")) : hart::make_unique<hart::WhiteNoise<ST>>();
        if (kind == "sweep")
            return hart::make_unique<Sweep> (c.d ("dur", 1), c.d ("f0", 20), c.d ("f1", 20000), c.s ("type", "log") == "log" ? Sweep::SweepType::log : Sweep::SweepType::linear,
                                             c.s ("loop", "no") == "yes" ? Sweep::Loop::yes : Sweep::Loop::no, c.d ("ph"));
        if (kind == "wav")
            return hart::make_unique<hart::WavFile<ST>> (resolve (c.s ("path")), c.s ("loop", "no") == "yes" ? hart::WavFile<ST>::Loop::yes : hart::WavFile<ST>::Loop::no);
        auto s = hart::make_unique<SpySignal<ST>> (c.i ("uid"));
        s->chans = c.s ("chans", "any"); s->rates = c.s ("rates", "any"); s->bias = c.i ("bias");
        Ev ("def").t ("k", "sig").i ("oid", s->oid).i ("uid", s->uid).i ("bias", s->bias).send();
        return std::unique_ptr<hart::Signal<ST>> (s.release());
    }

    hart::SegmentedEnvelope makeEnv (const Cmd& c)
    {
        // linear from v0 by slope (both in sixteenths) per frame for len frames at the given rate, then constant
        const double v0 = c.d ("v0") / 16, slope = c.d ("slope") / 16, len = c.d ("len"), rate = c.d ("sr4") / 4;
        hart::SegmentedEnvelope e (v0);
        if (len > 0) e.rampTo (v0 + slope * len, len / rate);
        return e;
    }

    template <typename M>
    std::string addCheck (const std::string& lvl, bool pol, const std::string& how, M& m)
    {
        auto& h = *host;
        using Base = hart::Matcher<ST>;
        return guarded ([&] {
            const bool ex = lvl == "expect";
            #define HX_ADD(ARG) do { if (ex && pol) h.expectTrue (ARG); else if (ex) h.expectFalse (ARG); else if (pol) h.assertTrue (ARG); else h.assertFalse (ARG); } while (0)
            if (how == "move") HX_ADD (std::move (m));
            else if (how == "const") { const M& cm = m; HX_ADD (cm); }
            else if (how == "base") { const Base& bm = m; HX_ADD (bm); }
            else HX_ADD (m);
        });
    }

    void doCheck (const Cmd& c)
    {
        const std::string lvl = c.s ("lvl", "expect"), how = c.s ("how", "copy"), kind = c.s ("m", "spy");
        const bool pol = c.i ("pol", 1) != 0;
        std::string res;
        long long pb = 1;
        if (kind == "spy")
        {
            SpyMatcher<ST> m (c.i ("uid"));
            m.perBlock = c.i ("pb", 1) != 0; pb = m.perBlock;
            for (auto x : c.li ("fail")) m.fail.insert (x);
            m.fch = c.i ("fch");
            res = addCheck (lvl, pol, how, m);
        }
        else if (kind == "cap") { CapMatcher<ST> m (c.i ("uid")); res = addCheck (lvl, pol, how, m); }
        else if (kind == "eq") { hart::EqualsTo<ST> m (*sigs.at (c.i ("s")), c.d ("tol", 1e-5)); res = addCheck (lvl, pol, how, m); }
        else if (kind == "below") { hart::PeaksBelow<ST> m (c.d ("db"), c.d ("tol", 1e-3)); res = addCheck (lvl, pol, how, m); }
        else if (kind == "at") { hart::PeaksAt<ST> m (c.d ("db"), c.d ("tol", 1e-3)); pb = 0; res = addCheck (lvl, pol, how, m); }
        std::string fl = "[";
        for (auto x : c.li ("fail")) fl += (fl.size() > 1 ? "," : "") + std::to_string (x);
        Ev ("check").t ("m", kind).i ("uid", c.i ("uid")).t ("lvl", lvl).b ("pol", pol).b ("pb", pb != 0).raw ("fail", fl + "]").i ("fch", c.i ("fch")).t ("res", res).send();
    }

    void cfg (const char* op, long long v, long long w, const std::string& t, const std::string& res)
    { Ev ("cfg").t ("op", op).i ("v", v).i ("w", w).t ("t", t).t ("res", res).send(); }

    static hart::Save mode (const std::string& m) { return m == "always" ? hart::Save::always : m == "fails" ? hart::Save::whenFails : hart::Save::never; }
    static hart::WavFormat fmt (const std::string& f)
    { return f == "pcm16" ? hart::WavFormat::pcm16 : f == "pcm32" ? hart::WavFormat::pcm32 : f == "float32" ? hart::WavFormat::float32 : hart::WavFormat::pcm24; }

    void makeHost (const Cmd& c)
    {
        auto& up = dsps.at (c.i ("d"));
        auto* sp = spy (up.get());
        const std::string how = c.s ("how", "uptr");
        const long long oid = sp ? sp->oid : 0, uid = sp ? sp->uid : 0;
        Ev ("hand").t ("how", how).i ("oid", oid).i ("uid", uid).send();
        using B = hart::AudioTestBuilder<ST>;
        const std::string res = guarded ([&] {
            if (how == "uptr") host.reset (new B (hart::processAudioWith (std::move (up))));
            else if (how == "copy") host.reset (sp ? new B (hart::processAudioWith (*sp)) : new B (hart::processAudioWith (*up)));
            else if (how == "bcopy") host.reset (new B (hart::processAudioWith (*up)));
            else if (how == "ccopy") { const hart::DSP<ST>& cd = *up; host.reset (new B (hart::processAudioWith (cd))); }
            else if (how == "move") host.reset (sp ? new B (hart::processAudioWith (std::move (*sp))) : new B (hart::processAudioWith (std::move (*up))));
        });
        Ev ("host").t ("how", how).i ("oid", oid).i ("uid", uid).t ("res", res).send();
    }

    void doRun (const Cmd& c)
    {
        hart::ExpectationFailureMessages::clear();
        captured.clear();
        std::map<std::string, FileState> before, afterRun;
        const bool files = c.i ("files", 0) != 0;
        if (files) scan (scratch(), "", before);
        Ev ("run").t ("key", c.s ("key", "")).send();
        std::unique_ptr<hart::DSP<ST>> ret;
        std::string what;
        const std::string res = guarded ([&] { ret = host->process(); }, &what);
        const std::string exc = res == "TestAssertException" ? parseReport (what) : std::string ("{}");
        std::string ms = "[";
        for (auto& m : hart::ExpectationFailureMessages::get()) ms += (ms.size() > 1 ? "," : "") + parseReport (m);
        std::string caps = "[";
        for (auto& p : captured) caps += (caps.size() > 1 ? ",[" : "[") + std::to_string (p.first) + "," + std::to_string (p.second.first.value()) + "," + std::to_string (p.second.second) + "]";
        auto* sp = spy (ret.get());
        Ev ("end").t ("res", res).b ("ret", ret != nullptr).i ("roid", sp ? sp->oid : 0).raw ("msgs", ms + "]").raw ("exc", exc).raw ("caps", caps + "]").raw ("savePlace", place (savePath)).raw ("plotPlace", place (plotPath)).send();
        savePath = plotPath = "";
        if (ret != nullptr) dsps[c.i ("r", 99)] = std::move (ret);
        host.reset();
        if (files)
        {
            scan (scratch(), "", afterRun);
            std::string fs = "[";
            auto add = [&fs] (const std::string& s) { fs += (fs.size() > 1 ? "," : "") + s; };
            for (auto& p : before) if (! afterRun.count (p.first)) { Ev e ("x"); e.s = "{\"path\":\"" + Ev::esc (p.first) + "\",\"kind\":\"gone\""; add (e.s + "}"); }
            for (auto& p : afterRun)
            {
                auto it = before.find (p.first);
                if (it != before.end() && it->second.size == p.second.size && it->second.mtime == p.second.mtime && it->second.hash == p.second.hash) continue;
                Ev e ("x");
                e.s = "{\"path\":\"" + Ev::esc (p.first) + "\"";
                Wav w = readWav (scratch() + "/" + p.first);
                if (w.ok)
                {
                    std::string runs = "[";
                    if (w.format == 3 && w.bits == 32)
                        for (long long ch = 0; ch < w.channels; ++ch)
                            runs += (ch ? "," : "") + apRuns ((size_t) w.frames, [&] (size_t k) { return exactInt (w.f32 (k, (size_t) ch)); });
                    e.t ("kind", "wav").i ("fmt", w.format).i ("bits", w.bits).i ("ch", w.channels).i ("rate", w.rate).i ("frames", w.frames).b ("sizes", w.sizesOk).raw ("data", runs + "]");
                }
                else
                {
                    bool ex;
                    auto d = slurp (scratch() + "/" + p.first, ex);
                    const std::string s (d.begin(), d.end());
                    const bool svg = s.find ("<svg") != std::string::npos && s.rfind ("</svg>") != std::string::npos;
                    size_t n = 0;
                    for (size_t q = s.find ("class=\"svg-plot-line "); q != std::string::npos; q = s.find ("class=\"svg-plot-line ", q + 1)) ++n;
                    e.t ("kind", svg ? "svg" : "other").i ("lines", (long long) n);
                }
                add (e.s + "}");
            }
            Ev ("files").raw ("changed", fs + "]").send();
        }
    }

    void one (const Cmd& c)
    {
        auto& h = host;
        std::string res;
        static const std::set<std::string> hostOps { "rate", "block", "inch", "outch", "short", "dur", "label", "value", "input", "save", "plot", "check", "run" };
        if (! host && hostOps.count (c.op)) return;   // no test could be built
        if (c.op == "dsp") { dsps[c.i ("d")] = makeDsp (c); }
        else if (c.op == "sig")
        {
            std::unique_ptr<hart::Signal<ST>> p;
            res = guarded ([&] { p = makeSig (c); });
            if (p) sigs[c.i ("s")] = std::move (p);
        }
        else if (c.op == "fx")
        {
            auto& s = *sigs.at (c.i ("s"));
            auto& up = dsps.at (c.i ("d"));
            auto* sp = spy (up.get());
            auto* ss = spy (&s);
            const std::string how = c.s ("how", "copy");
            const long long duid = sp ? sp->uid : 0, doid = sp ? sp->oid : 0;
            Ev ("fxb").i ("suid", ss ? ss->uid : 0).i ("soid", ss ? ss->oid : 0).i ("duid", duid).i ("doid", doid).t ("how", how).send();
            res = guarded ([&] {
                if (how == "copy") { const hart::DSP<ST>& cd = *up; s.followedBy (cd); }
                else if (how == "dcopy") { if (sp) s.followedBy (*sp); else { const hart::DSP<ST>& cd = *up; s.followedBy (cd); } }
                else if (how == "move") { if (sp) s.followedBy (std::move (*sp)); else { s.followedBy (std::move (up)); } }
                else if (how == "uptr") s.followedBy (std::move (up));
                else if (how == "rsh") { const hart::DSP<ST>& cd = *up; s >> cd; }
                else if (how == "rshu") s >> std::move (up);
                else if (how == "rvrsh") { const hart::DSP<ST>& cd = *up; std::move (s) >> cd; }
                else if (how == "rvrshu") std::move (s) >> std::move (up);
            });
            Ev ("fx").i ("soid", ss ? ss->oid : 0).i ("duid", duid).t ("how", how).t ("res", res).send();
        }
        else if (c.op == "denv")
        {
            auto& d = *dsps.at (c.i ("d"));
            auto e = makeEnv (c);
            auto* sp = spy (&d);
            res = guarded ([&] { if (c.s ("how", "l") == "r") d.withEnvelope ((int) c.i ("id"), std::move (e)); else d.withEnvelope ((int) c.i ("id"), e); });
            bool has = d.hasEnvelopeFor ((int) c.i ("id"));
            Ev ("denv").i ("uid", sp ? sp->uid : 0).i ("oid", sp ? sp->oid : 0).i ("id", c.i ("id")).i ("v0", c.i ("v0")).i ("slope", c.i ("slope")).i ("len", c.i ("len")).i ("sr4", c.i ("sr4"))
                .b ("has", has).t ("res", res).send();
        }
        else if (c.op == "host") makeHost (c);
        else if (c.op == "rate") { res = guarded ([&] { h->withSampleRate (c.d ("v4") / 4); }); cfg ("rate", c.i ("v4"), 0, "", res); }
        else if (c.op == "block") { res = guarded ([&] { h->withBlockSize ((size_t) c.i ("v")); }); cfg ("block", c.i ("v"), 0, "", res); }
        else if (c.op == "inch") { res = guarded ([&] { h->withInputChannels ((size_t) c.i ("v")); }); cfg ("inch", c.i ("v"), 0, "", res); }
        else if (c.op == "outch") { res = guarded ([&] { h->withOutputChannels ((size_t) c.i ("v")); }); cfg ("outch", c.i ("v"), 0, "", res); }
        else if (c.op == "short")
        {
            const std::string w = c.s ("w");
            res = guarded ([&] {
                if (w == "stereoIn") h->withStereoInput(); else if (w == "stereoOut") h->withStereoOutput();
                else if (w == "monoIn") h->withMonoInput(); else if (w == "monoOut") h->withMonoOutput();
                else if (w == "inMono") h->inMono(); else if (w == "inStereo") h->inStereo(); });
            cfg (w.c_str(), 0, 0, "", res);
        }
        else if (c.op == "dur") { res = guarded ([&] { h->withDuration (c.d ("n") / c.d ("den")); }); cfg ("dur", c.i ("n"), c.i ("den"), "", res); }
        else if (c.op == "label") { res = guarded ([&] { h->withLabel (c.s ("t")); }); cfg ("label", 0, 0, c.s ("t"), res); }
        else if (c.op == "value") { res = guarded ([&] { h->withValue ((int) c.i ("id"), c.d ("v")); }); cfg ("value", c.i ("id"), c.i ("v"), "", res); }
        else if (c.op == "input")
        {
            auto& s = *sigs.at (c.i ("s"));
            auto* ss = spy (&s);
            Ev ("inb").i ("uid", ss ? ss->uid : 0).i ("oid", ss ? ss->oid : 0).send();
            res = guarded ([&] { h->withInputSignal (s); });
            cfg ("input", ss ? ss->uid : 0, ss ? ss->oid : 0, "", res);
        }
        else if (c.op == "save") { if (! c.s ("path").empty()) savePath = c.s ("path"); res = guarded ([&] { if (c.has ("fmt")) h->saveOutputTo (resolve (c.s ("path")), mode (c.s ("mode")), fmt (c.s ("fmt"))); else h->saveOutputTo (resolve (c.s ("path")), mode (c.s ("mode"))); });
            Ev ("save").t ("path", c.s ("path")).t ("mode", c.s ("mode")).t ("fmt", c.s ("fmt", "pcm24")).t ("res", res).send(); }
        else if (c.op == "plot") { if (! c.s ("path").empty()) plotPath = c.s ("path"); res = guarded ([&] { h->savePlotTo (resolve (c.s ("path")), mode (c.s ("mode"))); });
            Ev ("plot").t ("path", c.s ("path")).t ("mode", c.s ("mode")).t ("fmt", "").t ("res", res).send(); }
        else if (c.op == "check") doCheck (c);
        else if (c.op == "run") doRun (c);
        else if (c.op == "junk")
        {
            const std::string p = scratch() + "/" + c.s ("path");
            { std::ofstream f (p); f << "junk" << c.i ("id"); }
            struct timespec ts[2] = { { 1000000, 0 }, { 1000000, 0 } };
            utimensat (AT_FDCWD, p.c_str(), ts, 0);
        }
        else if (c.op == "mkwav") writeOwnWav (scratch() + "/" + c.s ("path"), c.i ("ch"), c.i ("n"), c.i ("rate"), c.i ("seed"), c.i ("bits", -32));
        else if (c.op == "mkdir") { mkdir ((scratch() + "/" + c.s ("path")).c_str(), 0700); Ev ("mkdir").t ("path", c.s ("path")).send(); }
        // ---- plain renders of signals (no host)
        else if (c.op == "scopy") { quietObjs = false; auto* a = sigs.at (c.i ("from")).get(); auto n = a->copy(); auto* x = spy (a); auto* y = spy (n.get());
            Ev ("scopy").i ("from", x ? x->oid : 0).i ("to", y ? y->oid : 0).t ("how", "copy").send(); sigs[c.i ("to")] = std::move (n); }
        else if (c.op == "smove") { auto* a = sigs.at (c.i ("from")).get(); auto n = a->move(); auto* x = spy (a); auto* y = spy (n.get());
            Ev ("scopy").i ("from", x ? x->oid : 0).i ("to", y ? y->oid : 0).t ("how", "move").send(); sigs[c.i ("to")] = std::move (n); }
        else if (c.op == "sassign")
        {
            auto* a = spy (sigs.at (c.i ("from")).get()); auto* b = spy (sigs.at (c.i ("to")).get());
            const bool mv = c.s ("how") == "move";
            Ev ("sassb").i ("from", a->oid).i ("to", b->oid).t ("how", mv ? "move" : "copy").send();
            if (mv) *b = std::move (*a); else *b = *a;
            Ev ("sassign").i ("from", a->oid).i ("to", b->oid).t ("how", mv ? "move" : "copy").send();
        }
        else if (c.op == "sprep") { auto* x = sigs.at (c.i ("s")).get(); res = guarded ([&] { x->prepareWithDSPChain (c.d ("v4") / 4, (size_t) c.i ("ch"), (size_t) c.i ("max")); });
            Ev ("sprep").i ("soid", spy (x) ? spy (x)->oid : 0).i ("sr4", c.i ("v4")).i ("ch", c.i ("ch")).i ("max", c.i ("max")).t ("res", res).send(); }
        else if (c.op == "sreset") { auto* x = sigs.at (c.i ("s")).get(); Ev ("sresb").i ("soid", spy (x) ? spy (x)->oid : 0).send(); res = guarded ([&] { x->resetWithDSPChain(); });
            Ev ("sreset").i ("soid", spy (x) ? spy (x)->oid : 0).t ("res", res).send(); }
        else if (c.op == "srender")
        {
            auto* x = sigs.at (c.i ("s")).get();
            hart::AudioBuffer<ST> b ((size_t) c.i ("ch"), (size_t) c.i ("n"));
            Ev ("srenb").i ("soid", spy (x) ? spy (x)->oid : 0).i ("n", c.i ("n")).i ("ch", c.i ("ch")).send();
            res = guarded ([&] { x->renderNextBlockWithDSPChain (b); });
            Ev ("srender").i ("soid", spy (x) ? spy (x)->oid : 0).i ("n", c.i ("n")).i ("ch", c.i ("ch")).raw ("out", bufRuns (b)).t ("res", res).send();
        }
        else if (c.op == "srepr")
        {
            auto* x = sigs.at (c.i ("s")).get();
            std::ostringstream os; os << *x;
            std::string names = "[";
            std::string t = os.str();
            size_t p = 0;
            while (true)
            {
                const auto q = t.find (" >> ", p);
                names += (names.size() > 1 ? ",\"" : "\"") + Ev::esc (t.substr (p, q == std::string::npos ? std::string::npos : q - p)) + "\"";
                if (q == std::string::npos) break;
                p = q + 4;
            }
            Ev ("srepr").i ("soid", spy (x) ? spy (x)->oid : 0).raw ("names", names + "]").send();
        }
        // ---- plain DSP objects (no host)
        else if (c.op == "dcopy" || c.op == "dmove")
        {
            auto* a = spy (dsps.at (c.i ("from")).get());
            auto n = c.op == "dcopy" ? a->copy() : a->move();
            Ev ("dcopy").i ("from", a->oid).i ("to", spy (n.get())->oid).t ("how", c.op == "dcopy" ? "copy" : "move").send();
            dsps[c.i ("to")] = std::move (n);
        }
        else if (c.op == "dassign")
        {
            auto* a = spy (dsps.at (c.i ("from")).get()); auto* b = spy (dsps.at (c.i ("to")).get());
            const bool mv = c.s ("how") == "move";
            if (mv) *b = std::move (*a); else *b = *a;
            Ev ("dassign").i ("from", a->oid).i ("to", b->oid).t ("how", mv ? "move" : "copy").send();
        }
        else if (c.op == "dset") { auto* a = dsps.at (c.i ("d")).get(); a->setValue ((int) c.i ("id"), c.d ("v")); }
        else if (c.op == "dprep") { auto* a = dsps.at (c.i ("d")).get(); res = guarded ([&] { a->prepareWithEnvelopes (c.d ("v4") / 4, (size_t) c.i ("i"), (size_t) c.i ("o"), (size_t) c.i ("max")); });
            Ev ("dprep").i ("oid", spy (a)->oid).i ("sr4", c.i ("v4")).i ("max", c.i ("max")).t ("res", res).send(); }
        else if (c.op == "dreset") { auto* a = dsps.at (c.i ("d")).get(); res = guarded ([&] { a->resetWithEnvelopes(); }); Ev ("dreset").i ("oid", spy (a)->oid).t ("res", res).send(); }
        else if (c.op == "dproc")
        {
            auto* a = dsps.at (c.i ("d")).get();
            hart::AudioBuffer<ST> in ((size_t) c.i ("i"), (size_t) c.i ("n")), out ((size_t) c.i ("o"), (size_t) c.i ("n"));
            res = guarded ([&] { if (c.i ("inplace")) a->processWithEnvelopes (in, in); else a->processWithEnvelopes (in, out); });
            Ev ("dproc").i ("oid", spy (a)->oid).i ("n", c.i ("n")).t ("res", res).send();
        }
        else if (c.op == "dhas") { auto* a = dsps.at (c.i ("d")).get(); Ev ("dhas").i ("oid", spy (a)->oid).i ("id", c.i ("id")).b ("ans", a->hasEnvelopeFor ((int) c.i ("id"))).send(); }
        else if (c.op == "drop") { if (c.has ("d")) dsps.erase (c.i ("d")); if (c.has ("s")) sigs.erase (c.i ("s")); }
        else { std::fprintf (stderr, "unknown op %s\n", c.op.c_str()); std::exit (64); }
    }
};

template <typename ST>
void runAs (const std::vector<Cmd>& body)
{
    Interp<ST> in;
    for (size_t i = 1; i < body.size(); ++i) in.one (body[i]);
    quietObjs = true;
}

int main (int argc, char** argv)
{
    return mainLoop (argc, argv, [] (const std::vector<Cmd>& body) {
        nextOid = 1;
        quietObjs = false;
        for (const char* d : { "data", "cwd", "abs" })
        {
            const std::string p = scratch() + "/" + d;
            removeTree (p, "");
            mkdir (p.c_str(), 0700);
        }
        if (chdir ((scratch() + "/cwd").c_str()) != 0) std::exit (64);
        if (body[0].s ("T", "double") == "float") runAs<float> (body); else runAs<double> (body);
    });
}