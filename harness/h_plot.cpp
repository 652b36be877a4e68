// Harness for plots: draws known audio directly or from a test, and reads the lines back out of the svg file.
#define HART_IMPLEMENTATION
#include "hx.hpp"
#include "hart_plot.hpp"
#include <memory>

using namespace hx;

static std::string scratch (const std::string& name) { const char* d = std::getenv ("HX_SCRATCH"); return std::string (d ? d : "/nonexistent") + "/" + name; }

// in 1/64
static long long inCode (long long f, long long c, const Cmd& k) { return k.i ("quiet", 0) ? (k.i ("quiet") == 2 && c == 0 && f == 1 ? 5 : 0) : (long long) wavCode (f, c, k.i ("seed")) * k.i ("mul", 1); }
static long long outCode (long long f, long long c, const Cmd& k) { return inCode (f, c % k.i ("ic"), k) * k.i ("g") + c * k.i ("add"); }

template <typename ST>
class CodeSig : public hart::Signal<ST>
{
public:
    Cmd k; long long pos = 0;
    explicit CodeSig (const Cmd& c) : k (c) {}
    bool supportsNumChannels (size_t) const override { return true; }
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<ST>& out) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = (ST) inCode (pos + (long long) f, (long long) c, k) / (ST) 64;
        pos += (long long) out.getNumFrames();
    }
    void reset() override { pos = 0; }
    void represent (std::ostream& s) const override { s << "Codes"; }
    std::unique_ptr<hart::Signal<ST>> copy() const override { return hart::make_unique<CodeSig> (*this); }
    std::unique_ptr<hart::Signal<ST>> move() override { return hart::make_unique<CodeSig> (std::move (*this)); }
};

template <typename ST>
class CodeDSP : public hart::DSP<ST>
{
public:
    using SampleTypePublicAlias = ST;
    Cmd k;
    explicit CodeDSP (const Cmd& c) : k (c) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<ST>& in, hart::AudioBuffer<ST>& out, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = in[c % in.getNumChannels()][f] * (ST) k.i ("g") + (ST) ((long long) c * k.i ("add")) / (ST) 64;
    }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    bool supportsEnvelopeFor (int) const override { return false; }
    void represent (std::ostream& s) const override { s << "Codes"; }
    std::unique_ptr<hart::DSP<ST>> copy() const override { return hart::make_unique<CodeDSP> (*this); }
    std::unique_ptr<hart::DSP<ST>> move() override { return hart::make_unique<CodeDSP> (std::move (*this)); }
};

// ---------------------------------------------------------------- reading the svg file
static std::string attr (const std::string& tag, const std::string& name)
{
    const size_t p = tag.find (" " + name + "=\"");
    if (p == std::string::npos) return "";
    const size_t b = p + name.size() + 3;
    return tag.substr (b, tag.find ('"', b) - b);
}
static double number (const std::string& t) { return t.empty() ? NAN : std::strtod (t.c_str(), nullptr); }

struct Pane
{
    std::vector<std::vector<std::pair<double, double>>> lines;
    std::vector<std::pair<double, double>> xl, yl;              // labelled ticks: value, pixel
    double maxX = NAN, ymaxV = NAN;
};

static std::map<std::string, Pane> readPlot (const std::string& s)
{
    std::map<std::string, Pane> panes;
    std::string at;                                             // panes are told apart by their place
    std::vector<double> tx, ty;
    size_t p = 0;
    while ((p = s.find ('<', p)) != std::string::npos)
    {
        const size_t e = s.find ('>', p);
        if (e == std::string::npos) break;
        const std::string tag = s.substr (p, e - p);
        if (tag.compare (0, 3, "<g ") == 0 && tag.find ("transform=\"translate(") != std::string::npos) { at = attr (tag, "transform"); tx.clear(); ty.clear(); }
        else if (tag.compare (0, 6, "<path ") == 0 && tag.find ("svg-plot-line") != std::string::npos)
        {
            std::vector<std::pair<double, double>> pts;
            std::istringstream is (attr (tag, "d").substr (1));
            double x, y;
            while (is >> x >> y) pts.push_back (std::make_pair (x, y));
            panes[at].lines.push_back (pts);
        }
        else if (tag.compare (0, 6, "<line ") == 0 && tag.find ("svg-plot-tick") != std::string::npos)
        {
            if (attr (tag, "x1") == attr (tag, "x2")) tx.push_back (number (attr (tag, "x1"))); else ty.push_back (number (attr (tag, "y1")));
        }
        else if (tag.compare (0, 6, "<text ") == 0 && tag.find ("svg-plot-value") != std::string::npos)
        {
            const double v = number (s.substr (e + 1, s.find ('<', e) - e - 1));
            const bool isY = tag.find ("text-anchor:end") != std::string::npos;
            const double px = number (attr (tag, isY ? "y" : "x"));
            double best = NAN;
            for (double t : isY ? ty : tx) if (std::isnan (best) || std::abs (t - px) < std::abs (best - px)) best = t;
            if (std::abs (best - px) < 3) (isY ? panes[at].yl : panes[at].xl).push_back (std::make_pair (v, best));
        }
        p = e;
    }
    return panes;
}

// value = a + b * pixel from two labelled ticks far apart
static bool affine (const std::vector<std::pair<double, double>>& l, double& a, double& b)
{
    size_t i = 0, j = 0;
    for (size_t k = 0; k < l.size(); ++k) { if (l[k].second < l[i].second) i = k; if (l[k].second > l[j].second) j = k; }
    if (l.empty() || l[j].second - l[i].second < 1) return false;
    b = (l[j].first - l[i].first) / (l[j].second - l[i].second);
    a = l[i].first - b * l[i].second;
    return true;
}

static std::string bounds (const std::vector<std::pair<double, double>>& pts, double x, double a, double b)
{
    const double w = 0.03, tol = 0.03;
    double lo = 1e9, hi = -1e9;
    auto take = [&] (double y) { lo = std::min (lo, y); hi = std::max (hi, y); };
    for (size_t i = 0; i < pts.size(); ++i)
    {
        if (std::abs (pts[i].first - x) <= w) take (pts[i].second);
        if (i + 1 < pts.size() && pts[i + 1].first > pts[i].first)
            for (double q : { x - w, x, x + w })
                if (q >= pts[i].first && q <= pts[i + 1].first)
                    take (pts[i].second + (pts[i + 1].second - pts[i].second) * (q - pts[i].first) / (pts[i + 1].first - pts[i].first));
    }
    if (lo > hi) return "[1,0]";
    const double v1 = a + b * (lo - tol), v2 = a + b * (hi + tol);
    return "[" + std::to_string ((long long) std::floor (std::min (v1, v2) * 1e4)) + "," + std::to_string ((long long) std::ceil (std::max (v1, v2) * 1e4)) + "]";
}

template <typename ST>
void plotScenario (const std::vector<Cmd>& cmds)
{
    for (size_t q = 1; q < cmds.size(); ++q)
    {
        const Cmd& c = cmds[q];
        const long long n = c.i ("n"), rate = c.i ("rate"), ic = c.i ("ic"), oc = c.i ("oc");
        const std::string path = scratch ("plot.svg");
        std::remove (path.c_str());
        const std::string r = guarded ([&] {
            if (c.s ("how") == "direct")
            {
                hart::AudioBuffer<ST> in ((size_t) ic, (size_t) n), out ((size_t) oc, (size_t) n);
                for (long long f = 0; f < n; ++f)
                {
                    for (long long k = 0; k < ic; ++k) in[(size_t) k][f] = (ST) inCode (f, k, c) / (ST) 64;
                    for (long long k = 0; k < oc; ++k) out[(size_t) k][f] = (ST) outCode (f, k, c) / (ST) 64;
                }
                hart::plotData (in, out, (double) rate, path);
            }
            else
            {
                CodeDSP<ST> d (c);
                auto t = hart::processAudioWith (d);
                t.withSampleRate ((double) rate).withBlockSize ((size_t) c.i ("block")).withInputSignal (CodeSig<ST> (c)).withDuration ((double) n / (double) rate)
                    .withInputChannels ((size_t) ic).withOutputChannels ((size_t) oc).savePlotTo (path, hart::Save::always);
                if (c.i ("fails", 0)) t.expectTrue (hart::EqualsTo<ST> (hart::SineWave<ST> (1)));
                t.process();
            }
        });
        bool ex;
        auto bytes = slurp (path, ex);
        auto panes = readPlot (std::string (bytes.begin(), bytes.end()));
        // from top to bottom
        std::vector<std::pair<double, const Pane*>> order;
        for (auto& p : panes)
            if (! p.second.lines.empty())
            {
                const size_t sp = p.first.find (' ');
                order.push_back (std::make_pair (sp == std::string::npos ? 0.0 : number (p.first.substr (sp + 1)), &p.second));
            }
        std::sort (order.begin(), order.end());
        std::string out = "[";
        for (auto& o : order)
        {
            const Pane& p = *o.second;
            double ya = 0, yb = 0, xa = 0, xb = 0;
            const bool ok = affine (p.yl, ya, yb) && affine (p.xl, xa, xb);
            out += out.size() > 1 ? ",[" : "[";
            for (size_t k = 0; ok && k < p.lines.size(); ++k)
            {
                const auto& pts = p.lines[k];
                bool finite = ! pts.empty(), forward = true;
                for (size_t i = 0; i < pts.size(); ++i) { finite = finite && std::isfinite (pts[i].first) && std::isfinite (pts[i].second); if (i && pts[i].first < pts[i - 1].first) forward = false; }
                out += std::string (k ? "," : "") + "{\"fin\":" + (finite && forward ? "true" : "false");
                if (finite)
                {
                    out += ",\"t0\":" + std::to_string (quant (xa + xb * pts.front().first, 1e5)) + ",\"t1\":" + std::to_string (quant (xa + xb * pts.back().first, 1e5)) + ",\"v\":[";
                    for (long long f = 0; f < n; ++f) out += (f ? "," : "") + bounds (pts, ((double) f / (double) rate - xa) / xb, ya, yb);
                    out += "]";
                }
                else out += ",\"t0\":-1,\"t1\":-1,\"v\":[]";
                out += "}";
            }
            out += "]";
        }
        Ev e ("plot");
        for (auto& kv : c.a) if (kv.first == "how") e.t ("how", kv.second); else e.i (kv.first.c_str(), std::stoll (kv.second));
        e.t ("res", r).b ("file", ex).raw ("panes", out + "]").send();
    }
}

int main (int argc, char** argv)
{
    return mainLoop (argc, argv, [] (const std::vector<Cmd>& cmds) { if (cmds[0].s ("T", "float") == "double") plotScenario<double> (cmds); else plotScenario<float> (cmds); });
}
