// Common parts of the conformance harnesses: scenario scripts in, event traces (ndjson) out.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include "hart.hpp"

namespace hx
{

// ---------------------------------------------------------------- trace output
inline FILE*& traceFile() { static FILE* f = nullptr; return f; }

struct Ev
{
    std::string s;
    bool sent = false;
    explicit Ev (const char* name) { s = std::string ("{\"e\":\"") + name + "\""; }
    static std::string esc (const std::string& t)
    {
        std::string r;
        for (unsigned char c : t)
        {
            if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
            else if (c == '\n') r += "\\n";
            else if (c == '\r') r += "\\r";
            else if (c == '\t') r += "\\t";
            else if (c < 32 || c > 126) { char b[8]; std::snprintf (b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char) c;
        }
        return r;
    }
    Ev& i (const char* k, long long v) { s += std::string (",\"") + k + "\":" + std::to_string (v); return *this; }
    Ev& b (const char* k, bool v) { s += std::string (",\"") + k + "\":" + (v ? "true" : "false"); return *this; }
    Ev& t (const char* k, const std::string& v) { s += std::string (",\"") + k + "\":\"" + esc (v) + "\""; return *this; }
    Ev& raw (const char* k, const std::string& v) { s += std::string (",\"") + k + "\":" + v; return *this; }
    void send()
    {
        s += "}\n";
        std::fputs (s.c_str(), traceFile());
        std::fflush (traceFile());
        sent = true;
    }
};

// ---------------------------------------------------------------- numbers
constexpr long long nonInt = 1999999999, codeNaN = 2000000001, codeInf = 2000000002, codeBig = 2000000003;

// Exact integer or a marker
inline long long exactInt (double v)
{
    if (std::isnan (v)) return codeNaN;
    if (std::isinf (v)) return v > 0 ? codeInf : -codeInf;
    if (std::abs (v) > 1.9e9) return v > 0 ? codeBig : -codeBig;
    const double r = std::round (v);
    return r == v ? (long long) r : nonInt;
}

// Nearest integer of v * scale or a marker
inline long long quant (double v, double scale)
{
    if (std::isnan (v)) return codeNaN;
    if (std::isinf (v)) return v > 0 ? codeInf : -codeInf;
    const double r = std::round (v * scale);
    if (std::abs (r) > 1.9e9) return r > 0 ? codeBig : -codeBig;
    return (long long) r;
}

// Arithmetic-progression run-length code of integer samples: [[first,step,len],...]
template <typename Get>
std::string apRuns (size_t n, Get get)
{
    std::string s = "[";
    size_t i = 0, runs = 0;
    while (i < n)
    {
        const long long v0 = get (i);
        size_t len = 1;
        long long step = 0;
        if (i + 1 < n)
        {
            step = get (i + 1) - v0;
            len = 2;
            while (i + len < n && get (i + len) - get (i + len - 1) == step) ++len;
        }
        if (std::llabs (step) > 1000000000LL) { step = 0; len = 1; }
        if (runs) s += ",";
        if (runs >= 400) { s += "[" + std::to_string (nonInt) + ",0,1]"; break; }
        s += "[" + std::to_string (v0) + "," + std::to_string (step) + "," + std::to_string (len) + "]";
        ++runs;
        i += len;
    }
    return s + "]";
}

template <typename SampleType>
std::string bufRuns (const hart::AudioBuffer<SampleType>& buf)
{
    std::string s = "[";
    for (size_t c = 0; c < buf.getNumChannels(); ++c)
    {
        if (c) s += ",";
        const SampleType* p = buf[c];
        s += apRuns (buf.getNumFrames(), [p] (size_t i) { return exactInt ((double) p[i]); });
    }
    return s + "]";
}

template <typename SampleType>
std::string bufQuant (const hart::AudioBuffer<SampleType>& buf, double scale)
{
    std::string s = "[";
    for (size_t c = 0; c < buf.getNumChannels(); ++c)
    {
        s += c ? ",[" : "[";
        for (size_t f = 0; f < buf.getNumFrames(); ++f)
            s += (f ? "," : "") + std::to_string (quant ((double) buf[c][f], scale));
        s += "]";
    }
    return s + "]";
}

// 30-bit FNV-style digest of raw bytes
struct Digest
{
    uint64_t h = 1469598103934665603ULL;
    void add (const void* p, size_t n) { auto* b = (const unsigned char*) p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; } }
    long long value() const { return (long long) ((h ^ (h >> 31)) & 0x3fffffff); }
};

// ---------------------------------------------------------------- scripts
using Args = std::map<std::string, std::string>;

struct Cmd
{
    std::string op;
    Args a;
    bool has (const std::string& k) const { return a.count (k) > 0; }
    std::string s (const std::string& k, const std::string& d = "") const { auto it = a.find (k); return it == a.end() ? d : it->second; }
    long long i (const std::string& k, long long d = 0) const { auto it = a.find (k); return it == a.end() ? d : std::stoll (it->second); }
    // a double, also as a fraction "n/d"
    double d (const std::string& k, double def = 0) const { auto it = a.find (k); return it == a.end() ? def : num (it->second); }
    static double num (const std::string& t)
    {
        if (t == "nan") return std::numeric_limits<double>::quiet_NaN();
        if (t == "inf") return std::numeric_limits<double>::infinity();
        if (t == "-inf") return -std::numeric_limits<double>::infinity();
        const auto p = t.find ('/');
        if (p == std::string::npos) return std::strtod (t.c_str(), nullptr);
        return std::strtod (t.substr (0, p).c_str(), nullptr) / std::strtod (t.substr (p + 1).c_str(), nullptr);
    }
    static std::vector<std::string> split (const std::string& t, char sep = ',')
    {
        std::vector<std::string> r; std::string c; std::istringstream is (t);
        while (std::getline (is, c, sep)) r.push_back (c);
        return r;
    }
    std::vector<long long> li (const std::string& k) const { std::vector<long long> r; for (auto& x : split (s (k))) r.push_back (std::stoll (x)); return r; }
    std::vector<double> ld (const std::string& k) const { std::vector<double> r; for (auto& x : split (s (k))) r.push_back (num (x)); return r; }
};

inline std::vector<Cmd> readScript (const char* path)
{
    std::vector<Cmd> cmds;
    std::ifstream f (path);
    std::string line;
    while (std::getline (f, line))
    {
        std::istringstream is (line);
        Cmd c;
        if (! (is >> c.op)) continue;
        std::string kv;
        while (is >> kv)
        {
            const auto p = kv.find ('=');
            if (p == std::string::npos) { std::fprintf (stderr, "bad token %s\n", kv.c_str()); std::exit (64); }
            std::string v = kv.substr (p + 1);
            for (auto& ch : v) if (ch == '~') ch = ' ';
            c.a[kv.substr (0, p)] = v;
        }
        cmds.push_back (c);
    }
    return cmds;
}

// ---------------------------------------------------------------- errors
template <typename F>
std::string guarded (F f, std::string* what = nullptr)
{
    #define HX_CATCH(T) catch (const hart::T& e) { if (what) *what = e.what(); return #T; }
    try { f(); return "ok"; }
    HX_CATCH (TestAssertException)
    HX_CATCH (IOError)
    HX_CATCH (StateError)
    HX_CATCH (SizeError)
    HX_CATCH (ValueError)
    HX_CATCH (SampleRateError)
    HX_CATCH (ChannelLayoutError)
    HX_CATCH (HartAssertException)
    HX_CATCH (UnsupportedError)
    HX_CATCH (ConfigurationError)
    HX_CATCH (IndexError)
    catch (const std::exception& e) { if (what) *what = e.what(); return "std"; }
    catch (...) { return "unknown"; }
}

// ---------------------------------------------------------------- wav files (own reader)
struct Wav
{
    bool ok = false;
    long long format = 0, channels = 0, rate = 0, bits = 0, align = 0, byteRate = 0, frames = 0;
    bool sizesOk = false;
    std::vector<unsigned char> data;
    double f32 (size_t frame, size_t ch) const { float v; std::memcpy (&v, &data[(frame * channels + ch) * 4], 4); return v; }
    long long pcm (size_t frame, size_t ch) const
    {
        const size_t bytes = bits / 8;
        const unsigned char* p = &data[(frame * channels + ch) * bytes];
        long long v = 0;
        for (size_t i = 0; i < bytes; ++i) v |= (long long) p[i] << (8 * i);
        const long long top = 1LL << (bits - 1);
        return v >= top ? v - 2 * top : v;
    }
};

inline std::vector<unsigned char> slurp (const std::string& path, bool& exists)
{
    std::ifstream f (path, std::ios::binary);
    exists = (bool) f;
    return std::vector<unsigned char> ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char>());
}

inline Wav readWav (const std::string& path)
{
    Wav w;
    bool ex;
    auto d = slurp (path, ex);
    auto u32 = [&d] (size_t p) { return (uint32_t) d[p] | (uint32_t) d[p + 1] << 8 | (uint32_t) d[p + 2] << 16 | (uint32_t) d[p + 3] << 24; };
    auto u16 = [&d] (size_t p) { return (uint32_t) d[p] | (uint32_t) d[p + 1] << 8; };
    if (! ex || d.size() < 44 || std::memcmp (&d[0], "RIFF", 4) != 0 || std::memcmp (&d[8], "WAVE", 4) != 0) return w;
    size_t p = 12;
    bool fmt = false, dat = false;
    while (p + 8 <= d.size())
    {
        const size_t n = u32 (p + 4);
        if (std::memcmp (&d[p], "fmt ", 4) == 0 && p + 24 <= d.size())
        {
            w.format = u16 (p + 8); w.channels = u16 (p + 10); w.rate = u32 (p + 12);
            w.byteRate = u32 (p + 16); w.align = u16 (p + 20); w.bits = u16 (p + 22);
            if (w.format == 0xfffe && n >= 40) w.format = u16 (p + 8 + 24);
            fmt = true;
        }
        else if (std::memcmp (&d[p], "data", 4) == 0)
        {
            const size_t m = std::min (n, d.size() - p - 8);
            w.data.assign (d.begin() + p + 8, d.begin() + p + 8 + m);
            w.sizesOk = m == n && u32 (4) + 8 == d.size();
            dat = true;
        }
        p += 8 + n + (n & 1);
    }
    w.ok = fmt && dat && w.align > 0;
    if (w.ok) w.frames = (long long) w.data.size() / w.align;
    if (w.ok && w.align != w.channels * w.bits / 8) w.ok = false;
    if (w.ok && w.byteRate != w.rate * w.align) w.ok = false;
    return w;
}

// float32 wav file of our own making: sample = ((frame * 7 + channel * 3 + seed) % 129 - 64) / 64
inline double wavCode (long long frame, long long ch, long long seed) { return (double) ((frame * 7 + ch * 3 + seed) % 129 - 64); }
inline void writeOwnWav (const std::string& path, long long ch, long long n, long long rate, long long seed, long long bits = -32)
{
    const bool flt = bits < 0;
    const long long bytes = (flt ? -bits : bits) / 8;
    std::string d;
    auto put = [&d] (unsigned long long v, int k) { for (int i = 0; i < k; ++i) d += (char) ((v >> (8 * i)) & 0xff); };
    const unsigned long long size = (unsigned long long) (ch * n * bytes);
    d += "RIFF"; put (36 + size, 4); d += "WAVEfmt "; put (16, 4); put (flt ? 3 : 1, 2); put (ch, 2); put (rate, 4); put (rate * ch * bytes, 4); put (ch * bytes, 2); put (bytes * 8, 2);
    d += "data"; put (size, 4);
    for (long long f = 0; f < n; ++f)
        for (long long c = 0; c < ch; ++c)
        {
            const double v = wavCode (f, c, seed) / 64;
            if (flt) { const float x = (float) v; unsigned int u; std::memcpy (&u, &x, 4); put (u, 4); }
            else
            {
                long long top = 1LL << (bits - 1), q = (long long) std::llround (v * (double) top);
                if (q >= top) q = top - 1;
                put ((unsigned long long) (bits == 8 ? q + 128 : q), (int) bytes);
            }
        }
    std::ofstream (path, std::ios::binary) << d;
}

// numbers of a text with their decimals: [[value in 1e-6, decimals], ...]; the text with # in their places
inline size_t numberEnd (const std::string& t, size_t i)
{
    if (t.compare (i, 3, "nan") == 0 || t.compare (i, 3, "inf") == 0) return i + 3;
    size_t j = i;
    if (t[j] == '-') ++j;
    if (t.compare (j, 3, "nan") == 0 || t.compare (j, 3, "inf") == 0) return j + 3;
    size_t d = j;
    while (d < t.size() && (std::isdigit ((unsigned char) t[d]) || (t[d] == '.' && d > j))) ++d;
    return d > j ? d : i;
}
inline std::string numbers (const std::string& t)
{
    std::string s = "[";
    for (size_t i = 0; i < t.size();)
    {
        const size_t e = numberEnd (t, i);
        if (e == i) { ++i; continue; }
        const std::string x = t.substr (i, e - i);
        const size_t dot = x.find ('.');
        s += (s.size() > 1 ? "," : "") + std::string ("[") + std::to_string (quant (std::strtod (x.c_str(), nullptr), 1e6)) + "," + std::to_string (dot == std::string::npos ? 0 : (long long) (x.size() - dot - 1)) + "]";
        i = e;
    }
    return s + "]";
}
inline std::string words (const std::string& t)
{
    std::string s;
    for (size_t i = 0; i < t.size();)
    {
        const size_t e = numberEnd (t, i);
        if (e == i) s += t[i++]; else { s += '#'; i = e; }
    }
    return s;
}

// ---------------------------------------------------------------- main loop
// script.txt trace.ndjson first-scenario [CLI args for HART...]
template <typename RunScenario>
int mainLoop (int argc, char** argv, RunScenario runScenario, bool initCli = true)
{
    if (argc < 4) return 64;
    const auto cmds = readScript (argv[1]);
    traceFile() = std::fopen (argv[2], "a");
    if (traceFile() == nullptr) return 64;
    const long long first = std::atoll (argv[3]);
    if (initCli)
    {
        std::vector<std::string> cliArgs;
        for (int i = argc - 1; i >= 4; --i) cliArgs.push_back (argv[i]);  // CLI11 wants them reversed
        hart::CLIConfig::getInstance().initCommandLineArgs();
        hart::CLIConfig::getInstance().getCLIApp().parse (cliArgs);
    }
    size_t i = 0;
    while (i < cmds.size())
    {
        if (cmds[i].op != "S") return 65;
        size_t j = i + 1;
        while (j < cmds.size() && cmds[j].op != "S") ++j;
        if (cmds[i].i ("id") >= first)
        {
            Ev ("begin").i ("sc", cmds[i].i ("id")).send();
            std::vector<Cmd> body (cmds.begin() + i, cmds.begin() + j);
            hart::ExpectationFailureMessages::clear();
            runScenario (body);
            Ev ("fin").send();
        }
        i = j;
    }
    Ev ("eof").send();
    std::fflush (nullptr);
    return 0;
}

}  // namespace hx
