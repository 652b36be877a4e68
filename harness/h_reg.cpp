// Harness for the runner: every scenario is a program of its own (a child process) with registered tasks and
// command line options. Tasks follow scripts; what they did, the console output and the exit status are recorded.
#define HART_IMPLEMENTATION
#include "hx.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace hx;

static std::map<int, std::vector<std::string>>& scripts() { static std::map<int, std::vector<std::string>> s; return s; }
static bool flagE = false, flagA = false;

struct Left
{
    int t; int n = 0;
    explicit Left (int id) : t (id) { Ev ("ran").i ("t", t).send(); }
    ~Left() { Ev ("left").i ("t", t).i ("n", n).send(); }
};

static hart::AudioTestBuilder<float> hostTest (const std::string& mark)
{
    auto t = hart::processAudioWith (hart::GainDb<float> (-6));
    t.withInputSignal (hart::SineWave<float> (1000)).withSampleRate (8000).withBlockSize (16).withDuration (0.01).withLabel (mark);
    return t;
}

// all steps are macros or public calls, as in a user's test
static void follow (int t)
{
    Left left (t);
    const std::vector<std::string> steps = scripts()[t];
    for (size_t i = 0; i < steps.size(); ++i)
    {
        const std::string& s = steps[i];
        const std::string mark = "m" + std::to_string (t) + "." + std::to_string (i + 1);
        left.n = (int) i + 1;
        if (s == "ok") {}
        else if (s == "np") hostTest (mark).expectTrue (hart::PeaksBelow<float> (-5)).process();
        else if (s == "eh") hostTest (mark).expectTrue (hart::PeaksBelow<float> (-50)).process();
        else if (s == "ef") hostTest (mark).expectFalse (hart::PeaksBelow<float> (-5)).process();
        else if (s == "ea") hostTest (mark).assertTrue (hart::PeaksAt<float> (-50)).process();
        else if (s == "em") { HART_EXPECT_TRUE (flagE) }
        else if (s == "am") { HART_ASSERT_TRUE (flagA) }
        else if (s == "tm") { HART_EXPECT_TRUE (! flagE) HART_ASSERT_TRUE (! flagA) }
        else if (s == "fm") HART_FAIL_TEST_MSG (mark);
        else if (s == "ft") HART_FAIL_TEST();
        else if (s == "sx") throw std::runtime_error (mark);
        else if (s == "ix") throw 42;
        else if (s == "vx") throw hart::ValueError (mark);
        else if (s == "cx") throw hart::ConfigurationError (mark);
        else if (s == "hx") throw hart::IOError (mark);
        else if (s == "xx") throw hart::TestAssertException (mark);
        else if (s == "dp") { HART_REQUIRES_DATA_PATH_ARG }
        else if (s == "sv") hostTest (mark).saveOutputTo ("s" + mark + ".wav", hart::Save::always).process();
        else if (s == "pv") hostTest (mark).savePlotTo ("p" + mark + ".svg", hart::Save::always).process();
        else if (s == "wf") hart::processAudioWith (hart::GainDb<float> (0)).withInputSignal (hart::WavFile<float> ("in.wav")).withSampleRate (8000).withDuration (0.001).withLabel (mark).process();
        else if (s == "nz" || s[0] == 'z')
        {
            // noise, seeded by the command line or explicitly
            hart::AudioBuffer<float> b (1, 16);
            const bool own = s[0] == 'z';
            hart::WhiteNoise<float> n = own ? hart::WhiteNoise<float> ((uint_fast32_t) std::stoull (s.substr (1))) : hart::WhiteNoise<float>();
            n.prepare (8000, 1, 16); n.reset(); n.renderNextBlock (b);
            Digest d;
            d.add (b[0], 16 * sizeof (float));
            Ev ("noise").t ("seed", own ? s.substr (1) : "cli").i ("h", d.value()).send();
        }
        else if (s == "ds")
        {
            std::ostringstream a, b, c, d, e, f;
            a << hart::GainDb<float> (-3.25); b << hart::GainLinear<float> (0.3125); c << hart::SineWave<float> (1234.5, 1.5); d << hart::SineSweep<float> (0.625, 50.25, 1000.75);
            e << hart::PeaksAt<double> (-6.5, 0.03125); f << hart::EqualsTo<double> (hart::SineWave<double> (440.25), 0.0078125);
            Ev ("desc").raw ("nums", "[" + numbers (a.str()) + "," + numbers (b.str()) + "," + numbers (c.str()) + "," + numbers (d.str()) + "," + numbers (e.str()) + "," + numbers (f.str()) + "]").send();
        }
        else { std::fprintf (stderr, "unknown step %s\n", s.c_str()); std::_Exit (65); }
    }
}

#ifndef HX_NO_STATIC
HART_TEST ("static test A") { follow (1); }
HART_GENERATE ("static generator A") { follow (2); }
HART_TEST_WITH_TAGS ("static test B", "[tag-1][tag-2]") { follow (3); }
HART_GENERATE_WITH_TAGS ("static test B", "[tag-1]") { follow (4); }
#endif

template <int N> void task() { follow (N); }
template <int N> struct Table { static void fill (std::vector<void (*)()>& v) { Table<N - 1>::fill (v); v.push_back (&task<N>); } };
template <> struct Table<-1> { static void fill (std::vector<void (*)()>&) {} };

static int userMain (int argc, char** argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
}

static void registerTasks (const std::vector<Cmd>& cmds)
{
    static std::vector<void (*)()> table;
    Table<300>::fill (table);
    std::vector<Cmd> all;
    for (auto& c : cmds)
    {
        if (c.op != "bulk") { all.push_back (c); continue; }
        for (long long k = 0; k < c.i ("n"); ++k)        // n tasks with the same steps
        {
            Cmd d = c;
            d.op = "reg";
            d.a["t"] = std::to_string (c.i ("t") + k);
            d.a["name"] = "bulk" + std::to_string (k);
            all.push_back (d);
        }
    }
    for (auto& c : all)
    {
        if (c.op != "reg" && c.op != "beh") continue;
        scripts()[(int) c.i ("t")] = Cmd::split (c.s ("steps"));
        std::string l;
        for (auto& x : Cmd::split (c.s ("steps"))) l += (l.empty() ? "\"" : ",\"") + x + "\"";
        Ev ("beh").i ("t", c.i ("t")).raw ("steps", "[" + l + "]").send();
        if (c.op != "reg") continue;
        const std::string r = guarded ([&] {
            hart::TestRegistry::getInstance().add (c.s ("name"), c.s ("tags"), c.s ("cat") == "test" ? hart::TaskCategory::test : hart::TaskCategory::generate, table.at ((size_t) c.i ("t")));
        });
        Ev ("reg").i ("t", c.i ("t")).t ("name", c.s ("name")).t ("cat", c.s ("cat")).t ("res", r).send();
    }
}

// what a task is known by in its messages
static std::string key (const std::string& m)
{
    std::string k;
    for (size_t i = 0; i + 1 < m.size(); ++i)
        if (m[i] == 'm' && std::isdigit ((unsigned char) m[i + 1]) && (i == 0 || ! std::isalnum ((unsigned char) m[i - 1])))
        {
            size_t e = i + 1;
            while (e < m.size() && (std::isdigit ((unsigned char) m[e]) || m[e] == '.')) ++e;
            const std::string x = m.substr (i, e - i);
            if (x.find ('.') != std::string::npos && k.find (x) == std::string::npos) k += x;
        }
    if (! k.empty()) return k;
    if (m.find ("flagE") != std::string::npos) return "flagE";
    if (m.find ("flagA") != std::string::npos) return "flagA";
    return "?";
}

static void listFiles (const std::string& dir, const std::string& rel, std::vector<std::string>& out)
{
    DIR* d = opendir (dir.c_str());
    if (! d) return;
    while (dirent* e = readdir (d))
    {
        const std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        struct stat st;
        if (stat ((dir + "/" + n).c_str(), &st) == 0 && S_ISDIR (st.st_mode)) listFiles (dir + "/" + n, rel + n + "/", out);
        else if (n != "in.wav") out.push_back (rel + n);
    }
    closedir (d);
}

static void report (const std::string& text, int status, const std::vector<std::string>& files)
{
    std::string items = "[", cur;
    long long p = -1, pt = -1, f = -1, ft = -1;
    std::istringstream is (text);
    std::string lineText, msg;
    bool inItem = false, inMsg = false;
    std::vector<std::string> keys;
    auto close = [&] {
        if (! inItem) return;
        std::string k = "[";
        for (auto& x : keys) k += (k.size() > 1 ? ",\"" : "\"") + Ev::esc (x) + "\"";
        items += (items.size() > 1 ? "," : "") + cur + ",\"keys\":" + k + "]}";
        inItem = inMsg = false; keys.clear(); msg.clear();
    };
    while (std::getline (is, lineText))
    {
        const size_t cr = lineText.rfind ('\r');
        if (cr != std::string::npos) lineText = lineText.substr (cr + 1);
        const bool sep = lineText.size() > 20 && lineText.find_first_not_of ('-') == std::string::npos;
        if (inItem && sep) { if (inMsg && ! msg.empty()) keys.push_back (key (msg)); msg.clear(); inMsg = true; continue; }
        auto ends = [&] (const char* e) { const size_t n = std::strlen (e); return lineText.size() > n && lineText.compare (lineText.size() - n, n, e) == 0; };
        if (lineText[0] == '[' && lineText.find ("] ") != std::string::npos && (ends (" - passed") || ends (" - failed")))
        {
            close();
            const size_t b = lineText.find ("] ") + 2;
            cur = "{\"name\":\"" + Ev::esc (lineText.substr (b, lineText.size() - 9 - b)) + "\",\"ok\":" + (ends (" - passed") ? "true" : "false");
            inItem = true;
            continue;
        }
        if (std::sscanf (lineText.c_str(), "[ PASSED ] %lld/%lld", &p, &pt) == 2 || std::sscanf (lineText.c_str(), "[ FAILED ] %lld/%lld", &f, &ft) == 2) { close(); continue; }
        if (inMsg) msg += lineText + "\n";
    }
    close();
    std::string fs = "[";
    for (auto& x : files) fs += (fs.size() > 1 ? ",\"" : "\"") + x + "\"";
    Ev ("report").raw ("items", items + "]").i ("p", p).i ("pt", pt).i ("f", f).i ("ft", ft).i ("exit", WIFEXITED (status) ? WEXITSTATUS (status) : -WTERMSIG (status)).raw ("files", fs + "]").send();
}

static void runProgram (const std::vector<Cmd>& cmds)
{
    const std::string base = std::string (std::getenv ("HX_SCRATCH") ? std::getenv ("HX_SCRATCH") : "/nonexistent");
    for (auto& c : cmds)
    {
        if (c.op != "run") continue;
        std::string texts[2];
        int statuses[2] = { 0, 0 };
        for (int again = 0; again < 2; ++again)
        {
            const std::string dir = base + "/prog";
            (void) ! std::system (("rm -rf '" + dir + "'; mkdir -p '" + dir + "/droot'").c_str());
            writeOwnWav (dir + "/in.wav", 1, 8, 8000, 3);
            writeOwnWav (dir + "/droot/in.wav", 1, 8, 8000, 3);
            std::fflush (nullptr);
            const pid_t pid = fork();
            if (pid == 0)
            {
                if (chdir (dir.c_str()) != 0) std::_Exit (65);
                const int fd = open ((base + "/stdout.txt").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
                dup2 (fd, 1);
                dup2 (fd, 2);
                if (again) traceFile() = std::fopen ("/dev/null", "w");
                registerTasks (cmds);
                std::vector<std::string> args { "program" };
                for (auto& x : Cmd::split (c.s ("args"))) args.push_back (x == "@ABS@" ? dir + "/droot" : x == "@EMPTY@" ? "" : x);
                std::vector<char*> av;
                for (auto& x : args) av.push_back (&x[0]);
                av.push_back (nullptr);
                Ev e ("main");
                for (auto& kv : c.a)
                {
                    if (kv.first == "args" || kv.first == "seed" || kv.first == "root") e.t (kv.first.c_str(), kv.second);
                    else e.i (kv.first.c_str(), std::stoll (kv.second));
                }
                e.send();
                // a program may use the host before it runs its tasks
                if (c.i ("pre")) hostTest ("m0.1").expectTrue (hart::PeaksBelow<float> (-50)).process();
                std::exit (userMain ((int) args.size(), av.data()));
            }
            waitpid (pid, &statuses[again], 0);
            bool ex;
            auto b = slurp (base + "/stdout.txt", ex);
            texts[again].assign (b.begin(), b.end());
            if (! again)
            {
                std::vector<std::string> files;
                listFiles (dir, "", files);
                std::sort (files.begin(), files.end());
                report (texts[0], statuses[0], files);
            }
        }
        Ev ("again").b ("same", texts[0] == texts[1] && statuses[0] == statuses[1]).send();
    }
}

int main (int argc, char** argv)
{
    return mainLoop (argc, argv, runProgram, false);
}
