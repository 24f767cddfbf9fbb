#include "pbt.hh"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <new>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <dirent.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <boost/version.hpp>

using namespace std;
using namespace pbt;

// ---------------------------------------------------------------- allocator
static long g_live = 0;
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++g_live; return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { void* p = malloc(n ? n : 1); if (p) ++g_live; return p; }
void operator delete(void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p) noexcept { if (p) { --g_live; free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { --g_live; free(p); } }
void operator delete(void* p, std::nothrow_t const&) noexcept { if (p) { --g_live; free(p); } }
void operator delete[](void* p, std::nothrow_t const&) noexcept { if (p) { --g_live; free(p); } }

#define ASAN_OPTS(mb) "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=" mb ":exitcode=99:" \
           "detect_stack_use_after_return=0:handle_abort=1:print_legend=0:quarantine_size_mb=16:" \
           "malloc_context_size=6:detect_container_overflow=0:alloc_dealloc_mismatch=0"
extern "C" int pbt_large_allocations() __attribute__((weak));   // defined by the Ruby host: the interpreter reserves large blocks
extern "C" const char* __asan_default_options() { return pbt_large_allocations ? ASAN_OPTS("64:use_sigaltstack=0") : ASAN_OPTS("8"); }

long pbt::live_blocks() { return g_live; }
void pbt::no_leak(string const& what, function<void()> const& fn)
{
    long before = g_live;
    fn();
    long delta = g_live - before;
    if (delta == 0) return;
    long first = delta;
    for (int i = 0; i < 3; ++i)
    {
        before = g_live;
        fn();
        delta = g_live - before;
        if (delta <= 0) return;
    }
    ostringstream o; o << "memory leak in " << what << ": " << delta << " block(s) stay allocated at each repetition (first run: " << first << ")";
    throw Fail{o.str()};
}

uint64_t pbt::hash64(void const* p, size_t n, uint64_t h)
{
    unsigned char const* b = (unsigned char const*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static const size_t MAX_CHOICES = 200000;
uint64_t Ctx::draw(uint64_t n)
{
    uint64_t v = 0;
    if (n <= 1) return 0;
    if (rec.size() >= MAX_CHOICES) return 0;
    if (is_replay) v = pos < replay->size() ? std::min((*replay)[pos], n - 1) : 0;
    else v = splitmix(state) % n;
    ++pos;
    rec.push_back(v);
    if (mirror && rec.size() < mirror_cap) { mirror[rec.size()] = v; mirror[0] = rec.size(); }
    return v;
}
uint64_t Ctx::draw64()
{
    uint64_t v = 0;
    if (rec.size() >= MAX_CHOICES) return 0;
    if (is_replay) v = pos < replay->size() ? (*replay)[pos] : 0;
    else v = splitmix(state);
    ++pos;
    rec.push_back(v);
    if (mirror && rec.size() < mirror_cap) { mirror[rec.size()] = v; mirror[0] = rec.size(); }
    return v;
}
void Ctx::addNote(string const& s)
{
    note << s;
    if (notefd >= 0) { ssize_t r = write(notefd, s.data(), s.size()); (void)r; }
}
size_t Ctx::weighted(std::initializer_list<unsigned> w)
{
    unsigned total = 0;
    for (unsigned x : w) total += x;
    uint64_t v = draw(total);
    size_t i = 0;
    for (unsigned x : w) { if (v < x) return i; v -= x; ++i; }
    return w.size() - 1;
}
size_t Ctx::size(size_t max)
{
    switch (weighted({6, 3, 1}))
    {
        case 0: return draw(std::min<size_t>(max, 3) + 1);
        case 1: return draw(std::min<size_t>(max, 8) + 1);
        default: return draw(max + 1);
    }
}

// ---------------------------------------------------------------- runner
enum Outcome { PASS = 0, FAILED = 1, KNOWN = 2 };
struct Slot {   // shared with the parent
    volatile long current;      // case being run, -1 if none
    volatile long done;
    volatile int  failed;
    volatile long failed_case;
    char msg[4000];
    volatile int finished;
};

static string g_id, g_tier, g_verif, g_tmp;
static uint64_t g_seed;
static int g_saved_stdout = -1;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static const int CASE_CPU_S = 20;
static pid_t startProcess() { return the_property.fork ? the_property.fork() : fork(); }
static void on_prof(int) { static const char m[] = "case exceeded its CPU or waiting limit (hang)\n"; ssize_t r = write(2, m, sizeof(m) - 1); (void)r; _exit(77); }
static void arm(int s)
{
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, 0);
    it.it_value.tv_sec = 6 * s;   // waiting for something that never comes
    setitimer(ITIMER_REAL, &it, 0);
}

static long caseCount(Facet const& f) {
    long n = g_tier == "thorough" ? f.thorough : f.quick;
    if (char const* s = getenv("PBT_SCALE")) n = (long)(n * atof(s));
    return n > 0 ? n : 1;
}
static Facet const& facetOf(long idx, long& local)
{
    // facets are interleaved proportionally: case idx belongs to the facet
    // whose range contains it
    for (auto const& f : the_property.facets)
    {
        long n = caseCount(f);
        if (idx < n) { local = idx; return f; }
        idx -= n;
    }
    local = 0;
    return the_property.facets.back();
}
static uint64_t caseSeed(Facet const& f, long local)
{
    string k = g_id + "/" + f.name + "/" + to_string(g_seed) + "/" + to_string(local);
    return hash64(k);
}

static Outcome runCase(Facet const& f, Ctx& c, string& msg)
{
    arm(CASE_CPU_S);
    Outcome o = PASS;
    try { f.fn(c); }
    catch (Fail& e) { o = FAILED; msg = e.msg; }
    catch (Known& e) { o = KNOWN; msg = e.key; }
    catch (std::exception& e) { o = FAILED; msg = string("unexpected exception: ") + e.what(); }
    catch (...) { o = FAILED; msg = "unexpected exception of unknown type"; }
    arm(0);
    return o;
}

static void muteStdout()
{
    int n = open("/dev/null", O_WRONLY);
    dup2(n, 1); close(n);
}

struct WorkerStats {
    long evaluations = 0, known = 0;
    map<string, long> labels, knowns;
    map<string, long> facets;
    set<uint64_t> nontrivial;
    vector<string> samples;
};

static void writeStats(string const& path, WorkerStats const& s)
{
    ofstream o(path.c_str());
    o << "E " << s.evaluations << "\n";
    for (auto const& l : s.labels) o << "L " << l.second << " " << l.first << "\n";
    for (auto const& l : s.facets) o << "F " << l.second << " " << l.first << "\n";
    for (auto const& l : s.knowns) o << "K " << l.second << " " << l.first << "\n";
    for (uint64_t h : s.nontrivial) o << "H " << h << "\n";
    for (auto const& x : s.samples)
    {
        string y = x;
        for (auto& ch : y) if (ch == '\n') ch = '\x01';
        o << "S " << y << "\n";
    }
}
static void readStats(string const& path, WorkerStats& s)
{
    ifstream i(path.c_str());
    string line;
    while (getline(i, line))
    {
        if (line.size() < 2) continue;
        istringstream l(line.substr(2));
        if (line[0] == 'E') { long n; l >> n; s.evaluations += n; }
        else if (line[0] == 'H') { uint64_t n; l >> n; s.nontrivial.insert(n); }
        else if (line[0] == 'S') { string y = line.substr(2); for (auto& ch : y) if (ch == '\x01') ch = '\n'; s.samples.push_back(y); }
        else
        {
            long n; l >> n; string r; getline(l, r); if (!r.empty()) r = r.substr(1);
            if (line[0] == 'L') s.labels[r] += n;
            else if (line[0] == 'F') s.facets[r] += n;
            else if (line[0] == 'K') s.knowns[r] += n;
        }
    }
}

static bool deadlinePassed(double start, double limit) { return now() - start > limit; }

static void worker(int w, int W, long start, long total, Slot* slot, double t0, double limit)
{
    // cases are dealt round-robin, in a strided order so that all facets
    // progress together
    WorkerStats st;
    string stats = g_tmp + "/stats." + to_string(w) + "." + to_string(start);
    long sample_every = max<long>(1, total / W / 6);
    for (long i = start; i < total; i += W)
    {
        if (deadlinePassed(t0, limit)) break;
        long local; Facet const& f = facetOf(i, local);
        slot->current = i;
        Ctx c(caseSeed(f, local));
        bool sampling = ((i / W) % sample_every) == sample_every / 2;
        c.verbose = sampling;
        string msg;
        Outcome o = runCase(f, c, msg);
        if (o == FAILED)
        {
            strncpy(slot->msg, msg.c_str(), sizeof(slot->msg) - 1);
            slot->failed_case = i;
            slot->failed = 1;
            break;
        }
        st.evaluations++;
        st.facets[f.name]++;
        if (o == KNOWN) st.knowns[msg]++;
        for (auto const& l : c.labels) st.labels[l.first] += l.second;
        if (o == PASS && c.nontriv)
        {
            uint64_t h = hash64(f.name);
            h = hash64(c.rec.data(), c.rec.size() * sizeof(uint64_t), h);
            st.nontrivial.insert(h);
        }
        if (sampling && st.samples.size() < 4)
        {
            string n = c.note.str();
            if (n.size() > 1500) n = n.substr(0, 1500) + "...";
            st.samples.push_back("[" + f.name + " case " + to_string(local) + "] " + n);
        }
        slot->done = slot->done + 1;
    }
    slot->current = -1;
    writeStats(stats, st);
    slot->finished = 1;
}

// Run one choice sequence in a child. Returns true if it fails.
static bool failsInChild(Facet const& f, vector<uint64_t> const& choices, string& msg, string* note = 0, int cpu = CASE_CPU_S)
{
    string out = g_tmp + "/child." + to_string(getpid());
    fflush(stdout); fflush(stderr); cout.flush();
    pid_t p = startProcess();
    if (p < 0) return false;
    if (p == 0)
    {
        muteStdout();
        int e = open((out + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(e, 2);
        signal(SIGPROF, on_prof); signal(SIGALRM, on_prof);
        if (the_property.setup) the_property.setup();
        Ctx c(choices);
        c.verbose = note != 0;
        if (note) c.notefd = open((out + ".note").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        string m;
        Outcome o;
        {
            arm(cpu);
            o = PASS;
            try { f.fn(c); }
            catch (Fail& e) { o = FAILED; m = e.msg; }
            catch (Known& e) { o = KNOWN; m = e.key; }
            catch (std::exception& e) { o = FAILED; m = string("unexpected exception: ") + e.what(); }
            catch (...) { o = FAILED; m = "unexpected exception of unknown type"; }
            arm(0);
        }
        { ofstream os(out.c_str()); os << m; }
        _exit(o == FAILED ? 42 : 0);
    }
    int status;
    while (waitpid(p, &status, 0) < 0 && errno == EINTR) {}
    bool failed = false;
    auto slurp = [](string const& n) { ifstream i(n.c_str()); stringstream s; s << i.rdbuf(); return s.str(); };
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) failed = false;
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 42)
    {
        failed = true;
        string t = slurp(out);
        msg = t;

    }
    else if (WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL) failed = false; // memory guard: not an answer
    else
    {
        failed = true;
        string err = slurp(out + ".err");
        if (WIFEXITED(status) && WEXITSTATUS(status) == 77) msg = "hang: the case used more than its CPU or waiting limit";
        else
        {
            msg = "crash: ";
            size_t k = err.find("ERROR: ");
            msg += k != string::npos ? err.substr(k, 2500) : (WIFSIGNALED(status) ? "signal " + to_string(WTERMSIG(status)) : "exit " + to_string(WEXITSTATUS(status))) + " " + err.substr(0, 1500);
        }
    }
    if (note) { *note = slurp(out + ".note"); unlink((out + ".note").c_str()); }
    unlink(out.c_str()); unlink((out + ".err").c_str());
    return failed;
}

static vector<uint64_t> shrink(Facet const& f, vector<uint64_t> best, string& msg)
{
    double t0 = now();
    int tries = 0;
    static bool off = getenv("PBT_NOSHRINK") != 0;
    auto budget = [&]() { return !off && tries < 3000 && now() - t0 < 60; };
    auto attempt = [&](vector<uint64_t> const& cand) {
        if (!budget()) return false;
        ++tries;
        string m;
        if (failsInChild(f, cand, m, 0, 5)) { best = cand; msg = m; return true; }
        return false;
    };
    auto trim = [](vector<uint64_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
    { vector<uint64_t> t = trim(best); if (t.size() < best.size()) best = t; }
    bool progress = true;
    while (progress && budget())
    {
        progress = false;
        // prefixes
        for (size_t n = 1; n < best.size() && budget(); n *= 2)
        {
            vector<uint64_t> c(best.begin(), best.begin() + n);
            if (attempt(c)) { progress = true; break; }
        }
        for (size_t blk : {64, 32, 16, 8, 4, 3, 2, 1})
            for (long i = (long)best.size() - (long)blk; i >= 0 && budget();)
            {
                vector<uint64_t> c = best;
                if ((size_t)i + blk > c.size()) { i = (long)c.size() - (long)blk; if (i < 0) break; continue; }
                c.erase(c.begin() + i, c.begin() + i + blk);
                if (attempt(c)) progress = true;
                i -= max<size_t>(1, blk / 2);
            }
        for (size_t blk : {8, 2})
            for (size_t i = 0; i + blk <= best.size() && budget(); i += blk)
            {
                bool any = false;
                for (size_t k = 0; k < blk; ++k) any |= best[i + k] != 0;
                if (!any) continue;
                vector<uint64_t> c = best;
                fill(c.begin() + i, c.begin() + i + blk, 0);
                if (attempt(c)) progress = true;
            }
        for (size_t i = 0; i < best.size() && budget(); ++i)
        {
            uint64_t v = best[i];
            if (!v) continue;
            for (uint64_t nv : {(uint64_t)0, (uint64_t)1, v / 2, v - 1})
            {
                if (nv >= v) continue;
                vector<uint64_t> c = best; c[i] = nv;
                if (attempt(c)) { progress = true; break; }
            }
        }
        best = trim(best);
    }
    return best;
}

static string jstr(string const& s)
{
    string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"') o += "\\\"";
        else if (c == '\\') o += "\\\\";
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

static void writeEvidence(WorkerStats& st, double wall, int violations, string const& violation, bool early)
{
    string dir = g_verif + "/evidence";
    mkdir(dir.c_str(), 0755);
    ofstream o((dir + "/" + g_id + ".json.tmp").c_str());
    if (st.samples.empty()) st.samples.push_back("(no sample: the run stopped early)");
    o << "{\n \"property\": " << jstr(g_id) << ",\n \"tier\": " << jstr(g_tier) << ",\n \"seed\": " << g_seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << st.evaluations
      << ",\n  \"stopped_early\": " << (early ? "true" : "false")
      << ",\n  \"distinct_nontrivial\": " << st.nontrivial.size()
      << ",\n  \"rule\": " << jstr(the_property.rule)
      << ",\n  \"facets\": {";
    bool first = true;
    for (auto const& l : st.facets) { o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    o << "},\n  \"labels\": {";
    first = true;
    for (auto const& l : st.labels) { o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    o << "},\n  \"known_findings_met\": {";
    first = true;
    for (auto const& l : st.knowns) { o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
    o << "},\n  \"samples\": [";
    size_t step = max<size_t>(1, st.samples.size() / 8), n = 0;
    for (size_t i = 0; i < st.samples.size() && n < 8; i += step, ++n) o << (n ? ",\n   " : "\n   ") << jstr(st.samples[i]);
    o << "\n  ]\n },\n \"wall_s\": " << wall << ",\n \"violations\": " << violations;
    if (!violation.empty()) o << ",\n \"violation\": " << jstr(violation);
    o << "\n}\n";
    o.close();
    rename((dir + "/" + g_id + ".json.tmp").c_str(), (dir + "/" + g_id + ".json").c_str());
}

static map<string, string> loadKnown()
{
    map<string, string> r;
    ifstream i((g_verif + "/KNOWN_FINDINGS").c_str());
    string l, pre = "finding: property=" + g_id + " ";
    while (getline(i, l))
        if (l.compare(0, pre.size(), pre) == 0)
        {
            string rest = l.substr(pre.size());
            size_t sp = rest.find(' ');
            r[rest.substr(0, sp)] = sp == string::npos ? "" : rest.substr(sp + 1);
        }
    return r;
}

static int reportViolation(Facet const& f, vector<uint64_t> choices, string msg, bool doshrink)
{
    vector<uint64_t> small = doshrink ? shrink(f, choices, msg) : choices;
    string note, m2;
    // replay three times before saying anything
    int again = 0;
    for (int k = 0; k < 3; ++k) { string m; if (failsInChild(f, small, m)) { ++again; m2 = m; } }
    if (again < 3)
    {
        small = choices; again = 0;
        for (int k = 0; k < 3; ++k) { string m; if (failsInChild(f, small, m)) { ++again; m2 = m; } }
    }
    if (again == 0) return 0;
    string m; failsInChild(f, small, m, &note);
    if (!m.empty()) m2 = m;
    string dir = g_verif + "/replays";
    mkdir(dir.c_str(), 0755);
    string path = dir + "/" + g_id + "-" + f.name + "-" + to_string(hash64(small.data(), small.size() * 8) % 100000000) + ".replay";
    ofstream o(path.c_str());
    o << "property " << g_id << "\nfacet " << f.name << "\nseed " << g_seed << "\nchoices";
    for (uint64_t v : small) o << " " << v;
    o << "\nend\n# failure: " << m2 << "\n# case:\n" << note << "\n";
    o.close();
    dprintf(g_saved_stdout, "failure: %s\ncase (%zu choices): %s\n", m2.c_str(), small.size(), note.c_str());
    dprintf(g_saved_stdout, "VIOLATION property=%s replay=%s\n", g_id.c_str(), path.c_str());
    return 1;
}

static int doReplay(string const& path)
{
    ifstream i(path.c_str());
    if (!i) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 2; }
    string l, facet, only; vector<uint64_t> ch; long hw = -1, hW = 1, hfrom = 0, hto = 0;
    while (getline(i, l) && l != "end")
    {
        istringstream s(l); string k; s >> k;
        if (k == "facet") s >> facet;
        else if (k == "choices") { uint64_t v; while (s >> v) ch.push_back(v); }
        else if (k == "seed") s >> g_seed;
        else if (k == "history") s >> hw >> hW >> hfrom >> hto;
        else if (k == "tier") s >> g_tier;
        else if (k == "only") s >> only;
        else if (k == "scale") { string v; s >> v; setenv("PBT_SCALE", v.c_str(), 1); }
    }
    if (hw >= 0)
    {
        if (!only.empty())
        {
            vector<Facet> keep;
            for (auto& f : the_property.facets) if (f.name == only) keep.push_back(f);
            the_property.facets = keep;
        }
        Slot* slot = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t q = startProcess();
        if (q == 0)
        {
            muteStdout(); signal(SIGPROF, on_prof); signal(SIGALRM, on_prof); arm(CASE_CPU_S);
            if (the_property.setup) the_property.setup();
            worker(hw, hW, hfrom, hto, slot, now(), 800);
            _exit(0);
        }
        int st; while (waitpid(q, &st, 0) < 0 && errno == EINTR) {}
        bool failed = slot->failed || !slot->finished;
        dprintf(g_saved_stdout, "%s\n", failed ? (slot->failed ? slot->msg : "worker died (see above)") : "does not fail");
        if (failed) dprintf(g_saved_stdout, "VIOLATION property=%s replay=%s\n", g_id.c_str(), path.c_str());
        return failed ? 1 : 0;
    }
    for (auto const& f : the_property.facets)
        if (f.name == facet)
        {
            string msg, note;
            bool failed = failsInChild(f, ch, msg, &note);
            dprintf(g_saved_stdout, "%s\n%s\n", note.c_str(), failed ? msg.c_str() : "does not fail");
            if (failed) dprintf(g_saved_stdout, "VIOLATION property=%s replay=%s\n", g_id.c_str(), path.c_str());
            return failed ? 1 : 0;
        }
    fprintf(stderr, "no facet %s\n", facet.c_str());
    return 2;
}

int main(int argc, char** argv)
{
    g_id = the_property.id; g_tier = "quick"; g_verif = "/verif"; g_seed = 1;
    string replay; int W = 8; long only_case = -1; string only_facet;
    if (getenv("VERIF_SEED")) g_seed = strtoull(getenv("VERIF_SEED"), 0, 10);
    if (getenv("VERIF_TIER")) g_tier = getenv("VERIF_TIER");
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        if (a == "--verif") g_verif = argv[++i];
        else if (a == "--replay") replay = argv[++i];
        else if (a == "--jobs") W = atoi(argv[++i]);
        else if (a == "--tier") g_tier = argv[++i];
        else if (a == "--facet") only_facet = argv[++i];
        else if (a == "--case") only_case = atol(argv[++i]);
    }
    if (!only_facet.empty())
    {
        vector<Facet> keep;
        for (auto& f : the_property.facets) if (f.name == only_facet) keep.push_back(f);
        the_property.facets = keep;
        if (keep.empty()) { fprintf(stderr, "no such facet\n"); return 2; }
    }
    char tmpl[] = "/tmp/pbt.XXXXXX";
    g_tmp = mkdtemp(tmpl); setenv("TMPDIR", g_tmp.c_str(), 1);   // what cases leave behind goes with it
    g_saved_stdout = dup(1);
    struct Cleaner { pid_t me; string d; ~Cleaner() { if (getpid() == me) { string c = "rm -rf '" + d + "'"; int r = system(c.c_str()); (void)r; } } } cleaner = { getpid(), g_tmp };

    volatile long stack_mark = 0;
    if (the_property.preload) the_property.preload((void*)&stack_mark);
    if (!replay.empty()) return doReplay(replay);
    if (only_case >= 0)
    {
        Facet const& f = the_property.facets[0];
        Ctx c(caseSeed(f, only_case)); c.verbose = true;
        if (the_property.setup) the_property.setup();
        string msg; Outcome o = runCase(f, c, msg);
        cout << c.note.str() << "\noutcome " << o << " " << msg << endl;
        return o == FAILED;
    }

    long total = 0;
    for (auto const& f : the_property.facets) total += caseCount(f);
    double t0 = now(), limit = g_tier == "thorough" ? 5400 : 420;
    if (char const* s = getenv("PBT_LIMIT_S")) limit = atof(s);
    Slot* slots = (Slot*)mmap(0, sizeof(Slot) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)slots, 0, sizeof(Slot) * W);
    vector<pid_t> pids(W, 0);
    vector<long> starts(W);
    auto spawn = [&](int w, long start) {
        slots[w].current = -1; slots[w].finished = 0;
        starts[w] = start;
        cout.flush(); fflush(stdout);
        pid_t p = startProcess();
        if (p == 0)
        {
            muteStdout();
            string e = g_tmp + "/err." + to_string(w);
            int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2); close(fd);
            signal(SIGPROF, on_prof); signal(SIGALRM, on_prof);
            arm(CASE_CPU_S);
            if (the_property.setup) the_property.setup();
            worker(w, W, start, total, &slots[w], t0, limit);
            _exit(0);
        }
        pids[w] = p;
    };
    for (int w = 0; w < W; ++w) spawn(w, w);

    int violations = 0; string vmsg; int unreproduced = 0;
    int live = W;
    while (live > 0 && !violations)
    {
        int status; pid_t p = waitpid(-1, &status, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1;
        for (int i = 0; i < W; ++i) if (pids[i] == p) w = i;
        if (w < 0) continue;
        pids[w] = 0;
        long bad = -1; string msg; bool killed = false;
        if (slots[w].finished && !slots[w].failed) { --live; continue; }
        if (slots[w].failed) { bad = slots[w].failed_case; msg = string(slots[w].msg); slots[w].failed = 0; }
        else { bad = slots[w].current; killed = WIFSIGNALED(status) && WTERMSIG(status) == SIGKILL; msg = "worker died"; }
        if (bad < 0)
        {
            // died outside any case: setup failed
            ifstream ei((g_tmp + "/err." + to_string(w)).c_str()); stringstream es; es << ei.rdbuf();
            if (killed) { fprintf(stderr, "worker killed outside a case\n"); --live; continue; }
            // The code under test cannot even start; replay is the empty case
            vmsg = "the code under test fails before any case: " + es.str().substr(0, 1500);
            dprintf(g_saved_stdout, "failure: %s\n", vmsg.c_str());
            mkdir((g_verif + "/replays").c_str(), 0755);
            string path = g_verif + "/replays/" + g_id + "-setup.replay";
            { ofstream o(path.c_str()); o << "property " << g_id << "\nfacet " << the_property.facets[0].name << "\nseed " << g_seed << "\nchoices\nend\n# " << vmsg << "\n"; }
            dprintf(g_saved_stdout, "VIOLATION property=%s replay=%s\n", g_id.c_str(), path.c_str());
            violations = 1;
            break;
        }
        long local; Facet const& f = facetOf(bad, local);
        // Recover the choices: regenerate them in a child which reports what it drew
        vector<uint64_t> choices;
        {
            string out = g_tmp + "/rec." + to_string(w);
            int sz = 4 << 20;
            uint64_t* shared = (uint64_t*)mmap(0, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            pid_t rp = startProcess();
            if (rp == 0)
            {
                muteStdout(); int e = open("/dev/null", O_WRONLY); dup2(e, 2);
                signal(SIGPROF, on_prof); signal(SIGALRM, on_prof);
                if (the_property.setup) the_property.setup();
                Ctx c(caseSeed(f, local));
                c.mirror = shared; c.mirror_cap = sz / 8 - 1;   // survives a crash of the child
                string m; runCase(f, c, m);
                _exit(0);
            }
            int st2; while (waitpid(rp, &st2, 0) < 0 && errno == EINTR) {}
            size_t n = shared[0];
            choices.assign(shared + 1, shared + 1 + n);
            munmap(shared, sz);
        }
        bool isolated = false; string m;
        for (int k = 0; k < 3 && !isolated; ++k) isolated = failsInChild(f, choices, m);
        if (isolated)
        {
            for (int i = 0; i < W; ++i) if (pids[i] > 0) kill(pids[i], SIGKILL);
            bool hang = m.compare(0, 5, "hang:") == 0;
            violations = reportViolation(f, choices, m, !hang);
            vmsg = m;
            if (violations) break;
        }
        if (!killed)
        {
            // depends on earlier cases of this worker: run the worker's prefix again
            bool rep = true;
            for (int k = 0; k < 2 && rep; ++k)
            {
                slots[w].failed = 0; slots[w].finished = 0; slots[w].done = 0;
                long keep_start = starts[w];
                pid_t q = startProcess();
                if (q == 0)
                {
                    muteStdout(); int e = open((g_tmp + "/err.again").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2);
                    signal(SIGPROF, on_prof); signal(SIGALRM, on_prof);
                    if (the_property.setup) the_property.setup();
                    worker(w, W, keep_start, bad + 1, &slots[w], now(), 400);
                    _exit(0);
                }
                int st3; while (waitpid(q, &st3, 0) < 0 && errno == EINTR) {}
                if (WIFSIGNALED(st3) && WTERMSIG(st3) == SIGKILL) rep = false;
                rep = rep && !(slots[w].finished && !slots[w].failed);
                if (slots[w].failed) msg = slots[w].msg;
            }
            if (rep)
            {
                for (int i = 0; i < W; ++i) if (pids[i] > 0) kill(pids[i], SIGKILL);
                mkdir((g_verif + "/replays").c_str(), 0755);
                string path = g_verif + "/replays/" + g_id + "-" + f.name + "-history.replay";
                { ofstream o(path.c_str()); o << "property " << g_id << "\nfacet " << f.name << "\nseed " << g_seed << "\ntier " << g_tier << (getenv("PBT_SCALE") ? string("\nscale ") + getenv("PBT_SCALE") : "") << (only_facet.empty() ? "" : "\nonly " + only_facet) << "\nhistory " << w << " " << W << " " << starts[w] << " " << bad + 1 << "\nend\n# " << msg << "\n"; }
                if (msg == "worker died")
                {
                    ifstream ei((g_tmp + "/err.again").c_str()); stringstream es; es << ei.rdbuf();
                    size_t at = es.str().find("ERROR: "); msg += ": " + es.str().substr(at == string::npos ? 0 : at, 2500);
                }
                dprintf(g_saved_stdout, "failure (needs the earlier cases of worker %d): %s\nVIOLATION property=%s replay=%s\n", w, msg.c_str(), g_id.c_str(), path.c_str());
                violations = 1; vmsg = msg;
                break;
            }
        }
        unreproduced++;
        if (getenv("PBT_KEEP_ERR"))
        {
            string c = "cp '" + g_tmp + "/err." + to_string(w) + "' '" + getenv("PBT_KEEP_ERR") + "'"; int r = system(c.c_str()); (void)r;
        }
        dprintf(g_saved_stdout, "note: case %ld failed once and not again (%s)\n", bad, killed ? "killed" : msg.substr(0, 300).c_str());
        if (unreproduced > 20) { --live; continue; }
        spawn(w, bad + W);
    }
    for (int i = 0; i < W; ++i) if (pids[i] > 0) { kill(pids[i], SIGKILL); int st; waitpid(pids[i], &st, 0); }

    WorkerStats st;
    int nstats = 0;
    if (DIR* d = opendir(g_tmp.c_str()))
    {
        while (dirent* e = readdir(d)) { string n(e->d_name); if (n.compare(0, 6, "stats.") == 0) { readStats(g_tmp + "/" + n, st); ++nstats; } }
        closedir(d);
    }
    if (!nstats && !violations) printf("note: no statistics in %s\n", g_tmp.c_str());
    long done = 0; for (int w = 0; w < W; ++w) done += slots[w].done;
    if (violations) st.evaluations = max<long>(st.evaluations, done);

    map<string, string> known = loadKnown();
    for (auto const& k : known) printf("KNOWN-FINDING: property=%s %s %s\n", g_id.c_str(), k.first.c_str(), k.second.c_str());
    for (auto const& k : st.knowns)
        if (!known.count(k.first) && !violations)
        {
            mkdir((g_verif + "/replays").c_str(), 0755);
            string path = g_verif + "/replays/" + g_id + "-unlisted-" + k.first + ".replay";
            { ofstream o(path.c_str()); o << "property " << g_id << "\n# unlisted finding " << k.first << "\n"; }
            printf("VIOLATION property=%s replay=%s\n", g_id.c_str(), path.c_str());
            violations = 1; vmsg = "unlisted finding " + k.first;
        }
    bool early = st.evaluations < total && !violations;
    writeEvidence(st, now() - t0, violations, vmsg, early);
    printf("%s tier=%s seed=%llu: %ld cases, %zu distinct non-trivial, %.1f s%s%s\n", g_id.c_str(), g_tier.c_str(), (unsigned long long)g_seed,
        st.evaluations, st.nontrivial.size(), now() - t0, early ? ", stopped early" : "", violations ? ", VIOLATED" : "");
    fflush(stdout);
    return violations ? 1 : 0;
}
