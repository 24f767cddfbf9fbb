// C01: marshalling round trip; all sinks and sources agree.
#include <sys/resource.h>
#include <signal.h>
#include "gen.hh"
#include <typelib/value_ops.hh>
#include <sstream>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace gen; using namespace pbt;
namespace T = Typelib;
typedef std::vector<uint8_t> Bytes;

struct Collect : T::OutputStream {
    Bytes b; size_t writes; Collect() : writes(0) {}
    void write(uint8_t const* d, size_t n) { ++writes; if (n) b.insert(b.end(), d, d + n); }
};
struct Feed : T::InputStream {
    Bytes const& b; size_t pos; Feed(Bytes const& b) : b(b), pos(0) {}
    void read(uint8_t* d, size_t n) { if (b.size() - pos < n) throw std::runtime_error("feed exhausted"); if (n) memcpy(d, b.data() + pos, n); pos += n; }
};
static Bytes readAll(int fd)
{
    Bytes r; off_t n = lseek(fd, 0, SEEK_END); lseek(fd, 0, SEEK_SET);
    r.resize(n); off_t got = 0; while (got < n) { ssize_t k = read(fd, r.data() + got, n - got); if (k <= 0) break; got += k; }
    return r;
}
static void caseInfo(Ctx& c, MT const& t, MVal const& v)
{
    NOTE(c, "type " << str(t) << "\nvalue " << str(*t, v) << "\n");
    if (t->hasContainer()) c.label("has container");
    if (t->k == ARRAY) c.label("top array");
    if (trailingPadding(*t)) c.label("trailing padding");
    if (leafCount(*t, v) >= 3) c.nontrivial();
}

static void roundtrip(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t), w = value(c, t);
    uint32_t p1 = c.draw(4), p2 = c.draw(4);
    caseInfo(c, t, v);
    NOTE(c, "previous contents " << str(*t, w) << "\n");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    no_leak("dump/load", [&]() {
        Native a(t, v, p1), b(t, w, p2);
        Bytes d = T::dump(a.v(type));
        CHECK(a.get() == v, "dump modified its operand");
        T::load(b.v(type), d);
        MVal got = b.get();
        CHECK(got == v, "loaded " << str(*t, got) << " instead of " << str(*t, v));
        Bytes d2 = T::dump(b.v(type));
        Enc e = encode(*t, v); std::string why;
        CHECK(d.size() == d2.size(), "re-dump has another size: " << d.size() << " vs " << d2.size());
        if (e.bytes.size() == d.size())
            for (size_t i = 0; i < d.size(); ++i) CHECK(!e.mask[i] || d[i] == d2[i], "re-dump differs at byte " << i);
        // appending
        Bytes pre(5, 0x42); T::dump(a.v(type), pre);
        CHECK(pre.size() == d.size() + 5 && std::equal(d.begin(), d.end(), pre.begin() + 5), "dump does not append to the vector");
    });
}

static void sinks(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t);
    uint32_t p1 = c.draw(4);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::MemoryLayout ops = T::layout_of(type);
    unsigned cutdraw = c.draw(1000), slack = c.draw(9);
    no_leak("the sinks", [&]() {
        Native a(t, v, p1);
        T::Value av = a.v(type);
        Bytes d = T::dump(av);
        { Bytes x; T::dump(av, x); CHECK(x == d, "dump(Value, vector)"); }
        { Bytes x; T::dump(av, x, ops); CHECK(x == d, "dump(Value, vector, layout)"); }
        { Bytes x; T::dump((uint8_t const*)a.p, x, ops); CHECK(x == d, "dump(ptr, vector, layout)"); }
        { std::ostringstream o; T::dump(av, o); std::string s = o.str(); CHECK(Bytes(s.begin(), s.end()) == d, "ostream sink"); }
        { std::ostringstream o; T::dump(av, o, ops); std::string s = o.str(); CHECK(Bytes(s.begin(), s.end()) == d, "ostream sink with layout"); }
        { std::ostringstream o; T::dump((uint8_t const*)a.p, o, ops); std::string s = o.str(); CHECK(Bytes(s.begin(), s.end()) == d, "ostream sink ptr"); }
        { Collect s; T::dump(av, s); CHECK(s.b == d, "user stream sink"); }
        { Collect s; T::dump(av, s, ops); CHECK(s.b == d, "user stream sink with layout"); }
        {
            int fd = memfd_create("d", 0); CHECK(fd >= 0, "memfd");
            T::dump(av, fd); Bytes x = readAll(fd); CHECK(x == d, "file descriptor sink");
            if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); T::dump(av, fd, ops); x = readAll(fd); close(fd); CHECK(x == d, "file descriptor sink with layout");
        }
        {
            int fd = memfd_create("d", 0); FILE* f = fdopen(dup(fd), "w+"); CHECK(f, "fdopen");
            T::dump(av, f); fflush(f); Bytes x = readAll(fd); CHECK(x == d, "FILE sink");
            if (ftruncate(fd, 0)) {} rewind(f); T::dump(av, f, ops); fflush(f); x = readAll(fd); fclose(f); close(fd); CHECK(x == d, "FILE sink with layout");
        }
        CHECK(T::getDumpSize(av) == d.size(), "dump size " << T::getDumpSize(av) << " announced, " << d.size() << " produced");
        CHECK(T::getDumpSize(av, ops) == d.size(), "dump size with layout");
        CHECK(T::getDumpSize((uint8_t const*)a.p, ops) == d.size(), "dump size from pointer");
        // bounded buffers: exact, larger, too small
        for (int k = 0; k < 3; ++k)
        {
            size_t n = k == 0 ? d.size() : k == 1 ? d.size() + slack : d.size() ? cutdraw % d.size() : 0;
            std::unique_ptr<uint8_t[]> buf(new uint8_t[n + 1 - 1]);
            if (n) memset(buf.get(), 0xEE, n);
            int res = k == 1 ? T::dump(av, buf.get(), n, ops) : T::dump(av, buf.get(), n);
            if (n < d.size()) CHECK(res == 0, "buffer of " << n << " bytes for " << d.size() << ": result " << res << " instead of 0");
            else
            {
                CHECK(res == (int)d.size(), "buffer of " << n << " bytes for " << d.size() << ": result " << res);
                CHECK(std::equal(d.begin(), d.end(), buf.get()), "bounded buffer contents differ");
                for (size_t i = d.size(); i < n; ++i) CHECK(buf[i] == 0xEE, "bytes after the dump modified");
            }
        }
        // sources
        for (int k = 0; k < 6; ++k)
        {
            Native b(t, zeroValue(*t), 3);
            std::unique_ptr<uint8_t[]> raw(new uint8_t[d.size()]); if (d.size()) memcpy(raw.get(), d.data(), d.size());
            switch (k)
            {
                case 0: T::load(b.v(type), d, ops); break;
                case 1: T::load(b.v(type), raw.get(), d.size()); break;
                case 2: T::load(b.v(type), raw.get(), d.size(), ops); break;
                case 3: { Feed f(d); T::load(b.v(type), f); CHECK(f.pos == d.size(), "stream source not consumed exactly"); break; }
                case 4: { Feed f(d); T::load(b.v(type), f, ops); break; }
                case 5: T::load(b.p, type, raw.get(), d.size(), ops); break;
            }
            MVal got = b.get();
            CHECK(got == v, "source " << k << " loads " << str(*t, got));
        }
    });
}

// a sink that fails must be reported, never ignored
static void failingSinks(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Native a(t, v, 2);
    Bytes d = T::dump(a.v(type));
    if (d.empty()) { c.label("empty dump"); return; }
    int kind = c.draw(7); size_t cut = c.draw(d.size());
    NOTE(c, "failing sink kind " << kind << " after " << cut << " of " << d.size() << " bytes\n");
    if (kind == 0) {
        int fd = open("/dev/full", O_WRONLY); if (fd < 0) return;
        bool thrown = false;
        try { T::dump(a.v(type), fd); } catch (std::exception&) { thrown = true; }
        close(fd); CHECK(thrown, "a failing write on a file descriptor is not reported");
    } else if (kind == 1) {
        // read-only descriptor
        int fd = open("/dev/null", O_RDONLY); bool thrown = false;
        try { T::dump(a.v(type), fd); } catch (std::exception&) { thrown = true; }
        close(fd); CHECK(thrown, "a refused write on a file descriptor is not reported");
    } else if (kind == 2) {
        FILE* f = fopen("/dev/full", "w"); if (!f) return;
        setvbuf(f, 0, _IONBF, 0);
        bool thrown = false;
        try { T::dump(a.v(type), f); } catch (std::exception&) { thrown = true; }
        fclose(f); CHECK(thrown, "a failing write on a C file is not reported");
    } else if (kind == 4) {
        // a short write: the file may not grow beyond cut bytes
        int fd = memfd_create("d", 0); CHECK(fd >= 0, "memfd");
        struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = cut;
        auto sig = signal(SIGXFSZ, SIG_IGN); bool limited = setrlimit(RLIMIT_FSIZE, &lim) == 0, thrown = false;
        try { T::dump(a.v(type), fd); } catch (std::exception&) { thrown = true; }
        setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, sig);
        Bytes x = readAll(fd); close(fd); if (!limited) return;
        CHECK(thrown, "a short write on a file descriptor is not reported: " << x.size() << " of " << d.size() << " bytes written");
        CHECK(x.size() <= cut && std::equal(x.begin(), x.end(), d.begin()), "wrong bytes before the failure"); c.label("short write");
    } else if (kind == 5) {
        if (!cut) return;
        std::unique_ptr<char[]> buf(new char[cut]); FILE* f = fmemopen(buf.get(), cut, "wb"); if (!f) return;
        setvbuf(f, 0, _IONBF, 0); bool thrown = false;
        try { T::dump(a.v(type), f); } catch (std::exception&) { thrown = true; }
        fclose(f); CHECK(thrown, "a short write on a C file is not reported"); c.label("short C file");
    } else if (kind == 6) {
        struct Buf : std::streambuf { size_t lim; Bytes b; std::streamsize xsputn(char const* p, std::streamsize n) { size_t k = std::min<size_t>(n, lim - b.size()); b.insert(b.end(), p, p + k); return k; } int overflow(int ch) { char x = ch; return xsputn(&x, 1) == 1 ? ch : EOF; } } buf; buf.lim = cut;
        std::ostream o(&buf); bool thrown = false, exceptions = c.flip(); if (exceptions) o.exceptions(std::ios::badbit | std::ios::failbit);
        try { T::dump(a.v(type), o); } catch (std::exception&) { thrown = true; }
        CHECK(thrown || !o, "a failing stream is not reported"); CHECK(thrown || !exceptions, "the exception of a failing stream is swallowed");
        CHECK(buf.b.size() <= cut && std::equal(buf.b.begin(), buf.b.end(), d.begin()), "wrong bytes before the failure"); c.label("failing stream");
    } else {
        struct Lim : Collect { size_t lim; void write(uint8_t const* p, size_t n) { if (b.size() + n > lim) throw std::runtime_error("full"); Collect::write(p, n); } } s; s.lim = cut;
        bool thrown = false;
        try { T::dump(a.v(type), s); } catch (std::exception&) { thrown = true; }
        CHECK(thrown, "the failure of a user stream is swallowed");
        CHECK(s.b.size() <= cut && std::equal(s.b.begin(), s.b.end(), d.begin()), "wrong bytes before the failure");
    }
    CHECK(a.get() == v, "operand changed");
}

Property pbt::the_property = { "C01",
    "random type graphs (numerics, enums, arrays, padded/packed/gapped compounds, strings, nested vectors) with random values and random previous destination contents; non-trivial: the value has at least 3 leaves; distinct by choice sequence",
    { {"roundtrip", roundtrip, 160000, 4000000}, {"sinks", sinks, 50000, 1200000}, {"failing_sinks", failingSinks, 20000, 400000} }, registerContainers };
