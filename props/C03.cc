// C03: loading untrusted bytes.
#include "valcheck.hh"

// loads through one of the sources; returns true if it succeeded
static bool tryLoad(int source, T::Value v, Bytes const& d, T::Type const& type)
{
    try {
        if (source == 0) T::load(v, d);
        else if (source == 1)
        {
            std::unique_ptr<uint8_t[]> raw(new uint8_t[d.size()]); if (!d.empty()) memcpy(raw.get(), d.data(), d.size());
            T::load(v, raw.get(), d.size());
        }
        else { Feed f(d); T::load(v, f); }
        return true;
    }
    catch (std::exception&) { return false; }
}

static Bytes dumpOf(MT const& t, T::Type const& type, MVal const& v)
{
    Native a(t, v, 1);
    return T::dump(a.v(type));
}

static void afterwards(MT const& t, T::Type const& type, Native& b, MVal const& v, Bytes const& d)
{
    bool huge = storage(*t, b.p) > 20000;     // a damaged count may leave many elements
    if (!huge) {
    MVal got = b.get();                       // readable
    T::compare(b.v(type), b.v(type));
    Bytes again = T::dump(b.v(type));
    }
    T::load(b.v(type), d);                    // re-loadable
    MVal now = b.get();
    CHECK(now == v, "after the damaged load, loading a valid dump gives " << str(*t, now));
}

static void truncated(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t), w = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Bytes d = dumpOf(t, type, v);
    if (d.empty()) { c.label("empty dump"); return; }
    size_t cut = c.flip(1, 3) ? d.size() - 1 - c.draw(std::min<size_t>(d.size(), 9)) : c.draw(d.size());
    int source = c.draw(3);
    NOTE(c, "previous " << str(*t, w) << "\nkeep " << cut << " of " << d.size() << " bytes, source " << source << "\n");
    Bytes x(d.begin(), d.begin() + cut);
    no_leak("a truncated load", [&]() {
        Native b(t, w, 4);
        bool ok = tryLoad(source, b.v(type), x, type);
        CHECK(!ok, "a dump of " << d.size() << " bytes truncated to " << cut << " is accepted");
        afterwards(t, type, b, v, d);
    });
}
static void extended(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t), w = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Bytes d = dumpOf(t, type, v);
    size_t extra = 1 + c.size(40); int source = c.draw(2);
    size_t tp = trailingPadding(*t);
    if (tp && c.flip(1, 3)) extra = tp;
    bool accept = extra == tp;
    c.label(accept ? "extra is the trailing padding" : "extra bytes");
    NOTE(c, "extra " << extra << " trailing padding " << tp << " source " << source << "\n");
    Bytes x = d; x.insert(x.end(), extra, 0x33);
    no_leak("an extended load", [&]() {
        Native b(t, w, 4);
        bool ok = tryLoad(source, b.v(type), x, type);
        CHECK(ok == accept, extra << " more bytes than needed (trailing padding " << tp << "): " << (ok ? "accepted" : "rejected"));
        if (ok) { CHECK(b.get() == v, "loaded another value"); }
        afterwards(t, type, b, v, d);
    });
}
static void corrupted(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t), w = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Bytes d = dumpOf(t, type, v), x = d;
    Enc e = encode(*t, v);
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; ++i)
    {
        switch (c.weighted({4, 2, 1, 1}))
        {
            case 0:
                if (e.counts.size() && e.bytes.size() == d.size())
                {
                    auto k = e.counts[c.draw(e.counts.size())];
                    uint64_t old; if (k.first + 8 > x.size()) break;
                    memcpy(&old, &x[k.first], 8);
                    uint64_t nv = 0;
                    switch (c.draw(9))
                    {
                        case 0: nv = old + 1 + c.draw(4); break;
                        case 1: nv = old ? old - 1 : 1; break;
                        case 2: nv = ~0ull - c.draw(3); break;
                        case 3: nv = ~0ull / k.second + 1 + c.draw(3); break;
                        case 4: nv = 1ull << (32 + c.draw(32)); break;
                        case 5: nv = (1ull << 63) + c.draw(3); break;
                        case 6: nv = 1000 + c.draw(100000); break;
                        case 7: nv = ~0ull / k.second - c.draw(2); break;
                        default: nv = c.draw64(); break;
                    }
                    memcpy(&x[k.first], &nv, 8);
                    c.label("corrupted count");
                    NOTE(c, "count at " << k.first << " becomes " << nv << "\n");
                }
                break;
            case 1: if (!x.empty()) { size_t p = c.draw(x.size()); x[p] ^= 1 << c.draw(8); NOTE(c, "bit flip at " << p << "\n"); } break;
            case 2: if (!x.empty()) { size_t p = c.draw(x.size()); x.erase(x.begin() + p, x.begin() + p + std::min<size_t>(x.size() - p, 1 + c.draw(8))); NOTE(c, "bytes deleted at " << p << "\n"); } break;
            default: { size_t p = c.draw(x.size() + 1); Bytes ins(1 + c.draw(8), c.draw(256)); x.insert(x.begin() + p, ins.begin(), ins.end()); NOTE(c, "bytes inserted at " << p << "\n"); }
        }
    }
    int source = c.draw(3);
    bool ok1 = false;
    no_leak("a corrupted load", [&]() {
        Native b(t, w, 4);
        ok1 = tryLoad(source, b.v(type), x, type);
        if (ok1)
        {   // an accepted input is a dump of the value it produced
            MVal got = b.get(); Enc ge = encode(*t, got);
            size_t extra = source == 2 ? 0 : trailingPadding(*t);
            if (source != 2) CHECK(ge.bytes.size() == x.size() || ge.bytes.size() + extra == x.size(), "accepted " << x.size() << " bytes as a value that takes " << ge.bytes.size());
            for (size_t i = 0; i < ge.bytes.size() && i < x.size(); ++i)
                CHECK(!ge.mask[i] || ge.bytes[i] == x[i], "accepted input differs from the value's form at byte " << i);
        }
        afterwards(t, type, b, v, d);
    });
    c.label(ok1 ? "accepted" : "rejected");
}
static void garbage(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t), w = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Bytes d = dumpOf(t, type, v), x;
    size_t n = c.size(200);
    for (size_t i = 0; i < n; ++i) x.push_back(c.flip() ? c.draw(4) * c.draw(2) : c.draw(256));
    int source = c.draw(3);
    NOTE(c, "bytes " << hex(x) << "\n");
    no_leak("a garbage load", [&]() {
        Native b(t, w, 4);
        tryLoad(source, b.v(type), x, type);
        afterwards(t, type, b, v, d);
    });
}
Property pbt::the_property = { "C03",
    "valid dumps truncated, extended, with element counts and bytes damaged, and random bytes, loaded into live values of random types through each source; non-trivial: the original value has at least 3 leaves",
    { {"truncated", truncated, 60000, 1500000}, {"extended", extended, 40000, 1000000}, {"corrupted", corrupted, 100000, 2500000}, {"garbage", garbage, 40000, 1000000} }, registerContainers };
