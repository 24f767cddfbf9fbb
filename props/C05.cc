// C05: comparison is exact equality, ignoring padding only.
#include "valcheck.hh"

static Opts all() { Opts o; o.pointers = true; o.zero_dims = true; return o; }
static bool cmp(int form, Native& a, T::Type const& ta, Native& b, T::Type const& tb)
{
    if (form == 0) return T::compare(a.v(ta), b.v(tb));
    return T::compare(a.p, b.p, ta);
}
static void same(Ctx& c)
{
    Universe u(all()); MT t = u.top(c);
    MVal v = value(c, t), m = v;
    bool mut = mutateOne(c, *t, m);
    if (c.flip(1, 6)) { m = value(c, t); mut = m != v; c.label("independent pair"); }
    int form = c.draw(2); uint32_t p1 = c.draw(4), p2 = c.draw(4);
    caseInfo(c, t, v); NOTE(c, "other " << str(*t, m) << "\n");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    no_leak("compare", [&]() {
        Native a(t, v, p1), b(t, v, p2), d(t, m, p1);
        CHECK(cmp(form, a, type, a, type), "a value differs from itself");
        CHECK(cmp(form, a, type, b, type) && cmp(form, b, type, a, type), "equal values differ (paddings " << p1 << " and " << p2 << ")");
        if (mut)
        {
            CHECK(!cmp(form, a, type, d, type), "differing values are reported equal");
            CHECK(!cmp(form, d, type, a, type), "differing values are reported equal (swapped)");
        }
        CHECK(a.get() == v && b.get() == v && d.get() == m, "comparison modified an operand");
    });
}
// every leaf of a small value, one after the other
static void everyLeaf(Ctx& c)
{
    Opts o = all(); o.max_depth = 2; o.big = false;
    Universe u(o); MT t = u.top(c);
    Budget bud(40); MVal v = value(c, *t, bud);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Native a(t, v, 3), b(t, v, 3);
    std::vector<uint8_t> map; byteMap(*t, map);
    for (size_t i = 0; i < map.size(); ++i)
    {
        if (map[i] == 2) continue;
        uint8_t old = b.p[i]; b.p[i] ^= (uint8_t)(1 + c.draw(255));
        bool eq = T::compare(a.v(type), b.v(type));
        CHECK(eq == (map[i] == 0), "changing byte " << i << (map[i] ? ", which is data, leaves the values equal" : ", which is padding, makes the values differ"));
        b.p[i] = old;
        c.count("bytes", 1);
    }
}
static void cast(Ctx& c)
{
    Opts o; o.pointers = true;
    Universe u(o); MT t = u.top(c); std::string what; MT t2 = derive(c, t, what);
    MVal v = value(c, t);
    T::Registry r, r2; Inst i1(r), i2(r2); T::Type const& ty = i1(t); T::Type const& ty2 = i2(t2);
    caseInfo(c, t, v); NOTE(c, "other type (" << what << ") " << str(t2) << "\n");
    c.label(what);
    bool ok = castModel(*t, *t2);
    c.label(ok ? "castable" : "not castable");
    Native a(t, v, 1);
    MVal v2 = v;
    if (!ok || c.flip(1, 2)) { if (ok) mutateOne(c, *t2, v2); else v2 = value(c, t2); }
    Native b(t2, v2, 2);
    bool expect = ok && v2 == v;
    CHECK(T::compare(a.v(ty), b.v(ty2)) == expect, "compare gives " << !expect << " between castable=" << ok << " types (" << what << "), values " << str(*t, v) << " and " << str(*t2, v2));
    CHECK(a.get() == v && b.get() == v2, "comparison modified an operand");
}
Property pbt::the_property = { "C05",
    "random types (pointers, zero-length arrays included), pairs of values equal up to padding, one-leaf mutations, exhaustive byte flips of small values, and pairs of types differing in one point; non-trivial: at least 3 leaves",
    { {"same_type", same, 140000, 4000000}, {"every_byte", everyLeaf, 50000, 1000000}, {"cast", cast, 100000, 2000000} }, registerContainers };
