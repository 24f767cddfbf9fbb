// C08: byte-order swapping.
#include "valcheck.hh"
#include <typelib/endianness.hh>

static MVal swapped(MType const& t, MVal const& v)
{
    MVal r = v;
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT: case ENUM: { r.bits = 0; for (size_t i = 0; i < t.size; ++i) r.bits |= ((v.bits >> (8 * i)) & 0xff) << (8 * (t.size - 1 - i)); break; }
        case ARRAY: case VECTOR: for (auto& k : r.kids) k = swapped(*t.elem, k); break;
        case COMPOUND: for (size_t i = 0; i < r.kids.size(); ++i) r.kids[i] = swapped(*t.fields[i].type, r.kids[i]); break;
        default: break;
    }
    return r;
}
static void inPlace(Ctx& c)
{
    Opts o; o.opaques = c.flip(1, 4); o.zero_dims = true;
    Universe u(o); MT t = u.top(c); MVal v = value(c, t); uint32_t pad = c.draw(4);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    MVal want = swapped(*t, v);
    no_leak("endian_swap", [&]() {
        Native a(t, v, pad); Bytes before(a.p, a.p + t->size);
        T::endian_swap(a.v(type));
        MVal got = a.get(); CHECK(got == want, "swapped " << str(*t, got) << " instead of " << str(*t, want));
        std::vector<uint8_t> map; byteMap(*t, map);
        for (size_t i = 0; i < map.size(); ++i) CHECK(map[i] == 1 || a.p[i] == before[i], "byte " << i << ", which is not data, changed");
        T::endian_swap(a.v(type));
        got = a.get(); CHECK(got == v, "swapping twice gives " << str(*t, got));
    });
}
static void compiled(Ctx& c)
{
    Opts o; o.containers = o.strings = false; o.zero_dims = true;
    Universe u(o); MT t = u.top(c); 
    if (t->k == COMPOUND && t->fields.size() > 1 && c.flip(1, 8))
    {   // declaration order must not matter
        MT m(new MType(*t)); m->name += "_m";
        for (size_t i = m->fields.size(); i-- > 1;) std::swap(m->fields[i], m->fields[c.draw(i + 1)]);
        t = m; c.label("shuffled fields");
    }
    MVal v = value(c, t); uint32_t pad = c.draw(4);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    MVal want = swapped(*t, v);
    T::CompileEndianSwapVisitor comp; comp.apply(type);
    Native a(t, v, pad), b(t);
    Bytes before(a.p, a.p + t->size);
    comp.swap(a.v(type), b.v(type));
    MVal got = b.get(); CHECK(got == want, "the compiled swap gives " << str(*t, got) << " instead of " << str(*t, want));
    CHECK(!memcmp(before.data(), a.p, t->size), "the compiled swap changed its input");
    Native d(t, v, pad);
    T::endian_swap(d.v(type));
    CHECK(d.get() == got, "the compiled and in-place swaps differ");
    // the same program again, the other way
    Native e(t); comp.swap(b.v(type), e.v(type));
    CHECK(e.get() == v, "swapping twice gives " << str(*t, e.get()));
}
static void refusal(Ctx& c)
{
    Opts o; o.pointers = true; o.opaques = true; o.zero_dims = true; Universe u(o); MT t = u.top(c);
    NOTE(c, "type " << str(t) << "\n");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    bool unsup = t->hasPointer() || t->hasOpaque() || t->hasContainer();
    if (unsup) c.nontrivial();
    bool thrown = false; T::CompileEndianSwapVisitor comp;
    try { comp.apply(type); } catch (T::UnsupportedEndianSwap&) { thrown = true; }
    CHECK(thrown == unsup, "the compiled swap " << (thrown ? "refuses a type it handles" : "accepts a type with containers, pointers or opaques"));
}
Property pbt::the_property = { "C08",
    "random types (padding, packing, nested arrays, zero-length arrays, enums; containers and opaques for the in-place form), random values, compared with the model value reversed leaf by leaf; non-trivial: at least 3 leaves, or an unsupported type",
    { {"in_place", inPlace, 140000, 3000000}, {"compiled", compiled, 140000, 3000000}, {"refusal", refusal, 40000, 500000} }, registerContainers };
