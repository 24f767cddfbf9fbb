// C11: memory layouts cover each byte once; simplification preserves meaning.
#include "valcheck.hh"
#include <typelib/memory_layout.hh>

typedef T::MemoryLayout::const_iterator It;

// what a layout must say, per byte: 0 padding, 1 data, 2 container; the containers in order
static void expect(MType const& t, std::vector<uint8_t>& out, std::vector<MType const*>& conts)
{
    switch (t.k)
    {
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) expect(*t.elem, out, conts); break;
        case COMPOUND: {
            size_t cur = 0;
            for (auto const& f : t.fields) { out.insert(out.end(), f.off - cur, 0); expect(*f.type, out, conts); cur = f.off + f.type->size; }
            out.insert(out.end(), t.size - cur, 0); break;
        }
        case VECTOR: case STRING: out.insert(out.end(), t.size, 2); conts.push_back(&t); break;
        case OPAQUE: out.insert(out.end(), t.size, 0); break;
        default: out.insert(out.end(), t.size, 1);
    }
}
struct Expander {
    std::vector<uint8_t> codes; std::vector<std::pair<T::Container const*, std::pair<It, It>>> conts;
    It run(It it, It end, bool nested)
    {
        for (; it != end; ++it)
        {
            switch (*it)
            {
                case T::MemLayout::FLAG_MEMCPY: { size_t n = *++it; CHECK(n < 1000000, "operation of " << n << " bytes"); codes.insert(codes.end(), n, 1); break; }
                case T::MemLayout::FLAG_SKIP: { size_t n = *++it; CHECK(n < 1000000, "operation of " << n << " bytes"); codes.insert(codes.end(), n, 0); break; }
                case T::MemLayout::FLAG_ARRAY: {
                    size_t n = *++it; It b = ++it; CHECK(n < 100000, "array of " << n);
                    CHECK(n > 0, "array operation without elements");
                    for (size_t i = 0; i < n; ++i) { it = run(b, end, true); }
                    break;
                }
                case T::MemLayout::FLAG_CONTAINER: {
                    T::Container const* c = reinterpret_cast<T::Container const*>(*++it);
                    It b = ++it; It e = T::MemoryLayout::skipBlock(b, end);
                    CHECK(e != end && *e == T::MemLayout::FLAG_END, "skipBlock does not find the end of a container");
                    codes.insert(codes.end(), c->getSize(), 2);
                    conts.push_back(std::make_pair(c, std::make_pair(b, e)));
                    it = e; break;
                }
                case T::MemLayout::FLAG_END: CHECK(nested, "unbalanced end"); return it;
                default: FAILCASE("unknown operation " << *it);
            }
        }
        CHECK(!nested, "missing end");
        return it;
    }
};
static void checkBlock(MType const& t, Inst& inst, Universe const& u, It b, It e, bool merge, bool trail_removed, std::string const& what)
{
    Expander x; x.run(b, e, false);
    std::vector<uint8_t> want; std::vector<MType const*> conts; expect(t, want, conts);
    size_t last = want.size(); while (last > 0 && want[last - 1] == 0) --last;
    if (!trail_removed) CHECK(x.codes.size() == want.size(), what << ": the layout of " << t.name << " covers " << x.codes.size() << " bytes of " << want.size());
    else CHECK(x.codes.size() >= last && x.codes.size() <= want.size(), what << ": the layout of " << t.name << " covers " << x.codes.size() << " bytes of " << want.size() << ", data ends at " << last);
    for (size_t i = 0; i < x.codes.size(); ++i)
    {
        bool ok = merge && want[i] == 0 ? x.codes[i] != 2 : x.codes[i] == want[i];
        CHECK(ok, what << ": byte " << i << " of " << t.name << " is marked " << (int)x.codes[i] << " instead of " << (int)want[i]);
    }
    CHECK(x.conts.size() == conts.size(), what << ": " << x.conts.size() << " containers instead of " << conts.size());
    for (size_t i = 0; i < conts.size(); ++i)
    {
        CHECK(x.conts[i].first == &inst(findByName(u, conts[i]->name)), what << ": container " << i << " of " << t.name << " is of another type");
        checkBlock(*conts[i]->elem, inst, u, x.conts[i].second.first, x.conts[i].second.second, merge, false, what + ", elements of " + conts[i]->name);
    }
}
static Opts opts(Ctx& c) { Opts o; o.pointers = c.flip(); o.opaques = c.flip(1, 3); o.zero_dims = true; return o; }
static void coverage(Ctx& c)
{
    Universe u(opts(c)); MT t = c.flip(1, 400) ? u.large(c) : u.top(c);
    NOTE(c, "type " << str(t) << "\n");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    bool hp = t->hasPointer(), ho = t->hasOpaque();
    if (hp) c.label("pointers"); if (ho) c.label("opaques"); if (t->hasContainer()) c.label("containers");
    if (t->k != SINT && t->k != UINT && t->k != FLOAT && t->k != ENUM) c.nontrivial();
    for (int k = 0; k < 16; ++k)
    {
        bool ap = k & 1, ao = k & 2, merge = !(k & 4), trail = !(k & 8), refused = false;
        std::string what = std::string("accept_pointers=") + (ap ? "1" : "0") + " accept_opaques=" + (ao ? "1" : "0") + " merge=" + (merge ? "1" : "0") + " remove_trailing=" + (trail ? "1" : "0");
        T::MemoryLayout l;
        try { l = T::layout_of(type, ap, ao, merge, trail); } catch (T::NoLayout&) { refused = true; }
        bool want = (hp && !ap) || (ho && !ao);
        CHECK(refused == want, what << ": " << (refused ? "refused" : "accepted"));
        if (refused) continue;
        l.validate();
        checkBlock(*t, inst, u, l.begin(), l.end(), merge, trail, what);
        std::ostringstream os; l.display(os);
    }
    if (true)
    {
        T::MemoryLayout l = T::raw_layout_of(type, true, true); l.validate();
        checkBlock(*t, inst, u, l.begin(), l.end(), false, false, "raw");
        for (int k = 0; k < 2; ++k)   // what the defaults say
        {
            bool refused = false;
            try { l = k ? T::raw_layout_of(type) : T::layout_of(type); } catch (T::NoLayout&) { refused = true; }
            CHECK(refused == (hp || ho), (k ? "raw_layout_of" : "layout_of") << " without options: " << (refused ? "refused" : "accepted"));
            if (!refused) checkBlock(*t, inst, u, l.begin(), l.end(), !k, !k, "without options");
            if (ho) continue;
            l = k ? T::raw_layout_of(type, true) : T::layout_of(type, true);
            checkBlock(*t, inst, u, l.begin(), l.end(), !k, !k, "accepting pointers");
        }
    }
}
static bool pointerInContainer(MType const& t, bool in)
{
    if (t.k == POINTER) return in;
    if (t.k == ARRAY) return pointerInContainer(*t.elem, in);
    if (t.k == VECTOR) return pointerInContainer(*t.elem, true);
    for (auto const& f : t.fields) if (pointerInContainer(*f.type, in)) return true;
    return false;
}
static void meaning(Ctx& c)
{
    Opts o; o.pointers = c.flip(1, 3); o.zero_dims = true;
    Universe u(o); MT t = u.top(c);
    if (pointerInContainer(*t, false)) { c.label("pointers in containers, skipped"); return; }
    MVal v = value(c, t), w = value(c, t);
    caseInfo(c, t, v);
    bool merge = c.flip(), trail = c.flip(), merge2 = c.flip(), trail2 = c.flip();
    NOTE(c, "dump merge=" << merge << " remove_trailing=" << trail << "; other merge=" << merge2 << " remove_trailing=" << trail2 << "\n");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::MemoryLayout l = T::layout_of(type, true, false, merge, trail), l2 = T::layout_of(type, true, false, merge2, trail2);
    bool raw = c.flip(1, 5);
    if (raw) { l = T::raw_layout_of(type, true); c.label("raw layout"); }
    no_leak("operations through a layout", [&]() {
        Native a(t, v, 6), b(t, w, 7), d(t, w, 8);
        Bytes x; T::dump(a.v(type), x, l);
        CHECK(T::getDumpSize(a.v(type), l) == x.size(), "announced dump size " << T::getDumpSize(a.v(type), l) << ", produced " << x.size());
        T::load(b.v(type), x, l);
        MVal got = b.get(); CHECK(got == v, "dump and load through the layout give " << str(*t, got));
        T::copy(d.p, a.p, l2);
        got = d.get(); CHECK(got == v, "copy through the layout gives " << str(*t, got));
        CHECK(T::compare(d.v(type), a.v(type)), "copy differs");
        T::zero(d.v(type), l2);
        got = d.get(); CHECK(got == zeroValue(*t), "zero through the layout gives " << str(*t, got));
        d.live = false; T::destroy(d.v(type), l2);
        memset(d.p, 0x5a, t->size); T::init(d.v(type), l2); d.live = true;
        T::copy(d.p, a.p, l); got = d.get(); CHECK(got == v, "copy into a value initialised through the layout gives " << str(*t, got));
    });
}
// the declaration order of the fields does not matter
static void shuffled(Ctx& c)
{
    Opts o; o.max_depth = 2; Universe u(o); MT t = u.compound(c, 2);
    if (t->fields.size() < 2) return;
    MT m(new MType(*t)); m->name += "_m";
    for (size_t i = m->fields.size(); i-- > 1;) std::swap(m->fields[i], m->fields[c.draw(i + 1)]);
    MVal v = value(c, t), mv;
    for (auto const& f : m->fields) for (size_t i = 0; i < t->fields.size(); ++i) if (t->fields[i].name == f.name) mv.kids.push_back(v.kids[i]);
    NOTE(c, "type " << str(m) << "\nvalue " << str(*m, mv) << "\n"); c.nontrivial();
    T::Registry r; Inst inst(r); T::Type const& ordered = inst(t); T::Type const& type = inst(m);
    no_leak("shuffled fields", [&]() {
        Native a(t, v, 3), b(t, zeroValue(*t), 4), d(t, zeroValue(*t), 4);
        Bytes x = T::dump(a.v(ordered)), y = T::dump(T::Value(a.p, type));
        CHECK(x == y, "declaring the fields in another order marshals as " << hex(y) << " instead of " << hex(x));
        T::load(T::Value(b.p, type), y); CHECK(b.get() == v, "loaded " << str(*t, b.get()));
        T::copy(T::Value(d.p, type), T::Value(a.p, type)); CHECK(d.get() == v, "copied " << str(*t, d.get()));
        CHECK(T::compare(T::Value(d.p, type), T::Value(a.p, type)), "copies differ");
        MVal z = v; (void)z;
        T::zero(T::Value(d.p, type)); CHECK(d.get() == zeroValue(*t), "zeroed value is " << str(*t, d.get()));
    });
}
Property pbt::the_property = { "C11",
    "random types (pointers, opaques, zero-length arrays, empty compounds), the 16 option combinations of layout_of checked byte by byte against the declared offsets, all value operations through random pairs of layouts; non-trivial: not a plain leaf / at least 3 leaves",
    { {"coverage", coverage, 60000, 1500000}, {"meaning", meaning, 80000, 2000000}, {"shuffled", shuffled, 30000, 400000} }, registerContainers };
