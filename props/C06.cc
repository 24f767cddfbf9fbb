// C06: init, zero and destroy lifecycles.
#include "valcheck.hh"

static Opts opts() { Opts o; o.zero_dims = true; return o; }
// after init: containers empty, enums declared. Returns the value
static MVal checkInit(MType const& t, uint8_t const* p)
{
    MVal v;
    switch (t.k)
    {
        case ENUM: {
            v = readback(t, p); bool ok = false;
            for (auto const& s : t.syms) ok |= (uint32_t)s.second == (uint32_t)v.bits;
            CHECK(ok, "enum " << t.name << " is initialised to the undeclared value " << (int)v.bits);
            return v;
        }
        case VECTOR: v = readback(t, p); CHECK(v.kids.empty(), "a vector is not empty after init"); return v;
        case STRING: v = readback(t, p); CHECK(v.bytes.empty(), "a string is not empty after init"); return v;
        case ARRAY: for (size_t i = 0; i < t.dim; ++i) v.kids.push_back(checkInit(*t.elem, p + i * t.elem->size)); return v;
        case COMPOUND: for (auto const& f : t.fields) v.kids.push_back(checkInit(*f.type, p + f.off)); return v;
        default: return readback(t, p);
    }
}
static void initDestroy(Ctx& c)
{
    Universe u(opts()); MT t = u.top(c); MVal v = value(c, t);
    uint32_t fill = c.draw(5); int form = c.draw(3);
    caseInfo(c, t, v);
    for (auto const& x : reachable(t)) if (x->k == ENUM) { c.label("has enum"); break; }
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::MemoryLayout ops = T::layout_of(type);
    no_leak("init/destroy", [&]() {
        Native a(t); Pad pd(fill + 1); for (size_t i = 0; i < t->size; ++i) a.p[i] = pd.next();
        switch (form) { case 0: T::init(a.v(type)); break; case 1: T::init(a.v(type), ops); break; default: T::init(a.p, ops); }
        a.live = true;
        checkInit(*t, a.p);
        // usable as any value
        T::load(a.v(type), encode(*t, v).bytes);
        MVal got = a.get(); CHECK(got == v, "loading into an initialised value gives " << str(*t, got));
        a.live = false;
        switch (form) { case 0: T::destroy(a.v(type)); break; case 1: T::destroy(a.v(type), ops); break; default: T::destroy(a.p, ops); }
    });
}
static void zeroes(Ctx& c)
{
    Universe u(opts()); MT t = u.top(c); MVal v = value(c, t); int form = c.draw(3); uint32_t p = c.draw(4);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::MemoryLayout ops = T::layout_of(type);
    MVal z = zeroValue(*t);
    no_leak("zero", [&]() {
        Native a(t, v, p);
        switch (form) { case 0: T::zero(a.v(type)); break; case 1: T::zero(a.v(type), ops); break; default: T::zero(a.p, ops); }
        MVal got = a.get();
        CHECK(got == z, "zeroed value is " << str(*t, got));
        Native b(t, z, p);
        CHECK(T::compare(a.v(type), b.v(type)), "a zeroed value does not compare equal to zero");
    });
}
static void destroyAny(Ctx& c)
{
    Universe u(opts()); MT t = u.top(c); MVal v = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    no_leak("destroy", [&]() {
        Native a(t, v, 3); a.live = false;
        T::destroy(a.v(type));
    });
}
// values holding pointers and opaques, as layouts may accept them: vectors of
// these have no element layout, are always empty, and must come and go as any other
static void unlaid(Ctx& c)
{
    Opts o = opts(); o.pointers = o.opaques = true; o.namespaces = true;
    Universe u(o); MT t = u.top(c);
    uint32_t fill = c.draw(5); bool clear = c.flip(1, 2), again = c.flip(1, 3), zero = c.flip(1, 4);
    NOTE(c, "type " << str(t) << "\n");
    std::function<bool(MType const&)> unknown = [&](MType const& m) {
        if (m.k == POINTER || m.k == OPAQUE) return true;
        if (m.k == ARRAY || m.k == VECTOR) return unknown(*m.elem);
        for (auto const& f : m.fields) if (unknown(*f.type)) return true;
        return false;
    };
    bool odd = false;
    for (auto const& x : reachable(t)) if (x->k == VECTOR && unknown(*x->elem)) odd = true;
    if (odd) { c.label("vector of pointers or opaques"); c.nontrivial(); }
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    for (auto const& x : u.pool) inst(x);
    T::MemoryLayout ops = T::layout_of(type, true, true);
    no_leak("init/destroy of values without element layouts", [&]() {
        Native a(t); Pad pd(fill + 1); for (size_t i = 0; i < t->size; ++i) a.p[i] = pd.next();
        for (int k = 0; k < 1 + again; ++k)
        {
            T::init(a.p, ops);
            std::vector<std::pair<MType const*, uint8_t*> > vs;
            std::function<void(MType const&, uint8_t*)> walk = [&](MType const& m, uint8_t* p) {
                switch (m.k)
                {
                    case ARRAY: for (size_t i = 0; i < m.dim; ++i) walk(*m.elem, p + i * m.elem->size); break;
                    case COMPOUND: for (auto const& f : m.fields) walk(*f.type, p + f.off); break;
                    case VECTOR: case STRING: vs.push_back(std::make_pair(&m, p)); break;
                    default: break;
                }
            };
            walk(*t, a.p);
            for (auto const& v : vs)
            {
                T::Container const& ct = static_cast<T::Container const&>(inst(findByName(u, v.first->name)));
                CHECK(ct.getElementCount(v.second) == 0, "a container is not empty after init");
                if (clear) ct.clear(v.second);
            }
            if (zero) T::zero(a.p, ops);
            for (auto const& v : vs)
            {
                T::Container const& ct = static_cast<T::Container const&>(inst(findByName(u, v.first->name)));
                CHECK(ct.getElementCount(v.second) == 0, "a container is not empty after clear or zero");
            }
            T::destroy(a.p, ops);
        }
    });
}
static void history(Ctx& c)
{
    Universe u(opts()); MT t = u.top(c);
    Budget b0(60); MVal v0 = value(c, *t, b0);
    caseInfo(c, t, v0);
    // operations are recorded with all they need, so that they can be replayed
    struct Step { int op; uint64_t a, b; MVal v; uint64_t seed; };
    std::vector<Step> steps; size_t n = 1 + c.size(14);
    for (size_t k = 0; k < n; ++k)
    {
        Step s; s.op = c.weighted({4, 3, 3, 2, 2, 2}); s.a = c.draw(2); s.b = c.draw(64); s.seed = c.draw(1u << 30);
        if (s.op == 1) { Budget b(60); s.v = value(c, *t, b); }
        NOTE(c, "step " << s.op << " on " << s.a << " pick " << s.b << " element seed " << s.seed << "\n");
        steps.push_back(s);
    }
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    for (auto const& x : u.pool) inst(x);
    no_leak("lifecycle history", [&]() {
        std::unique_ptr<Native> s[2]; MVal m[2];
        s[0].reset(new Native(t, v0, 4)); m[0] = v0;
        s[1].reset(new Native(t)); T::init(s[1]->v(type)); s[1]->live = true; m[1] = checkInit(*t, s[1]->p);
        for (size_t k = 0; k < steps.size(); ++k)
        {
            Step const& st = steps[k]; int i = st.a, j = 1 - i;
            switch (st.op)
            {
                case 0: {   // push an element into one of the containers
                    std::vector<Cont> cs; containers(*t, m[i], s[i]->p, cs);
                    if (cs.empty()) break;
                    Cont& k = cs[st.b % cs.size()];
                    T::Container const& ct = static_cast<T::Container const&>(inst(findByName(u, k.t->name)));
                    Ctx ec(st.seed); Budget b(10); MVal e = value(ec, *k.t->elem, b, 3);
                    MT et = findByName(u, k.t->elem->name);
                    Native en(et, e, 6);
                    ct.push(k.p, en.v(inst(et)));
                    if (k.t->k == STRING) k.v->bytes += (char)e.bits; else k.v->kids.push_back(e);
                    break;
                }
                case 1: T::load(s[i]->v(type), encode(*t, st.v).bytes); m[i] = st.v; break;
                case 2: T::copy(s[i]->v(type), s[j]->v(type)); m[i] = m[j]; break;
                case 3: T::zero(s[i]->v(type)); m[i] = zeroValue(*t); break;
                case 4: s[i]->live = false; T::destroy(s[i]->v(type)); memset(s[i]->p, st.b, t->size); T::init(s[i]->v(type)); s[i]->live = true; m[i] = checkInit(*t, s[i]->p); break;
                case 5: {
                    std::vector<Cont> cs; containers(*t, m[i], s[i]->p, cs);
                    if (cs.empty()) break;
                    Cont& k = cs[st.b % cs.size()];
                    T::Container const& ct = static_cast<T::Container const&>(inst(findByName(u, k.t->name)));
                    ct.clear(k.p); *k.v = MVal(); break;
                }
            }
            for (int q = 0; q < 2; ++q)
            {
                MVal got = s[q]->get();
                CHECK(got == m[q], "after step " << k << " (" << st.op << "), value " << q << " is " << str(*t, got) << " instead of " << str(*t, m[q]));
            }
        }
        for (int q = 0; q < 2; ++q) { s[q]->live = false; T::destroy(s[q]->v(type)); }
    });
}
Property pbt::the_property = { "C06",
    "random types, raw byte patterns and values; init, zero, destroy through each entry point; the same with pointers, opaques and vectors of them; histories of push, clear, load, copy, zero, destroy+init on two values; non-trivial: at least 3 leaves",
    { {"init_destroy", initDestroy, 120000, 2000000}, {"zero", zeroes, 80000, 2000000}, {"destroy", destroyAny, 60000, 1000000}, {"history", history, 40000, 1000000}, {"unlaid", unlaid, 30000, 500000} }, registerContainers };
