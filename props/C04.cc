// C04: copy makes a deep, independent, equal value.
#include "valcheck.hh"

static void doCopy(int form, T::Value dst, T::Value src, T::MemoryLayout const& ops)
{
    switch (form)
    {
        case 0: T::copy(dst, src); break;
        case 1: T::copy(dst.getData(), src.getData(), dst.getType()); break;
        default: T::copy(dst.getData(), src.getData(), ops);
    }
}

static void copyOnce(Ctx& c)
{
    Opts o; o.zero_dims = true;
    Universe u(o); MT t = u.top(c);
    MVal v = value(c, t), w = value(c, t), m = v;
    bool mutated = mutateOne(c, *t, m);
    int form = c.draw(3); uint32_t p1 = c.draw(4), p2 = c.draw(4);
    caseInfo(c, t, v);
    NOTE(c, "previous contents " << str(*t, w) << "\nform " << form << "\n");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::MemoryLayout ops = T::layout_of(type);
    no_leak("copy", [&]() {
        Native b(t, w, p2);
        {
            Native a(t, v, p1);
            Bytes raw(a.p, a.p + t->size);
            doCopy(form, b.v(type), a.v(type), ops);
            MVal got = b.get();
            CHECK(got == v, "copied " << str(*t, got) << " instead of " << str(*t, v));
            CHECK(a.get() == v, "the source changed to " << str(*t, a.get()));
            CHECK(!memcmp(a.p, raw.data(), t->size), "the source's memory changed");
            if (mutated)
            {
                // change the source in place and look at the copy, then the converse
                Native x(t, m, p1);
                doCopy(form, a.v(type), x.v(type), ops);
                CHECK(a.get() == m, "second copy gives " << str(*t, a.get()));
                CHECK(b.get() == v, "changing the source changed the copy to " << str(*t, b.get()));
            }
        }
        // the source is gone (and its memory poisoned)
        MVal got = b.get();
        CHECK(got == v, "destroying the source changed the copy to " << str(*t, got));
    });
}

static void history(Ctx& c)
{
    Universe u; MT t = u.top(c);
    std::vector<MVal> start; for (int i = 0; i < 3; ++i) { Budget b(60); start.push_back(value(c, *t, b)); }
    caseInfo(c, t, start[0]);
    struct Step { int op, i, j, form; MVal v; };
    std::vector<Step> steps;
    size_t n = 1 + c.size(14);
    std::vector<MVal> mod = start;
    for (size_t k = 0; k < n; ++k)
    {
        Step s; s.op = c.weighted({5, 2, 2, 1, 1}); s.i = c.draw(3); s.j = c.draw(3); s.form = c.draw(3);
        if (s.op == 1) { s.v = mod[s.i]; mutateOne(c, *t, s.v); }
        if (s.op == 2) { Budget b(60); s.v = value(c, *t, b); }
        switch (s.op) { case 0: mod[s.i] = mod[s.j]; break; case 1: case 2: mod[s.i] = s.v; break; default: mod[s.i] = zeroValue(*t); }
        NOTE(c, "step op " << s.op << " " << s.i << " <- " << s.j << " form " << s.form << "\n");
        steps.push_back(s);
    }
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::MemoryLayout ops = T::layout_of(type);
    bool enums = false; for (auto const& x : reachable(t)) enums |= x->k == ENUM;
    no_leak("history of copies", [&]() {
        std::vector<std::unique_ptr<Native>> s; std::vector<MVal> m = start;
        for (auto const& v : start) s.push_back(std::unique_ptr<Native>(new Native(t, v, 9)));
        for (size_t k = 0; k < steps.size(); ++k)
        {
            Step const& st = steps[k];
            switch (st.op)
            {
                case 0: doCopy(st.form, s[st.i]->v(type), s[st.j]->v(type), ops); m[st.i] = m[st.j]; break;
                case 1: case 2: s[st.i].reset(new Native(t, st.v, k + 2)); m[st.i] = st.v; break;
                case 3: T::zero(s[st.i]->v(type)); m[st.i] = zeroValue(*t); break;
                case 4:
                    if (enums) { s[st.i].reset(new Native(t, zeroValue(*t), 4)); }
                    else { T::destroy(s[st.i]->v(type)); memset(s[st.i]->p, 0, t->size); T::init(s[st.i]->v(type)); }
                    m[st.i] = zeroValue(*t);
                    break;
            }
            for (int i = 0; i < 3; ++i)
            {
                MVal got = s[i]->get();
                CHECK(got == m[i], "after step " << k << ", value " << i << " is " << str(*t, got) << " instead of " << str(*t, m[i]));
            }
        }
    });
}

static void refusal(Ctx& c)
{
    Universe u; MT t = u.top(c); MVal v = value(c, t), w = value(c, t);
    std::string what; MT t2 = derive(c, t, what);
    // another object, even an identical one, is another type
    caseInfo(c, t, v); c.label(what);
    T::Registry r, r2; Inst i1(r), i2(r2); T::Type const& ty = i1(t); T::Type const& ty2 = i2(t2);
    bool cast = castModel(*t, *t2);
    Native a(t, v, 1), b(t2, zeroValue(*t2), 1);
    bool thrown = false;
    try { T::copy(b.v(ty2), a.v(ty)); } catch (std::exception&) { thrown = true; }
    if (!cast) CHECK(thrown, "a copy between incompatible types (" << what << ") is accepted");
    CHECK(a.get() == v, "the source changed");
    if (thrown) CHECK(b.get() == zeroValue(*t2), "the destination changed although the copy was refused");
}
Property pbt::the_property = { "C04",
    "random types and pairs of values (all shapes and container lengths), copies through the three entry points, sequences of copies, mutations, zeroing, destruction over three values, and copies between differing types; non-trivial: at least 3 leaves",
    { {"copy_once", copyOnce, 180000, 4000000}, {"history", history, 40000, 1000000}, {"refusal", refusal, 40000, 1000000} }, registerContainers };
