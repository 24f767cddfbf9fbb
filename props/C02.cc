// C02: the marshalled form is the documented one (independent encoder).
#include "valcheck.hh"

static void format(Ctx& c)
{
    Opts o; o.zero_dims = true;
    Universe u(o); MT t = u.top(c);
    MVal v = value(c, t);
    uint32_t pad = c.draw(4);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Native a(t, v, pad);
    Bytes d = T::dump(a.v(type));
    Enc e = encode(*t, v); std::string why;
    CHECK(matches(e, d, why), "marshalled form: " << why << "\n got      " << hex(d) << "\n expected " << hex(e.bytes));
    // loading the reference bytes (padding bytes arbitrary) gives the value
    Bytes ref = e.bytes;
    uint8_t fill = c.draw(256);
    for (size_t i = 0; i < ref.size(); ++i) if (!e.mask[i]) ref[i] = fill;
    Native b(t, zeroValue(*t), 5);
    T::load(b.v(type), ref);
    MVal got = b.get();
    CHECK(got == v, "reference bytes load as " << str(*t, got));
    // with the trailing padding of the outer type present as well
    size_t tp = trailingPadding(*t);
    if (tp)
    {
        ref.insert(ref.end(), tp, fill);
        Native b2(t, zeroValue(*t), 5);
        T::load(b2.v(type), ref);
        CHECK(b2.get() == v, "reference bytes with trailing padding load another value");
    }
    // flat types: marshalled form is a prefix of memory
    if (!t->hasContainer())
    {
        c.label("flat");
        CHECK(d.size() <= t->size && (d.empty() || !memcmp(d.data(), a.p, d.size())), "flat value is not marshalled as its memory");
    }
}

static void sameBytesFromCopies(Ctx& c)
{
    Universe u; MT t = u.top(c);
    MVal v = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    T::Registry r2; T::Type const* t2;
    if (c.flip()) { r2.merge(r); t2 = r2.get(t->name); }
    else { Inst i2(r2); for (size_t i = u.pool.size(); i-- > 0;) if (c.flip()) i2(u.pool[i]); t2 = &i2(t); }
    CHECK(t2 && t2 != &type, "no copy");
    Native a(t, v, 9);
    Bytes d1 = T::dump(a.v(type)), d2 = T::dump(a.v(*t2));
    CHECK(d1 == d2, "the same type built another way marshals as " << hex(d2) << " instead of " << hex(d1));
}

static void refusal(Ctx& c)
{
    Opts o; o.pointers = c.flip(3, 4); o.opaques = !o.pointers || c.flip();
    Universe u(o); MT t = u.top(c);
    Budget b(60);
    MVal v = value(c, *t, b);
    NOTE(c, "type " << str(t) << "\n");
    bool bad = t->hasPointer() || t->hasOpaque();
    // keep elements of containers out: a container of unmarshallable elements
    // cannot hold any
    if (bad) c.nontrivial();
    c.label(bad ? "unmarshallable" : "marshallable");
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Native a(t, v, 1);
    int what = c.draw(6);
    bool thrown = false; Bytes out;
    try {
        switch (what)
        {
            case 0: T::dump(a.v(type), out); break;
            case 1: T::getDumpSize(a.v(type)); break;
            case 2: T::layout_of(type); break;
            case 3: { std::ostringstream s; T::dump(a.v(type), s); break; }
            case 4: { Bytes x(64); T::load(a.v(type), x); break; }
            default: { uint8_t x[64]; T::dump(a.v(type), x, 64); break; }
        }
    }
    catch (T::NoLayout&) { thrown = true; }
    catch (std::exception& e) { CHECK(!bad || false, "refused with another error: " << e.what()); CHECK(what == 4, "refused: " << e.what()); return; }
    CHECK(thrown == bad, (bad ? "a type holding a pointer or opaque is accepted" : "a marshallable type is refused") << ", operation " << what);
    CHECK(!bad || out.empty(), "bytes were written before the refusal");
    if (bad) CHECK(a.get() == v, "the value changed");
}
Property pbt::the_property = { "C02",
    "random type graphs and values (zero-length arrays included), compared with an encoder written from the format description; types with pointers/opaques for the refusal rule; non-trivial: at least 3 leaves, or an unmarshallable type",
    { {"format", format, 200000, 4000000}, {"same_bytes_from_copies", sameBytesFromCopies, 60000, 1000000}, {"refusal", refusal, 60000, 1000000} }, registerContainers };
