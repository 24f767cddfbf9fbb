// C10: typed navigation reaches exactly the declared storage.
#include "ptrs.hh"
#include <limits>
#include <boost/mpl/if.hpp>
#include <boost/mpl/bool.hpp>
#include <typelib/value_cast.hh>

static Opts all() { Opts o; o.pointers = true; o.opaques = true; o.zero_dims = true; return o; }
// ---------------------------------------------------------------- fields
static void fields(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); MVal v = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); inst(t);
    Native n(t, v); Pointees pt(c); pt.fill(*t, n.p);
    MT cur = t; uint8_t* p = n.p; bool byptr = c.flip();
    for (int step = 0; step < 6; ++step)
    {
        T::Type const& type = inst(cur);
        T::Value val(p, type);
        static char const* bad[] = {"", "zz", "A", "a.b", ".a", "[0]", "aa"};
        std::vector<std::string> names(bad, bad + 7);
        if (cur->k != COMPOUND || cur->fields.size() < 5) names.push_back("e");
        for (auto const& b : names)
        {
            bool threw = false;
            try { byptr ? T::value_get_field(p, type, b) : T::value_get_field(val, b); }
            catch(T::FieldNotFound const& e) { threw = true; CHECK(e.name == b, "FieldNotFound names '" << e.name << "' instead of '" << b << "'"); }
            CHECK(threw, "a field '" << b << "' was found in " << str(cur));
            if (cur->k == COMPOUND) CHECK(!static_cast<T::Compound const&>(type).getField(b), "getField(" << b << ")");
        }
        if (cur->k != COMPOUND)
        {
            // no fields here, whatever is inside
            for (char ch = 'a'; ch < 'f'; ++ch)
            {
                bool threw = false;
                try { T::value_get_field(val, std::string(1, ch)); } catch(T::FieldNotFound const&) { threw = true; }
                CHECK(threw, "a field '" << ch << "' was found in " << str(cur) << ", which is no compound");
            }
            if (cur->k == ARRAY && cur->dim) { size_t i = c.draw(cur->dim); p += i * cur->elem->size; cur = cur->elem; continue; }
            if (cur->k == POINTER) { memcpy(&p, p, 8); cur = cur->elem; continue; }
            return;
        }
        T::Compound const& co = static_cast<T::Compound const&>(type);
        for (auto const& f : cur->fields)
        {
            T::Value fv = byptr ? T::value_get_field(p, type, f.name) : T::value_get_field(val, f.name);
            CHECK(fv.getData() == p + f.off, "field " << f.name << " found at offset " << ((uint8_t*)fv.getData() - p) << " instead of " << f.off);
            CHECK(&fv.getType() == &inst(f.type), "field " << f.name << " found with type " << fv.getType().getName());
            // two values are the same one when both the place and the type are
            T::Value same(p + f.off, inst(f.type)), shifted(p + f.off + 1, inst(f.type)), other(p + f.off, type);
            bool differ = &inst(f.type) != &type;
            CHECK(fv == same && !(fv != same), "the field " << f.name << " is not the value that is there");
            CHECK(fv != shifted && !(fv == shifted), "the field " << f.name << " is also the value one byte further");
            CHECK((fv != other) == differ && (fv == other) != differ, "the field " << f.name << " is its compound's value");
            T::Field const* fd = co.getField(f.name);
            CHECK(fd && fd->getName() == f.name && fd->getOffset() == f.off && &fd->getType() == &inst(f.type), "getField(" << f.name << ")");
        }
        if (cur->fields.empty()) return;
        MField const& f = cur->fields[c.draw(cur->fields.size())];
        p += f.off; cur = f.type; c.count("fields", 1);
    }
}
// ---------------------------------------------------------------- casts
template<typename C> void castTo(MType const& t, uint8_t* p, T::Type const& type, Kind k, char const* name)
{
    bool expect = t.k == k && t.size == sizeof(C), ok = false; C got = C();
    try { got = T::value_cast<C>(T::Value(p, type)); ok = true; } catch(T::BadValueCast const&) {}
    CHECK(ok == expect, "casting a " << str(t) << " to " << name << (ok ? " succeeds" : " fails"));
    if (ok) CHECK(!memcmp(&got, p, sizeof(C)), "casting " << str(t) << " to " << name << " gives another value");
    bool ok2 = false;
    try { got = T::value_cast<C>((void*)p, type); ok2 = true; } catch(T::BadValueCast const&) {}
    CHECK(ok2 == expect && (!ok2 || !memcmp(&got, p, sizeof(C))), "casting through a pointer differs for " << name);
}
static void casts(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); MVal v = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); inst(t);
    Native n(t, v); Pointees pt(c);
    std::vector<std::pair<MType const*, uint8_t*> > todo(1, std::make_pair(t.get(), n.p));
    if (c.flip()) pt.fill(*t, n.p); else c.label("wild pointers");   // casting must not follow them
    std::map<std::string, MT> named; for (auto const& m : reachable(t)) named[m->name] = m;
    for (size_t i = 0; i < todo.size() && i < 40; ++i)
    {
        MType const& m = *todo[i].first; uint8_t* p = todo[i].second;
        T::Type const& ty = inst(named.at(m.name));
        castTo<int8_t>(m, p, ty, SINT, "int8_t"); castTo<uint8_t>(m, p, ty, UINT, "uint8_t");
        castTo<int16_t>(m, p, ty, SINT, "int16_t"); castTo<uint16_t>(m, p, ty, UINT, "uint16_t");
        castTo<int32_t>(m, p, ty, SINT, "int32_t"); castTo<uint32_t>(m, p, ty, UINT, "uint32_t");
        castTo<int64_t>(m, p, ty, SINT, "int64_t"); castTo<uint64_t>(m, p, ty, UINT, "uint64_t");
        castTo<char>(m, p, ty, SINT, "char"); castTo<unsigned long>(m, p, ty, UINT, "unsigned long"); castTo<long long>(m, p, ty, SINT, "long long");
        castTo<float>(m, p, ty, FLOAT, "float"); castTo<double>(m, p, ty, FLOAT, "double");
        c.label(m.isNumeric() ? "numeric" : "not a numeric");
        if (m.k == ARRAY && m.dim) todo.push_back(std::make_pair(m.elem.get(), p + c.draw(m.dim) * m.elem->size));
        for (auto const& f : m.fields) todo.push_back(std::make_pair(f.type.get(), p + f.off));
    }
}
// ---------------------------------------------------------------- visits
struct Event
{
    char what; uint8_t const* p; std::string name;
    bool operator==(Event const& o) const { return what == o.what && p == o.p && name == o.name; }
};
static std::ostream& operator<<(std::ostream& o, Event const& e) { return o << e.what << ":" << e.name << "@" << (void*)e.p; }
struct Recorder : T::ValueVisitor
{
    std::vector<Event> got; std::map<std::string, T::Type const*> const& types; long stop; bool wrong;
    Recorder(std::map<std::string, T::Type const*> const& types, long stop) : T::ValueVisitor(c_defval), types(types), stop(stop), wrong(false) {}
    static const bool c_defval = true;
    bool add(char w, void const* p, std::string const& n) { Event e = {w, (uint8_t const*)p, n}; got.push_back(e); return (long)got.size() != stop; }
    bool check(T::Value const& v, T::Type const& t) { if (&v.getType() != &t) wrong = true; auto it = types.find(t.getName()); if (it == types.end() || it->second != &t) wrong = true; return true; }
    using T::ValueVisitor::visit_;
    bool visit_(int8_t& v) { return add('n', &v, "s1"); }
    bool visit_(uint8_t& v) { return add('n', &v, "u1"); }
    bool visit_(int16_t& v) { return add('n', &v, "s2"); }
    bool visit_(uint16_t& v) { return add('n', &v, "u2"); }
    bool visit_(int32_t& v) { return add('n', &v, "s4"); }
    bool visit_(uint32_t& v) { return add('n', &v, "u4"); }
    bool visit_(int64_t& v) { return add('n', &v, "s8"); }
    bool visit_(uint64_t& v) { return add('n', &v, "u8"); }
    bool visit_(float& v) { return add('n', &v, "f4"); }
    bool visit_(double& v) { return add('n', &v, "f8"); }
    bool visit_(T::Enum::integral_type& v, T::Enum const& e) { return add('e', &v, e.getName()); }
    bool visit_(T::Value const& v, T::OpaqueType const& t) { check(v, t); return add('o', v.getData(), t.getName()); }
    bool visit_(T::Value const& v, T::Pointer const& t) { check(v, t); return add('p', v.getData(), t.getName()) && T::ValueVisitor::visit_(v, t); }
    bool visit_(T::Value const& v, T::Array const& t) { check(v, t); return add('a', v.getData(), t.getName()) && T::ValueVisitor::visit_(v, t); }
    bool visit_(T::Value const& v, T::Container const& t) { check(v, t); return add('c', v.getData(), t.getName()) && T::ValueVisitor::visit_(v, t); }
    bool visit_(T::Value const& v, T::Compound const& t) { check(v, t); return add('s', v.getData(), t.getName()) && T::ValueVisitor::visit_(v, t); }
    bool visit_(T::Value const& v, T::Compound const& t, T::Field const& f)
    { check(v, f.getType()); return add('f', v.getData(), t.getName() + "." + f.getName()) && T::ValueVisitor::visit_(v, t, f); }
};
// expected events; container element each event is in (0: none), and where each of these ends
static std::vector<size_t> elem_end;
static void expect(MType const& t, uint8_t* p, int depth, std::vector<Event>& out, std::vector<int>& in)
{
    auto element = [&](MType const& et, uint8_t* ep) { int id = elem_end.size(); elem_end.push_back(0); expect(et, ep, id, out, in); elem_end[id] = out.size(); };
    if (out.size() > 20000) return;
    Event e = {0, p, t.name};
    auto put = [&](char w) { e.what = w; out.push_back(e); in.push_back(depth); };
    switch (t.k)
    {
        case SINT: case UINT: case FLOAT: e.name = std::string(1, t.k == SINT ? 's' : t.k == UINT ? 'u' : 'f') + std::to_string(t.size); put('n'); break;
        case ENUM: put('e'); break;
        case OPAQUE: put('o'); break;
        case POINTER: { put('p'); uint8_t* to; memcpy(&to, p, 8); expect(*t.elem, to, depth, out, in); break; }
        case ARRAY: put('a'); for (size_t i = 0; i < t.dim; ++i) expect(*t.elem, p + i * t.elem->size, depth, out, in); break;
        case VECTOR: { put('c'); Bytes* b = (Bytes*)p; for (size_t i = 0; i + t.elem->size <= b->size(); i += t.elem->size) element(*t.elem, b->data() + i); break; }
        case STRING: { put('c'); std::string* s = (std::string*)p; for (size_t i = 0; i < s->size(); ++i) element(*t.elem, (uint8_t*)&(*s)[i]); break; }
        case COMPOUND:
            put('s');
            for (auto const& f : t.fields) { Event fe = {'f', p + f.off, t.name + "." + f.name}; out.push_back(fe); in.push_back(depth); expect(*f.type, p + f.off, depth, out, in); }
            break;
        default: break;
    }
}
static void visits(Ctx& c)
{
    Universe u(all()); MT t = u.top(c); MVal v = value(c, t);
    caseInfo(c, t, v);
    T::Registry r; Inst inst(r); T::Type const& type = inst(t);
    Native n(t, v); Pointees pt(c); pt.fill(*t, n.p);
    std::vector<Event> want; std::vector<int> in; elem_end.assign(1, 0); expect(*t, n.p, 0, want, in);
    if (want.size() >= 20000) { c.label("too big"); return; }
    std::map<std::string, T::Type const*> types;
    for (auto const& m : reachable(t)) types[m->name] = &inst(m);
    bool wants_stop = c.flip(1, 2); long stop = 0;
    if (wants_stop) { stop = 1 + c.draw(want.size()); NOTE(c, "stop at event " << stop << "\n"); c.label(in[stop - 1] ? "stopped in a container" : "stopped"); }
    Recorder rec(types, stop);
    rec.apply(T::Value(n.p, type));
    CHECK(!rec.wrong, "a callback received a value of another type, or a type that is not the declared one");
    bool known = stop && in[stop - 1] && rec.got.size() != (size_t)stop;
    // finding: a stop inside of a container only ends the visit of the element
    if (known) want.erase(want.begin() + stop, want.begin() + elem_end[in[stop - 1]]);
    else if (stop) want.resize(stop);
    for (size_t i = 0; i < want.size() && i < rec.got.size(); ++i)
        CHECK(want[i] == rec.got[i], "event " << i << " is " << rec.got[i] << ", expected " << want[i]);
    CHECK(want.size() == rec.got.size(), rec.got.size() << " events instead of " << want.size() << (stop ? ", although the visitor asked to stop" : ""));
    if (known && want.size() > (size_t)stop) throw Known{"visit-stop-container"};
    if (want.size() >= 3) c.nontrivial();
}
Property pbt::the_property = { "C10",
    "random types and values (pointers to real values, opaques, containers, zero-length arrays), lookups of every declared and of undeclared field names along a random path, casts of every part to 13 C types, and visits compared event by event (callback, address, type) with the declaration, some of them stopped at a random event; non-trivial: at least 3 leaves or events",
    { {"fields", fields, 60000, 1500000}, {"casts", casts, 40000, 1000000}, {"visits", visits, 80000, 2000000} }, registerContainers };
