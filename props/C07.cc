// C07: containers against a plain sequence.
#include "valcheck.hh"

struct Bits { uint64_t h; };
static uint64_t hashVal(MType const& t, MVal const& v)
{
    uint64_t h = v.bits * 0x9E3779B97F4A7C15ull + v.bytes.size() + 1;
    for (unsigned char ch : v.bytes) h = h * 31 + ch;
    for (size_t i = 0; i < v.kids.size(); ++i) h = h * 1000003 + hashVal(t.k == COMPOUND ? *t.fields[i].type : *t.elem, v.kids[i]);
    return h ^ (h >> 29);
}
struct Pred {
    MType const* et; uint64_t mod, rem; std::vector<std::string>* log; void* lo;
    bool operator()(T::Value const& v) const { MVal m = readback(*et, (uint8_t const*)v.getData()); if (log) log->push_back(str(*et, m)); return hashVal(*et, m) % mod == rem; }
};
// collects the elements presented to a visitor
struct Seen : T::ValueVisitor {
    std::vector<T::Value> vals;
    struct Stop {};
    virtual void dispatch(T::Value v) { vals.push_back(v); }
};
static MVal elemAsVal(MType const& t, size_t i, MVal const& v) { if (t.k == STRING) { MVal e; e.bits = (uint8_t)v.bytes[i]; return e; } return v.kids[i]; }
static size_t count(MType const& t, MVal const& v) { return t.k == STRING ? v.bytes.size() : v.kids.size(); }

static MT elemType(Ctx& c, Universe& u)
{
    while (true)
    {
        MT e = u.any(c, 2);
        if (e->size && e->size <= 200 && !(e->k == COMPOUND && e->fields.empty())) return e;
        if (c.flip()) return u.numeric(SINT, 4);
    }
}
enum { PUSH, SET, GET, ERASE, ERASE_OTHER, DELETE_IF, CLEAR, COPY, DUMPLOAD, NATIVE, PUSH_OWN, SET_OWN, WRONG, REINIT, COMPARE, VISIT, SWAP_NATIVE, NOPS };
static char const* opname[] = {"push", "set", "get", "erase", "erase random", "delete_if", "clear", "copy", "dump/load", "native change", "push own element", "set own element", "wrong type", "destroy+init", "compare", "visit", "native swap"};

static void history(Ctx& c)
{
    Opts o; o.zero_dims = false; Universe u(o);
    MT t = c.flip(1, 5) ? u.stringType() : u.vectorType(elemType(c, u));
    MT et = t->elem;
    std::vector<MVal> start; for (int i = 0; i < 2; ++i) { Budget b(40); start.push_back(value(c, *t, b)); }
    caseInfo(c, t, start[0]);
    c.label(t->k == STRING ? "string" : et->hasContainer() ? "vector of containers" : et->k == COMPOUND ? "vector of compounds" : "vector of plain data");
    struct Step { int op, i; uint64_t a, b; uint64_t seed; };
    std::vector<Step> steps; size_t n = 1 + c.size(24);
    for (size_t k = 0; k < n; ++k)
    {
        Step s; s.op = c.weighted({6, 3, 2, 4, 2, 3, 1, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1}); s.i = c.draw(2); s.a = c.draw(64); s.b = c.draw(64); s.seed = c.draw(1u << 30);
        NOTE(c, "step " << opname[s.op] << " on " << s.i << " a=" << s.a << " b=" << s.b << " seed=" << s.seed << "\n");
        steps.push_back(s);
    }
    if (steps.size() >= 3) c.nontrivial();
    T::Registry r; Inst inst(r); T::Type const& type = inst(t); T::Type const& etype = inst(et);
    T::Container const& ct = static_cast<T::Container const&>(type);
    // a second, identical but distinct, element type
    T::Registry r2; Inst inst2(r2); T::Type const& etype2 = inst2(et);
    no_leak("history of container operations", [&]() {
        std::unique_ptr<Native> s[2]; MVal m[2];
        for (int i = 0; i < 2; ++i) { s[i].reset(new Native(t, start[i], 8)); m[i] = start[i]; }
        for (size_t k = 0; k < steps.size(); ++k)
        {
            Step const& st = steps[k]; int i = st.i, j = 1 - i; uint8_t* p = s[i]->p; MVal& mv = m[i];
            size_t cnt = count(*t, mv);
            Ctx ec(st.seed); Budget eb(20); MVal e = value(ec, *et, eb, 2);
            bool isstr = t->k == STRING;
            auto pushModel = [&](MVal const& x) { if (isstr) mv.bytes += (char)x.bits; else mv.kids.push_back(x); };
            auto eraseModel = [&](MVal const& x) {
                for (size_t q = 0; q < count(*t, mv); ++q) if (elemAsVal(*t, q, mv) == x) { if (isstr) mv.bytes.erase(q, 1); else mv.kids.erase(mv.kids.begin() + q); return true; }
                return false; };
            if (st.op == SET && !(ct.isRandomAccess() && cnt)) continue;
            switch (st.op)
            {
                case PUSH: { Native en(et, e, st.b + 2); ct.push(p, en.v(etype)); CHECK(en.get() == e, "push changed its argument"); pushModel(e); break; }
                case SET: { Native en(et, e, st.b + 2); ct.setElement(p, st.a % cnt, en.v(etype)); mv.kids[st.a % cnt] = e; break; }
                case GET:
                    if (!ct.isRandomAccess())
                    {
                        bool thrown = false; try { ct.getElement(p, 0); } catch (std::logic_error&) { thrown = true; }
                        CHECK(thrown, "getElement on a container without random access"); break;
                    }
                    for (size_t q = 0; q < cnt; ++q) {
                        T::Value v = ct.getElement(p, q);
                        CHECK(v.getType() == etype, "getElement gives another type");
                        MVal got = readback(*et, (uint8_t*)v.getData());
                        CHECK(got == mv.kids[q], "element " << q << " is " << str(*et, got) << " instead of " << str(*et, mv.kids[q]));
                    }
                    break;
                case ERASE: case ERASE_OTHER: {
                    MVal x = (st.op == ERASE && cnt) ? elemAsVal(*t, st.a % cnt, mv) : e;
                    Native en(et, x, st.b + 2);
                    bool res = ct.erase(p, en.v(etype)), want = eraseModel(x);
                    CHECK(res == want, "erase of " << str(*et, x) << " returns " << res);
                    CHECK(en.get() == x, "erase changed its argument");
                    break;
                }
                case DELETE_IF: {
                    uint64_t mod = 1 + st.a % 4, rem = st.b % mod;
                    std::vector<std::string> log, want; 
                    for (size_t q = 0; q < cnt; ++q) want.push_back(str(*et, elemAsVal(*t, q, mv)));
                    Pred pr = {et.get(), mod, rem, &log, 0};
                    ct.delete_if(p, pr);
                    CHECK(log == want, "the predicate was asked about " << log.size() << " elements, or in another order, instead of each of the " << cnt << " elements once");
                    MVal nm; for (size_t q = 0; q < cnt; ++q) { MVal x = elemAsVal(*t, q, mv); if (hashVal(*et, x) % mod != rem) { if (isstr) nm.bytes += mv.bytes[q]; else nm.kids.push_back(x); } }
                    mv = nm; break;
                }
                case CLEAR: ct.clear(p); mv = MVal(); break;
                case COPY:
                    if (st.a % 3 == 0) T::copy(s[i]->v(type), s[st.b % 2]->v(type)), m[i] = m[st.b % 2];
                    else ct.copy(p, s[j]->p), m[i] = m[j];
                    break;
                case DUMPLOAD: { Bytes d = T::dump(s[j]->v(type)); T::load(s[i]->v(type), d); m[i] = m[j]; break; }
                case NATIVE: {   // native code works on the same object
                    if (isstr) { std::string& x = *(std::string*)p; if (st.a % 2) x += "native"; else if (!x.empty()) x.erase(st.b % x.size(), 1); mv.bytes = x; }
                    else { Native fresh(t, mv, 3); if (st.a % 2 && cnt) mv.kids.pop_back(); else mv.kids.push_back(e); s[i].reset(new Native(t, mv, 5)); }
                    break;
                }
                case PUSH_OWN: {
                    if (!cnt || isstr) break;
                    size_t q = st.a % cnt; T::Value v = ct.getElement(p, q);
                    ct.push(p, v); { MVal x = mv.kids[q]; mv.kids.push_back(x); } break;
                }
                case SET_OWN: {
                    if (!cnt || isstr) break;
                    size_t q = st.a % cnt, w = st.b % cnt; ct.setElement(p, w, ct.getElement(p, q)); { MVal x = mv.kids[q]; mv.kids[w] = x; } break;
                }
                case WRONG: {
                    Native en(et, e, 2); int bad = 0;
                    try { ct.push(p, en.v(etype2)); } catch (std::exception&) { ++bad; }
                    try { ct.erase(p, en.v(etype2)); } catch (std::exception&) { ++bad; }
                    if (!isstr && cnt) try { ct.setElement(p, 0, en.v(etype2)); } catch (std::exception&) { ++bad; } else ++bad;
                    CHECK(bad == 3, "a value of another type is accepted as element");
                    break;
                }
                case REINIT: ct.destroy(p); memset(p, st.b, t->size); ct.init(p); mv = MVal(); break;
                case COMPARE: {
                    bool want = m[0] == m[1];
                    CHECK(ct.compare(s[0]->p, s[1]->p) == want && T::compare(s[1]->v(type), s[0]->v(type)) == want, "compare gives " << !want);
                    CHECK(ct.compare(p, p), "a container differs from itself"); break;
                }
                case VISIT: {
                    Seen sv; ct.visit(p, sv);
                    CHECK(sv.vals.size() == cnt, "visited " << sv.vals.size() << " elements of " << cnt);
                    for (size_t q = 0; q < cnt; ++q) CHECK(sv.vals[q].getType() == etype && readback(*et, (uint8_t*)sv.vals[q].getData()) == elemAsVal(*t, q, mv), "visit presents another element at " << q);
                    break;
                }
                case SWAP_NATIVE: if (isstr) ((std::string*)s[0]->p)->swap(*(std::string*)s[1]->p); else ((Bytes*)s[0]->p)->swap(*(Bytes*)s[1]->p); std::swap(m[0], m[1]); break;
            }
            for (int q = 0; q < 2; ++q)
            {
                CHECK(ct.getElementCount(s[q]->p) == count(*t, m[q]), "after step " << k << " (" << opname[st.op] << "), element count of container " << q << " is " << ct.getElementCount(s[q]->p));
                MVal got = s[q]->get();
                CHECK(got == m[q], "after step " << k << " (" << opname[st.op] << "), container " << q << " is " << str(*t, got) << " instead of " << str(*t, m[q]));
            }
        }
    });
}
Property pbt::the_property = { "C07",
    "random element types (numerics, enums, arrays, padded compounds, strings, nested vectors), random histories of up to 25 operations on two containers, native code working on the same objects; non-trivial: at least 3 steps",
    { {"history", history, 160000, 4000000} }, registerContainers };
