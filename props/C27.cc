// C27: the standard C and C++ types.
#include "regpair.hh"
#include <lang/csupport/standard_types.hh>
#include <type_traits>
#include <memory>

struct Std { size_t size; int cat; };   // category: 0 signed, 1 unsigned, 2 float, 3 null, 4 string
template<class X> static Std of() { Std s = {sizeof(X), std::is_floating_point<X>::value ? 2 : std::is_signed<X>::value ? 0 : 1}; return s; }
// the types by their specifiers, in order of the alphabet
static std::map<std::string, Std> const& compiler()
{
    static std::map<std::string, Std> m;
    if (!m.empty()) return m;
    auto put = [](std::vector<std::string> const& specs, Std s) { for (auto const& x : specs) { std::istringstream in(x); std::vector<std::string> w; std::string t; while (in >> t) w.push_back(t); std::sort(w.begin(), w.end()); t.clear(); for (auto const& y : w) t += (t.empty() ? "" : " ") + y; m[t] = s; } };
    put({"char"}, of<char>()); put({"signed char"}, of<signed char>()); put({"unsigned char"}, of<unsigned char>()); put({"wchar_t"}, of<wchar_t>()); put({"bool"}, of<bool>());
    put({"short", "short int", "signed short", "signed short int"}, of<short>()); put({"unsigned short", "unsigned short int"}, of<unsigned short>());
    put({"int", "signed", "signed int"}, of<int>()); put({"unsigned", "unsigned int"}, of<unsigned>());
    put({"long", "long int", "signed long", "signed long int"}, of<long>()); put({"unsigned long", "unsigned long int"}, of<unsigned long>());
    put({"long long", "long long int", "signed long long", "signed long long int"}, of<long long>()); put({"unsigned long long", "unsigned long long int"}, of<unsigned long long>());
    put({"float"}, of<float>()); put({"double"}, of<double>()); put({"long double"}, of<long double>());
    put({"int8_t"}, of<int8_t>()); put({"uint8_t"}, of<uint8_t>()); put({"int16_t"}, of<int16_t>()); put({"uint16_t"}, of<uint16_t>()); put({"int32_t"}, of<int32_t>()); put({"uint32_t"}, of<uint32_t>()); put({"int64_t"}, of<int64_t>()); put({"uint64_t"}, of<uint64_t>());
    return m;
}
static std::string canonical(std::string n) { std::istringstream in(n.substr(1)); std::vector<std::string> w; std::string t; while (in >> t) w.push_back(t); std::sort(w.begin(), w.end()); t.clear(); for (auto const& y : w) t += (t.empty() ? "" : " ") + y; return t; }
// the names that must be there whatever else is
static std::vector<std::string> const& required()
{
    static std::vector<std::string> r = {"/nil", "/void", "/bool", "/float", "/double", "/char", "/signed char", "/unsigned char", "/wchar_t", "/std/string",
        "/int8_t", "/int16_t", "/int32_t", "/int64_t", "/uint8_t", "/uint16_t", "/uint32_t", "/uint64_t",
        "/short", "/short int", "/signed short", "/short signed", "/signed short int", "/short signed int", "/unsigned short", "/short unsigned", "/unsigned short int", "/short unsigned int",
        "/int", "/signed", "/signed int", "/unsigned", "/unsigned int",
        "/long", "/long int", "/signed long", "/long signed", "/signed long int", "/long signed int", "/unsigned long", "/long unsigned", "/unsigned long int", "/long unsigned int",
        "/long long", "/long long int", "/signed long long", "/long long signed", "/signed long long int", "/long long signed int", "/unsigned long long", "/long long unsigned", "/unsigned long long int", "/long long unsigned int",
        "/signed int short", "/int signed short", "/short int unsigned", "/int short unsigned", "/int signed", "/int unsigned", "/signed int long", "/int signed long", "/long int unsigned", "/int long unsigned", "/signed long int long", "/signed int long long", "/int signed long long", "/long signed long int", "/long long int signed", "/long signed long", "/long int long", "/int long long", "/unsigned long int long", "/unsigned int long long", "/int unsigned long long", "/long unsigned long int", "/long long int unsigned", "/long unsigned long"};
    return r;
}
static void right(T::Registry const& r, std::string const& n)
{
    T::Type const* t = r.get(n); CHECK(t, n << " is not defined");
    if (n == "/nil" || n == "/void") { CHECK(t->getCategory() == T::Type::NullType, n << " is not the null type"); return; }
    if (n == "/std/string") { CHECK(t->getCategory() == T::Type::Container && t->getSize() == sizeof(std::string) && static_cast<T::Container const*>(t)->getIndirection().getName() == r.get("/int8_t")->getName(), n << " is not a string"); return; }
    auto it = compiler().find(canonical(n)); if (it == compiler().end()) return;
    CHECK(t->getCategory() == T::Type::Numeric, n << " is not a number"); T::Numeric const& num = static_cast<T::Numeric const&>(*t);
    CHECK(num.getSize() == it->second.size, n << " has size " << num.getSize() << " instead of " << it->second.size);
    CHECK(num.getNumericCategory() == (it->second.cat == 0 ? T::Numeric::SInt : it->second.cat == 1 ? T::Numeric::UInt : T::Numeric::Float), n << " is of category " << num.getNumericCategory());
}
static T::Registry const& reference() { static std::unique_ptr<T::Registry> r; if (!r) { r.reset(new T::Registry); T::CXX::addStandardTypes(*r); } return *r; }
// any order of the words of a specifier
static void names(Ctx& c)
{
    T::Registry fresh; T::CXX::addStandardTypes(fresh);
    auto it = compiler().begin(); std::advance(it, c.draw(compiler().size()));
    std::istringstream in(it->first); std::vector<std::string> w; std::string t; while (in >> t) w.push_back(t);
    for (size_t i = 0; i + 1 < w.size(); ++i) std::swap(w[i], w[i + c.draw(w.size() - i)]);
    std::string n; for (auto const& x : w) n += (n.empty() ? "/" : " ") + x; NOTE(c, n << "\n");
    if (fresh.has(n)) { right(fresh, n); c.nontrivial(); c.label("known"); } else c.label("spelling not known");
    for (auto const& x : required()) right(fresh, x);
    for (T::RegistryIterator i = fresh.begin(); i != fresh.end(); ++i)
    {
        std::string s = i.getName(); right(fresh, s); CHECK(s == "/nil" || s == "/void" || s == "/std/string" || compiler().count(canonical(s)), s << " is not a standard type");
        CHECK(i.isPersistent() || i.isAlias() || true, ""); CHECK(i.getSource() == "", s << " has a source");
        // two names of one type of the compiler are one type
        for (auto const& x : required()) if (canonical(x) == canonical(s)) CHECK(fresh.get(x) == &*i, x << " and " << s << " are two types");
    }
    // the types read and written by name through derived ones
    std::string d = n + (c.flip() ? "[3]" : "*"); if (fresh.has(n)) CHECK(fresh.build(d) && static_cast<T::Indirect const*>(fresh.get(d))->getIndirection().getName() == fresh.get(n)->getName(), d << " is not built");
}
static void completed(Ctx& c)
{
    T::Registry r; std::vector<std::string> all; for (T::RegistryIterator i = reference().begin(); i != reference().end(); ++i) all.push_back(i.getName());
    std::set<std::string> changed; size_t n = c.size(12);
    for (size_t k = 0; k < n; ++k)
    {
        std::string name = c.flip(1, 4) ? "/own" + std::to_string(k) : c.pick(all); if (r.has(name, false)) continue;
        int how = c.weighted({6, 1, 1, 1, 2});
        T::Type const& ref = *reference().get(reference().has(name) ? name : "/int32_t");
        if (name == "/std/string") { if (!r.has("/int8_t")) continue; T::Container::createContainer(r, name, *r.get("/int8_t")); NOTE(c, "string\n"); continue; }
        switch (how)
        {
            case 0: NOTE(c, name << " as a type of its own\n"); if (ref.getCategory() == T::Type::NullType) r.add(new T::NullType(name)); else if (T::Numeric const* x = dynamic_cast<T::Numeric const*>(&ref)) r.add(new T::Numeric(name, x->getSize(), x->getNumericCategory()), "src"); break;
            case 1: NOTE(c, name << " as another number\n"); r.add(new T::Numeric(name, 2, T::Numeric::Float)); break;
            case 2: NOTE(c, name << " as a compound\n"); { T::Compound* x = new T::Compound(name); x->setSize(12); r.add(x, c.flip(), "other"); } break;
            case 3: NOTE(c, name << " as an enum\n"); r.add(new T::Enum(name)); break;
            default: { if (r.size() == 0) break; T::RegistryIterator b = r.begin(); std::advance(b, c.draw(r.size())); NOTE(c, name << " as alias of " << b.getName() << "\n"); r.alias(b->getName(), name); }
        }
    }
    std::map<std::string, std::string> before = lines(r); std::map<std::string, T::Type const*> ids; for (T::RegistryIterator it = r.begin(); it != r.end(); ++it) ids[it.getName()] = &*it;
    std::string snap;
    for (int round = 0; round < 2; ++round)
    {
        T::CXX::addStandardTypes(r);
        for (auto const& x : before) { CHECK(ids[x.first] == r.get(x.first), x.first << " was replaced"); CHECK(lines(r)[x.first] == x.second, x.first << " changed into\n" << lines(r)[x.first]); }
        for (auto const& x : all)
        {
            CHECK(r.has(x, false), x << " is missing"); if (before.count(x)) continue;
            T::Type const& want = *reference().get(x); T::Type const* got = r.get(x);
            // a name that was missing is what it refers to here
            if (want.getName() == x) { CHECK(got->getName() == x, x << " is an alias"); if (x != "/std/string") { CHECK(got->isSame(want), x << " is another type"); right(r, x); } else CHECK(got->getCategory() == T::Type::Container, "string"); }
            else CHECK(got == r.get(want.getName()), x << " refers to " << got->getName() << " instead of " << want.getName());
        }
        CHECK(r.size() == before.size() + std::count_if(all.begin(), all.end(), [&](std::string const& x) { return !before.count(x); }), "types were added that are not standard");
        if (round == 0) snap = snapshot(r); else CHECK(snapshot(r) == snap, "adding them twice changes something");
    }
    if (before.size() > 1) c.nontrivial();
}
static void noLeak(Ctx& c)
{
    std::vector<uint64_t> rec; { completed(c); rec = c.rec; }
    no_leak("adding the standard types", [&] { Ctx again(rec); completed(again); });
}
Property pbt::the_property = { "C27",
    "every standard name in any order of its words, against sizeof and the signedness given by the compiler; registries that hold some of the names already, as the same types, other types, or aliases, completed twice. Non-trivial: a known spelling; at least two names held before",
    { {"names", names, 1500, 40000}, {"completed", completed, 1500, 40000}, {"leaks", noLeak, 200, 4000} }, registerContainers };
