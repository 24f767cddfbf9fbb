// C23: the order in which exporters see the types.
#include "regpair.hh"
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <fstream>
#include <unistd.h>
#include <memory>

struct Recorder : T::Exporter
{
    std::vector<std::string> seen; int begun, ended; bool late; Ctx* c; T::Registry const* reg; std::string bad; int fail_at;
    Recorder(Ctx& c, T::Registry const& r) : begun(0), ended(0), late(false), c(&c), reg(&r), fail_at(-1) {}
    void begin(std::ostream& o, T::Registry const& r) { ++begun; if (!seen.empty() || ended || &r != reg) bad = "begin()"; o << "begin\n"; }
    void end(std::ostream& o, T::Registry const& r) { ++ended; if (!begun || &r != reg) bad = "end()"; o << "end\n"; }
    bool save(std::ostream& o, T::RegistryIterator const& it)
    {
        if (!begun || ended) bad = "type outside of begin() and end()";
        if ((int)seen.size() == fail_at) throw T::ExportError("as told");
        seen.push_back(it.getName()); if (reg->find(it.getName()) != it) bad = "iterator of " + it.getName();
        o << it.getName() << "\n"; return !c->flip(1, 4);
    }
    void save(std::ostream& o, utilmm::config_set const& s, T::Registry const& r) { Exporter::save(o, s, r); }
    using Exporter::save;
};
struct Scratch
{
    std::string d;
    Scratch() { char t[] = "/tmp/verif-c23-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); d = t; }
    ~Scratch() { unlink((d + "/out").c_str()); rmdir(d.c_str()); }
};

// a registry of types named so that their order says nothing about their dependencies, some not persistent
static void make(Ctx& c, T::Registry& r, std::vector<MT>& defs)
{
    Opts o; o.namespaces = true; o.pointers = c.flip(); o.opaques = true; o.recursive = c.flip(1, 3); o.max_depth = 3; Universe u(o); std::vector<std::string> names;
    u.namer = [](Ctx& c, char const* prefix, int n) { static char const* ns[] = {"/", "/a/", "/b/", "/a/c/", "/z/"}; std::string s = ns[c.draw(5)]; s += (char)('A' + c.draw(26)); return s + prefix + std::to_string(n); };
    size_t n = 1 + c.draw(3); for (size_t i = 0; i < n; ++i) u.top(c);
    defs = u.pool;
}
static void ordering(Ctx& c)
{
    std::vector<MT> defs; Reg g; make(c, g.r, defs);
    // the same through registries where other types are persistent: everything from a source, or not
    g.add(defs);
    size_t n = c.draw(5);
    for (size_t i = 0; i < n; ++i)
    {
        static char const* al[] = {"/aa", "/zz/b", "/a/A", "/ns/t", "/b/Z1"}; std::string b = g.anyName(c), a = al[c.draw(5)]; if (g.m.has(a)) continue;
        T::Type const& t = g.type(b);
        if (c.flip(1, 4)) g.r.alias(b, a, false, ""); else g.r.alias(b, a); g.m = RegModel(g.r); NOTE(c, "alias " << a << " of " << t.getName() << "\n");
    }
    // extra types that are not persistent, made of others
    n = c.draw(3);
    for (size_t i = 0; i < n; ++i)
    {
        std::string name = std::string("/") + (char)('A' + c.draw(26)) + "np" + std::to_string(i); if (g.m.has(name)) continue;
        T::Compound* t = new T::Compound(name); size_t off = 0; int k = 1 + c.draw(2);
        for (int j = 0; j < k; ++j) { T::Type const& f = g.type(g.anyName(c)); t->addField("f" + std::to_string(j), f, off); off += f.getSize(); }
        if (off == 0) { t->setSize(1); }
        bool p = c.flip(1, 2); g.r.add(t, p, ""); g.m = RegModel(g.r); NOTE(c, (p ? "" : "not persistent: ") << name << "\n");
    }
    if (c.verbose) NOTE(c, snapshot(g.r, false));
    std::string before = snapshot(g.r);
    // is there an order?
    std::set<T::Type const*> all, done; for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it) all.insert(&*it);
    for (bool more = true; more;) { more = false; for (auto t : all) if (!done.count(t)) { bool ok = true; for (auto d : RegModel::deps(*t)) ok = ok && done.count(d); if (ok) { done.insert(t); more = true; } } }
    bool ordered = done.size() == all.size();
    Recorder e(c, g.r); utilmm::config_set conf; std::ostringstream o; bool threw = false; std::string what;
    bool to_file = c.flip(1, 4); std::string path, text;
    int fail = c.flip(1, 12) ? (int)c.draw(6) : -1; e.fail_at = fail;
    std::unique_ptr<Scratch> scratch(to_file ? new Scratch : 0);
    try {
        if (to_file) { path = scratch->d + "/out"; { std::ofstream f(path.c_str()); f << std::string(20000, 'x'); } static_cast<T::Exporter&>(e).save(path, conf, g.r); std::ifstream f(path.c_str()); std::stringstream s; s << f.rdbuf(); text = s.str(); c.label("to a file"); }
        else { static_cast<T::Exporter&>(e).save(o, conf, g.r); text = o.str(); }
    } catch (T::ExportError const& x) { threw = true; what = x.what(); }
    for (auto const& s : e.seen) NOTE(c, "  " << s << "\n");
    CHECK(e.bad.empty(), e.bad << " is wrong");
    CHECK(snapshot(g.r) == before, "exporting changed the registry");
    size_t persistent = 0; for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it) persistent += it.isPersistent();
    std::map<std::string, size_t> at;
    for (size_t i = 0; i < e.seen.size(); ++i) { CHECK(!at.count(e.seen[i]), e.seen[i] << " was given twice"); at[e.seen[i]] = i; }
    // whatever was given comes after what it needs
    for (T::RegistryIterator it = g.r.begin(); it != g.r.end(); ++it)
    {
        if (!at.count(it.getName())) continue;
        CHECK(it.isPersistent(), it.getName() << " is not persistent");
        std::set<T::Type const*> need, stack; if (it.isAlias()) stack.insert(&*it); else { auto d = RegModel::deps(*it); stack.insert(d.begin(), d.end()); }
        while (!stack.empty())
        {
            T::Type const* t = *stack.begin(); stack.erase(stack.begin()); if (!need.insert(t).second) continue;
            if (g.r.find(t->getName()).isPersistent()) CHECK(at.count(t->getName()) && at[t->getName()] < at[it.getName()], it.getName() << " comes before " << t->getName());
            else { auto d = RegModel::deps(*t); stack.insert(d.begin(), d.end()); }
        }
    }
    if (threw && what == "as told") { CHECK(fail >= 0 && e.ended == 0, "end() after an error"); c.label("error in a type"); return; }
    CHECK(threw == !ordered, (threw ? "refused: " + what : std::string("not refused although the types are recursive")));
    CHECK(e.begun == 1 && e.ended == (threw ? 0 : 1), "begin() called " << e.begun << " times and end() " << e.ended << " times");
    if (threw) { c.label("refused"); c.nontrivial(); for (auto t : all) if (!done.count(t)) CHECK(what.find(t->getName()) != std::string::npos, t->getName() << " is not in the error: " << what); return; }
    CHECK(e.seen.size() == persistent, "only " << e.seen.size() << " of the " << persistent << " persistent types and aliases were given");
    std::string want = "begin\n"; for (auto const& s : e.seen) want += s + "\n";
    CHECK(text == want + "end\n", "the output is\n" << text);
    if (e.seen.size() > 2) c.nontrivial();
}
static void badFile(Ctx& c)
{
    std::vector<MT> defs; Reg g; make(c, g.r, defs); g.add(defs); Scratch s; Recorder e(c, g.r); utilmm::config_set conf; bool threw = false; std::string what;
    std::string p = s.d + (c.flip() ? "/none/out" : "/.");
    try { static_cast<T::Exporter&>(e).save(p, conf, g.r); } catch (std::runtime_error const& x) { threw = true; what = x.what(); }
    CHECK(threw && e.seen.empty() && !e.begun, "a file that cannot be written is not an error"); CHECK(what.find(p) != std::string::npos, "the error does not tell the file: " << what);
    // a disk without room
    if (access("/dev/full", W_OK) == 0)
    {
        Recorder e2(c, g.r); threw = false;
        try { static_cast<T::Exporter&>(e2).save(std::string("/dev/full"), conf, g.r); } catch (std::exception const&) { threw = true; }
        CHECK(threw || what == "as told", "no error although the device is full");
    }
    c.nontrivial();
}
Property pbt::the_property = { "C23",
    "registries of random universes (recursive or not) whose names say nothing about dependencies, with aliases and compounds that are not persistent, saved by a recording exporter which ignores types now and then, fails at some point or writes to a file. Non-trivial: more than two types given, or refused",
    { {"order", ordering, 40000, 1500000}, {"bad_file", badFile, 400, 4000} }, registerContainers };
