// C26: plugin lookup and the life of the manager.
#include "regpair.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/plugins.hh>
#include <typelib/importer.hh>
#include <typelib/exporter.hh>
#include <typelib/utilmm/configset.hh>
#include <atomic>
#include <fstream>
#include <memory>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>

// ---- plugins that tell who they are and what happens to them
struct Log { int plugins, objects; std::vector<std::string> calls; std::vector<void const*> who; };
static Log L;
static utilmm::config_set const* last_config; static T::Registry const* last_registry; static std::ostream* last_out; static std::istream* last_in; static std::string last_path;
struct TExporter : T::Exporter
{
    int id; bool bad; TExporter(int id, bool bad) : id(id), bad(bad) { ++L.objects; } ~TExporter() { --L.objects; }
    void save(std::ostream& o, utilmm::config_set const& s, T::Registry const& r) { last_out = &o; last_config = &s; last_registry = &r; L.calls.push_back("save " + std::to_string(id)); if (bad) throw T::ExportError("bad"); o << "exporter " << id; }
    bool save(std::ostream&, T::RegistryIterator const&) { return false; }
};
struct TImporter : T::Importer
{
    int id; bool bad; TImporter(int id, bool bad) : id(id), bad(bad) { ++L.objects; } ~TImporter() { --L.objects; }
    void load(std::istream& i, utilmm::config_set const& s, T::Registry& r) { last_in = &i; last_config = &s; last_registry = &r; L.calls.push_back("load " + std::to_string(id)); r.add(new T::Numeric("/from" + std::to_string(id), 4, T::Numeric::SInt)); if (bad) throw T::ImportError("f", "bad"); }
    void load(std::string const& p, utilmm::config_set const& s, T::Registry& r) { last_path = p; last_config = &s; last_registry = &r; L.calls.push_back("file " + std::to_string(id)); r.add(new T::Numeric("/file" + std::to_string(id), 4, T::Numeric::SInt)); if (bad) throw T::ImportError("f", "bad"); }
};
struct XPlugin : T::ExportPlugin { int id; bool bad; XPlugin(std::string const& n, int id, bool bad) : T::ExportPlugin(n), id(id), bad(bad) { ++L.plugins; } ~XPlugin() { --L.plugins; } T::Exporter* create() { return new TExporter(id, bad); } };
struct IPlugin : T::ImportPlugin { int id; bool bad; IPlugin(std::string const& n, int id, bool bad) : T::ImportPlugin(n), id(id), bad(bad) { ++L.plugins; } ~IPlugin() { --L.plugins; } T::Importer* create() { return new TImporter(id, bad); } };
struct DPlugin : T::TypeDefinitionPlugin { int id; DPlugin(int id) : id(id) { ++L.plugins; } ~DPlugin() { --L.plugins; } void registerTypes(T::Registry& r) { last_registry = &r; L.calls.push_back("types " + std::to_string(id)); std::string n = "/plug" + std::to_string(id); if (!r.has(n)) r.add(new T::Numeric(n, 2, T::Numeric::UInt)); } };

struct Lang { int x, i; bool xbad, ibad; Lang() : x(-1), i(-1), xbad(false), ibad(false) {} };
static char const* LANGS[] = {"la", "lb", "", "tlb", "idl", "LA", "lab"};
static bool builtin(std::string const& n, bool importer) { return n == "tlb" || (!importer && n == "idl"); }
static void calls(std::vector<std::string> const& want, char const* what) { CHECK(L.calls == want, what << ": " << L.calls.size() << " calls" << (L.calls.empty() ? "" : ", the first is " + L.calls[0]) << ", instead of " << want.size() << (want.empty() ? "" : ", the first being " + want[0])); L.calls.clear(); }
static void lookups(Ctx& c)
{
    L = Log(); int next = 0;
    {
        std::unique_ptr<T::PluginManager::self> m(new T::PluginManager::self);
        std::map<std::string, Lang> model; std::vector<int> types; size_t n = 1 + c.size(30), used = 0;
        auto typeCalls = [&] { std::vector<std::string> v; for (int t : types) v.push_back("types " + std::to_string(t)); return v; };   // what each new registry begins with
        for (size_t k = 0; k < n; ++k)
        {
            std::string name = LANGS[c.draw(7)]; Lang& l = model[name]; bool bad = c.flip(1, 6); utilmm::config_set conf;
            switch (c.draw(9))
            {
                case 0: { int id = next++; NOTE(c, "add exporter " << id << " '" << name << "'" << (bad ? " failing\n" : "\n")); XPlugin* p = new XPlugin(name, id, bad); bool fresh = l.x < 0 && !builtin(name, false); bool got = (*m)->add(p); CHECK(got == fresh, "adding an exporter returns " << got); if (!got) delete p; else { l.x = id; l.xbad = bad; } break; }
                case 1: { int id = next++; NOTE(c, "add importer " << id << " '" << name << "'" << (bad ? " failing\n" : "\n")); IPlugin* p = new IPlugin(name, id, bad); bool fresh = l.i < 0 && !builtin(name, true); bool got = (*m)->add(p); CHECK(got == fresh, "adding an importer returns " << got); if (!got) delete p; else { l.i = id; l.ibad = bad; } break; }
                case 2: if (c.flip()) { int id = next++; NOTE(c, "add types " << id << "\n"); (*m)->add(new DPlugin(id)); types.push_back(id); }
                    else { NOTE(c, "register types\n"); T::Registry r; calls(typeCalls(), "new registry"); CHECK(r.size() == types.size(), "types of a new registry"); (*m)->registerPluginTypes(r); calls(typeCalls(), "registerPluginTypes"); CHECK(r.size() == types.size() && (types.empty() || last_registry == &r), "types of the plugins"); }
                    break;
                case 3: case 4: {
                    bool imp = c.flip(); NOTE(c, (imp ? "importer" : "exporter") << " '" << name << "'\n"); int want = imp ? l.i : l.x; bool known = want >= 0 || builtin(name, imp);
                    int before = L.objects; bool threw = false; std::string what;
                    try {
                        if (imp) { std::unique_ptr<T::Importer> a((*m)->importer(name)), b((*m)->importer(name)); CHECK(a && b && a.get() != b.get(), "not a fresh importer"); TImporter* t = dynamic_cast<TImporter*>(a.get()); CHECK((want >= 0) == !!t && (!t || t->id == want), "the importer of another plugin"); }
                        else { std::unique_ptr<T::Exporter> a((*m)->exporter(name)), b((*m)->exporter(name)); CHECK(a && b && a.get() != b.get(), "not a fresh exporter"); TExporter* t = dynamic_cast<TExporter*>(a.get()); CHECK((want >= 0) == !!t && (!t || t->id == want), "the exporter of another plugin"); }
                    } catch (T::PluginNotFound const& e) { threw = true; what = e.what(); }
                    CHECK(threw == !known, (threw ? "unknown: " : "known: ") << name); CHECK(!threw || what.find(name) != std::string::npos, "the error does not name the plugin");
                    CHECK(L.objects == before, "the manager kept or deleted what it gave"); calls({}, "lookup"); ++used; break; }
                case 5: case 6: {   // saving
                    if (builtin(name, false)) break;
                    T::Registry r; L.calls.clear(); int how = c.draw(4); std::ostringstream o; std::string text; bool threw = false, unknown = false; last_config = 0; NOTE(c, "save '" << name << "' " << how << "\n");
                    try { switch (how) { case 0: text = T::PluginManager::save(name, r); break; case 1: text = T::PluginManager::save(name, conf, r); break; case 2: T::PluginManager::save(name, r, o); text = o.str(); break; default: T::PluginManager::save(name, conf, r, o); text = o.str(); } }
                    catch (T::PluginNotFound const&) { unknown = true; } catch (T::ExportError const&) { threw = true; }
                    CHECK(unknown == (l.x < 0), "save() with '" << name << "'"); CHECK(L.objects == 0, "exporters are left behind");
                    if (unknown) { calls({}, "save"); break; }
                    calls({"save " + std::to_string(l.x)}, "save"); CHECK(threw == l.xbad, "errors of the exporter"); CHECK(last_registry == &r && ((how != 1 && how != 3) || last_config == &conf) && (how < 2 || last_out == &o), "the exporter got other arguments"); if (!threw) CHECK(text == "exporter " + std::to_string(l.x), "saved as " << text); ++used; break; }
                default: {   // loading
                    if (builtin(name, true)) break;
                    T::Registry into; L.calls.clear(); std::unique_ptr<T::Registry> made; int how = c.draw(8); bool file = how & 2, fresh = !(how & 1); std::vector<std::string> want; if (fresh) want = typeCalls(); bool threw = false, unknown = false; std::istringstream in("text"); std::string path = "/nonexistent/file"; last_path = ""; NOTE(c, "load '" << name << "' " << how << "\n");
                    try { switch (how)
                    {
                        case 0: made.reset(T::PluginManager::load(name, in)); break;
                        case 1: T::PluginManager::load(name, in, into); break;
                        case 2: made.reset(T::PluginManager::load(name, path)); break;
                        case 3: T::PluginManager::load(name, path, into); break;
                        case 4: made.reset(T::PluginManager::load(name, in, conf)); break;
                        case 5: T::PluginManager::load(name, in, conf, into); break;
                        case 6: made.reset(T::PluginManager::load(name, path, conf)); break;
                        default: T::PluginManager::load(name, path, conf, into);
                    } } catch (T::PluginNotFound const&) { unknown = true; } catch (T::ImportError const&) { threw = true; }
                    CHECK(unknown == (l.i < 0), "load() with '" << name << "'"); CHECK(L.objects == 0, "importers are left behind");
                    if (unknown) { calls(want, "load"); CHECK(into.size() == types.size(), "loaded something"); break; }
                    want.push_back((file ? "file " : "load ") + std::to_string(l.i)); calls(want, "load"); CHECK(threw == l.ibad, "errors of the importer");
                    CHECK((file ? last_path == path : last_in == &in) && (how < 4 || last_config == &conf) && (fresh || last_registry == &into), "the importer got other arguments");
                    if (!threw || !fresh) { T::Registry& r = fresh ? *made : into; CHECK(r.has((file ? "/file" : "/from") + std::to_string(l.i)) && r.size() == 1 + types.size(), "what was loaded is not in the registry"); }
                    ++used; }
            }
            if (c.flip(1, 8)) { T::PluginManager::self other; CHECK(&*other == &**m, "two managers"); if (c.flip()) m.reset(new T::PluginManager::self(other)); }
        }
        CHECK(L.plugins == (int)(types.size() + std::count_if(model.begin(), model.end(), [](std::pair<std::string const, Lang> const& x) { return x.second.x >= 0; }) + std::count_if(model.begin(), model.end(), [](std::pair<std::string const, Lang> const& x) { return x.second.i >= 0; })), "plugins were deleted while the manager is alive");
        if (used && next) c.nontrivial();
        if (c.verbose) NOTE(c, "release\n");
    }
    CHECK(L.plugins == 0, L.plugins << " plugins outlive the manager");
    // a new one knows nothing of them
    T::PluginManager::self m; bool known = true; try { std::unique_ptr<T::Exporter> e(m->exporter("la")); } catch (T::PluginNotFound const&) { known = false; } CHECK(!known, "a plugin outlives the manager");
    std::unique_ptr<T::Importer> t(m->importer("tlb")); CHECK(t.get(), "tlb");
}

// ---- singletons
template<int N> struct Single { static std::atomic<int> alive, made; int value; Single() : value(0) { ++alive; ++made; } ~Single() { --alive; } };
template<int N> std::atomic<int> Single<N>::alive; template<int N> std::atomic<int> Single<N>::made;
struct Nested { static int alive; utilmm::singleton::use<Single<0> > inner; Nested() { ++alive; inner->value += 100; } ~Nested() { inner->value -= 100; --alive; } };
int Nested::alive = 0;
struct Handle { virtual ~Handle() {} virtual Handle* copy() const = 0; virtual void const* where() const = 0; };
template<class X> struct HandleOf : Handle { utilmm::singleton::use<X> u; Handle* copy() const { return new HandleOf(*this); } void const* where() const { CHECK(&*u == &u.instance() && u.operator->() == &*u, "accesses differ"); return &*u; } };
static Handle* acquire(int k) { switch (k) { case 0: return new HandleOf<Single<0> >; case 1: return new HandleOf<Single<1> >; case 2: return new HandleOf<Nested>; default: return new HandleOf<T::PluginManager>; } }
static void lives(Ctx& c)
{
    std::vector<std::unique_ptr<Handle> > h[4]; void const* at[4] = {0, 0, 0, 0}; int n = 1 + c.size(40), recreated = 0; bool had[4] = {false, false, false, false};
    L = Log(); bool marked = false;
    for (int i = 0; i < n; ++i)
    {
        int k = c.weighted({3, 3, 3, 2}); size_t j = h[k].empty() ? 0 : c.draw(h[k].size());
        switch (h[k].empty() ? 0 : c.draw(4))
        {
            case 0: NOTE(c, "acquire " << k << "\n"); if (h[k].empty() && had[k]) ++recreated; h[k].emplace_back(acquire(k)); had[k] = true; break;
            case 1: NOTE(c, "copy " << k << "\n"); h[k].emplace_back(h[k][j]->copy()); break;
            default: NOTE(c, "release " << k << "\n"); h[k].erase(h[k].begin() + j);
        }
        bool zero = !h[0].empty() || !h[2].empty();
        CHECK(Single<0>::alive == (int)zero, Single<0>::alive << " instances with " << h[0].size() << " handles and " << h[2].size() << " through another");
        CHECK(Single<1>::alive == (int)!h[1].empty(), Single<1>::alive << " instances with " << h[1].size() << " handles");
        CHECK(Nested::alive == (int)!h[2].empty(), Nested::alive << " instances with " << h[2].size() << " handles");
        if (h[3].empty()) { CHECK(L.plugins == 0, "the manager outlives its handles"); marked = false; }
        for (int q = 0; q < 4; ++q)
        {
            bool first = true;
            for (auto const& x : h[q]) { void const* w = x->where(); if (first && !at[q]) at[q] = w; first = false; CHECK(w == at[q], "instance " << q << " has moved"); }
            if (h[q].empty() && !(q == 0 && zero)) at[q] = 0;
        }
        if (!h[0].empty()) CHECK(static_cast<Single<0> const*>(h[0][0]->where())->value == (h[2].empty() ? 0 : 100), "the state of the instance is lost");
        if (!h[3].empty() && !marked) { T::PluginManager::self m; m->add(new DPlugin(0)); marked = true; }
        if (marked) CHECK(L.plugins == 1, "the manager was deleted while it has handles");
    }
    for (auto& x : h) x.clear();
    CHECK(Single<0>::alive == 0 && Single<1>::alive == 0 && Nested::alive == 0 && L.plugins == 0, "instances outlive their handles");
    if (recreated) c.nontrivial();
}
static void threads(Ctx& c)
{
    int n = 2 + c.draw(4); std::vector<std::vector<int> > plan(n); for (auto& p : plan) { int k = 20 + c.draw(100); for (int i = 0; i < k; ++i) p.push_back(c.draw(6)); }
    std::atomic<int> wrong(0), ready(0); std::vector<std::thread> th;
    for (auto const& p : plan) th.emplace_back([&, p] {
        ++ready; while (ready < n) std::this_thread::yield();
        std::vector<std::unique_ptr<Handle> > h;
        for (int op : p)
        {
            if (op < 3) h.emplace_back(acquire(op < 2 ? op : 2)); else if (!h.empty()) { if (op == 3) h.emplace_back(h.back()->copy()); else h.erase(h.begin() + op % h.size()); }
            if (Single<1>::alive > 1 || Single<0>::alive > 1) ++wrong;
            std::set<void const*> w[2]; for (auto const& x : h) { if (dynamic_cast<HandleOf<Single<0> >*>(x.get())) w[0].insert(x->where()); else if (dynamic_cast<HandleOf<Single<1> >*>(x.get())) w[1].insert(x->where()); }
            if (w[0].size() > 1 || w[1].size() > 1) ++wrong;
        }
    });
    for (auto& t : th) t.join();
    NOTE(c, n << " threads\n"); CHECK(wrong == 0, "two instances at once"); CHECK(Single<0>::alive == 0 && Single<1>::alive == 0 && Nested::alive == 0, "instances outlive their handles in " << n << " threads"); c.nontrivial();
}

// ---- the directories of the plugins
static void paths(Ctx& c)
{
    char t[] = "/tmp/verif-c26-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); std::string d = t;
    mkdir((d + "/empty").c_str(), 0700); mkdir((d + "/junk").c_str(), 0700); { std::ofstream f((d + "/junk/broken.so").c_str()); f << "not a library"; } { std::ofstream f((d + "/junk/readme.txt").c_str()); f << "text"; }
    struct Clean { std::string d, old; ~Clean() { setenv("TYPELIB_PLUGIN_PATH", old.c_str(), 1); unlink((d + "/junk/broken.so").c_str()); unlink((d + "/junk/readme.txt").c_str()); rmdir((d + "/junk").c_str()); rmdir((d + "/empty").c_str()); rmdir(d.c_str()); } } clean = {d, getenv("TYPELIB_PLUGIN_PATH")};
    std::string good = clean.old, path; bool have = false; size_t n = c.draw(5);
    for (size_t i = 0; i < n; ++i) { if (i) path += ":"; switch (c.draw(5)) { case 0: path += good; have = true; break; case 1: path += d + "/empty"; break; case 2: path += d + "/none"; break; case 3: path += d + "/junk"; break; default: break; } }
    NOTE(c, "TYPELIB_PLUGIN_PATH is '" << path << "'\n");
    setenv("TYPELIB_PLUGIN_PATH", path.c_str(), 1);
    std::streambuf* err = std::cerr.rdbuf(); std::ostringstream noise; std::cerr.rdbuf(noise.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cerr.rdbuf(b); } } back = {err};
    T::PluginManager::self m;
    for (auto name : {"tlb", "idl"}) { bool found = true; try { std::unique_ptr<T::Exporter> e(m->exporter(name)); } catch (T::PluginNotFound const&) { found = false; } CHECK(found == have, "the exporter '" << name << "' is " << (found ? "" : "not ") << "found"); }
    bool found = true; try { std::unique_ptr<T::Importer> e(m->importer("tlb")); } catch (T::PluginNotFound const&) { found = false; } CHECK(found == have, "the importer is " << (found ? "" : "not ") << "found");
    if (n > 1) c.nontrivial();
}
// which files of a directory are loaded: those named as libraries, broken ones and others that are no plugins skipped
static void files(Ctx& c)
{
    char t[] = "/tmp/verif-c26-XXXXXX"; if (!mkdtemp(t)) throw std::runtime_error("mkdtemp"); std::string d = t;
    struct Clean { std::string d, old; std::set<std::string> f; ~Clean() { setenv("TYPELIB_PLUGIN_PATH", old.c_str(), 1); for (auto const& x : f) unlink((d + "/" + x).c_str()); for (auto x : {"/0", "/1", "/2"}) rmdir((d + x).c_str()); rmdir(d.c_str()); } } clean; clean.d = d; clean.old = getenv("TYPELIB_PLUGIN_PATH");
    static char const* names[] = {"a", "b", "typelib", ".hidden", "x.so", "zz.dylib", "libq.1"}; static char const* exts[] = {".so", ".dylib", ".so.1", ".txt", "", ".SO", ".so~", ".a"};
    static char const* what[] = {"libtypeLang_tlb.so", "libtypeLang_idl.so", "libtypeLang_csupport.so", "broken", "empty", "no plugin"};
    bool tlb = false, idl = false; std::string path, library = std::string(getenv("PBT_BUILD")) + "/libtypelib.so"; int dirs = 1 + c.draw(3), skipped = 0, taken = 0;
    for (int i = 0; i < dirs; ++i)
    {
        std::string sub = std::to_string(i); mkdir((d + "/" + sub).c_str(), 0700); path += (i ? ":" : "") + d + "/" + sub; size_t n = c.draw(5);
        for (size_t k = 0; k < n; ++k)
        {
            std::string ext = exts[c.weighted({6, 3, 1, 1, 1, 1, 1, 1})], f = sub + "/" + names[c.draw(7)] + ext; int w = c.draw(6);
            if (!clean.f.insert(f).second) continue;
            NOTE(c, f << ": " << what[w] << "\n");
            if (w == 3 || w == 4) { std::ofstream o((d + "/" + f).c_str()); if (w == 3) o << "not a library"; }
            else if (symlink((w == 5 ? library : clean.old + "/" + what[w]).c_str(), (d + "/" + f).c_str())) throw std::runtime_error("symlink");
            std::string last = f.substr(f.rfind('/') + 1); size_t dot = last.rfind('.'); std::string e = dot == std::string::npos || last == ".so" ? "" : last.substr(dot);
            bool lib = e == ".so" || e == ".dylib"; if (!lib || w > 2) { ++skipped; continue; }
            ++taken; tlb = tlb || w == 0; idl = idl || w == 1;
        }
    }
    setenv("TYPELIB_PLUGIN_PATH", path.c_str(), 1);
    std::streambuf* err = std::cerr.rdbuf(); std::ostringstream noise; std::cerr.rdbuf(noise.rdbuf()); struct Back { std::streambuf* b; ~Back() { std::cerr.rdbuf(b); } } back = {err};
    T::PluginManager::self m;
    auto has = [&](bool importer, char const* n) { try { if (importer) std::unique_ptr<T::Importer> x(m->importer(n)); else std::unique_ptr<T::Exporter> x(m->exporter(n)); } catch (T::PluginNotFound const&) { return false; } return true; };
    CHECK(has(false, "tlb") == tlb && has(true, "tlb") == tlb, "the plugin for tlb is " << (tlb ? "not " : "") << "loaded");
    CHECK(has(false, "idl") == idl, "the plugin for idl is " << (idl ? "not " : "") << "loaded");
    if (skipped && taken) c.nontrivial();
}
Property pbt::the_property = { "C26",
    "histories of plugin registrations under a few names, lookups, saves and loads through every overload, with failing plugins; histories of acquiring, copying and releasing handles of four singletons, one of which holds another; the same in two to five threads; plugin paths made of good, empty, missing and broken directories; directories of plugins, other libraries, broken files under names with and without a library's extension. Non-trivial: something registered and used; a singleton created again; more than one directory; something loaded and something skipped",
    { {"lookups", lookups, 80000, 2000000}, {"lives", lives, 80000, 2000000}, {"threads", threads, 6000, 200000}, {"paths", paths, 12000, 200000}, {"files", files, 12000, 200000} }, 0 };
