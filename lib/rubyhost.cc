// Runs properties written in Ruby inside the engine: the interpreter is
// embedded, started once before the workers are forked, and each facet is a
// method of the Ruby file. Compiled once per property with -DRUBY_PROPERTY.
#include "pbt.hh"
#include <ruby.h>
#include <ruby/debug.h>
#include <fstream>
#include <iostream>
using namespace pbt;
extern "C" int pbt_large_allocations() { return 1; }
static Ctx* g_ctx = 0;
static VALUE mPBT = Qnil;
static char const* g_facet = 0;

static uint64_t num(VALUE v) { return NUM2ULL(v); }
static VALUE r_draw(VALUE, VALUE n) { uint64_t k = num(n); return ULL2NUM(g_ctx->draw(k)); }
static VALUE r_draw64(VALUE) { return ULL2NUM(g_ctx->draw64()); }
static VALUE r_size(VALUE, VALUE n) { uint64_t k = num(n); return ULL2NUM(g_ctx->size(k)); }
static VALUE r_label(VALUE, VALUE l) { std::string s(RSTRING_PTR(l), RSTRING_LEN(l)); g_ctx->label(s); return Qnil; }
static VALUE r_nontrivial(VALUE) { g_ctx->nontrivial(); return Qnil; }
static VALUE r_verbose(VALUE) { return g_ctx->verbose ? Qtrue : Qfalse; }
static VALUE r_note(VALUE, VALUE l) { if (g_ctx->verbose) { std::string s(RSTRING_PTR(l), RSTRING_LEN(l)); g_ctx->addNote(s + "\n"); } return Qnil; }
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static VALUE r_bytes(VALUE) { return ULL2NUM(__sanitizer_get_current_allocated_bytes()); }
static VALUE r_blocks(VALUE) { return LL2NUM(live_blocks()); }

static std::string text(VALUE v) { v = rb_obj_as_string(v); return std::string(RSTRING_PTR(v), RSTRING_LEN(v)); }
static VALUE call_facet(VALUE) { return rb_funcall(mPBT, rb_intern("run_facet"), 1, rb_str_new_cstr(g_facet)); }
static VALUE describe(VALUE err) { return rb_funcall(mPBT, rb_intern("describe"), 1, err); }
static void run(std::string const& name, Ctx& c)
{
    g_ctx = &c; g_facet = name.c_str();
    int state = 0;
    VALUE r = rb_protect(call_facet, Qnil, &state);
    std::string msg;
    if (state)
    {
        VALUE err = rb_errinfo(); rb_set_errinfo(Qnil);
        int st2 = 0; VALUE d = rb_protect(describe, err, &st2);
        if (st2) { rb_set_errinfo(Qnil); throw Fail{"a Ruby exception that cannot be described"}; }
        msg = text(d);
    }
    else if (RB_TYPE_P(r, T_STRING)) throw Known{text(r)};
    if (state) throw Fail{msg};
}
static VALUE load_all(VALUE)
{
    rb_eval_string("$VERBOSE = nil");
    char const* b = getenv("PBT_BUILD"); std::string B = b ? b : "/verif/build", V = RUBY_VERIF;
    for (auto d : { V + "/ruby", V + "/ruby/shim", B + "/src/bindings/ruby/lib", B + "/rbext" })
        rb_ary_unshift(rb_gv_get("$LOAD_PATH"), rb_str_new_cstr(d.c_str()));
    rb_require("pbt");
    rb_funcall(rb_mKernel, rb_intern("load"), 1, rb_str_new_cstr((V + "/props/" RUBY_PROPERTY ".rb").c_str()));
    return Qnil;
}
static bool g_failed = false; static std::string g_why;
static void preload(void* stack)
{
    static char name[] = "harness", e0[] = "-W0", e1[] = "-e", e2[] = ";";
    static char* argv[] = { name, e0, e1, e2, 0 };
    int argc = 4; char** pargv = argv;
    ruby_sysinit(&argc, &pargv);
    ruby_init_stack((VALUE*)stack);
    if (ruby_setup()) { g_failed = true; g_why = "cannot start Ruby"; return; }
    void* node = ruby_options(argc, pargv); int st = 0;
    if (!ruby_executable_node(node, &st)) { g_failed = true; g_why = "cannot start Ruby"; return; }
    ruby_exec_node(node);
    mPBT = rb_define_module("PBT");
    rb_define_module_function(mPBT, "draw", RUBY_METHOD_FUNC(r_draw), 1);
    rb_define_module_function(mPBT, "draw64", RUBY_METHOD_FUNC(r_draw64), 0);
    rb_define_module_function(mPBT, "size", RUBY_METHOD_FUNC(r_size), 1);
    rb_define_module_function(mPBT, "label_", RUBY_METHOD_FUNC(r_label), 1);
    rb_define_module_function(mPBT, "nontrivial", RUBY_METHOD_FUNC(r_nontrivial), 0);
    rb_define_module_function(mPBT, "verbose?", RUBY_METHOD_FUNC(r_verbose), 0);
    rb_define_module_function(mPBT, "note_", RUBY_METHOD_FUNC(r_note), 1);
    rb_define_module_function(mPBT, "live_bytes", RUBY_METHOD_FUNC(r_bytes), 0);
    rb_define_module_function(mPBT, "live_blocks", RUBY_METHOD_FUNC(r_blocks), 0);
    int state = 0; rb_protect(load_all, Qnil, &state);
    if (state) { VALUE err = rb_errinfo(); rb_set_errinfo(Qnil); g_failed = true; g_why = text(err) + " " + text(rb_funcall(rb_funcall(err, rb_intern("backtrace"), 0), rb_intern("first"), 1, INT2FIX(6))); }
}
static void setup()
{
    // an extension or library that cannot be loaded is reported by the engine
    if (g_failed) { std::cerr << g_why << std::endl; _exit(3); }
}
// the interpreter has threads of its own, which it starts again in its children
static VALUE call_fork(VALUE) { return rb_funcall(rb_mKernel, rb_intern("fork"), 0); }
static pid_t ruby_fork()
{
    if (g_failed) return fork();
    int state = 0; VALUE r = rb_protect(call_fork, Qnil, &state);
    if (state) { rb_set_errinfo(Qnil); return -1; }
    return NIL_P(r) ? 0 : NUM2INT(r);
}
static Property make()
{
    // facets and rule are declared in comments: "# facet: name quick thorough", "# rule: ..."
    Property p; p.id = RUBY_PROPERTY; p.setup = setup; p.preload = preload; p.fork = ruby_fork;
    std::ifstream i(RUBY_VERIF "/props/" RUBY_PROPERTY ".rb"); std::string l;
    while (std::getline(i, l))
    {
        if (l.compare(0, 8, "# facet:") == 0) { std::istringstream s(l.substr(8)); Facet f; s >> f.name >> f.quick >> f.thorough; std::string n = f.name; f.fn = [n](Ctx& c) { run(n, c); }; p.facets.push_back(f); }
        if (l.compare(0, 8, "# rule: ") == 0) p.rule += (p.rule.empty() ? "" : " ") + l.substr(8);
    }
    return p;
}
Property pbt::the_property = make();
