// A small property-based testing engine. A property is a function of a
// recorded sequence of choices; a case is one such sequence, shrinking edits
// the sequence, and a replay file is the shrunk sequence.
#ifndef PBT_HH
#define PBT_HH
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/types.h>
#include <vector>

namespace pbt {

struct Fail { std::string msg; };
// A genuine defect recorded in /verif/KNOWN_FINDINGS, met by this case.
struct Known { std::string key; };

class Ctx {
public:
    Ctx(uint64_t seed) : state(seed), pos(0), replay(0), is_replay(false), verbose(false), notefd(-1), nontriv(false), mirror(0), mirror_cap(0) {}
    Ctx(std::vector<uint64_t> const& r) : state(0), pos(0), replay(&r), is_replay(true), verbose(false), notefd(-1), nontriv(false), mirror(0), mirror_cap(0) {}

    /** A number in [0, n). 0 is the simplest. */
    uint64_t draw(uint64_t n);
    uint64_t draw64();
    /** true with probability num/den; false is the simplest. */
    bool flip(unsigned num = 1, unsigned den = 2) { return draw(den) >= den - num; }
    /** lo..hi inclusive, lo is the simplest. */
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw(hi - lo + 1); }
    /** index in the weights, index 0 is the simplest. */
    size_t weighted(std::initializer_list<unsigned> w);
    template<typename T> T const& pick(std::vector<T> const& v) { return v[draw(v.size())]; }
    /** A small size: mostly small, sometimes up to max. */
    size_t size(size_t max);

    void label(std::string const& l) { labels[l]++; }
    void count(std::string const& l, long n) { labels[l] += n; }
    void nontrivial() { nontriv = true; }

    std::vector<uint64_t> rec;
    std::map<std::string, long> labels;
    bool verbose;        // true when the rendering is wanted
    std::ostringstream note;
    int notefd;          // notes are also written here, to survive a crash
    void addNote(std::string const& s);
    bool nontriv;
    uint64_t* mirror; size_t mirror_cap;   // shared copy of the record
private:
    uint64_t state;
    size_t pos;
    std::vector<uint64_t> const* replay;
    bool is_replay;
};

struct Facet {
    std::string name;
    std::function<void(Ctx&)> fn;
    long quick, thorough;
};
struct Property {
    std::string id;
    std::string rule;      // how cases are made, what makes one non-trivial
    std::vector<Facet> facets;
    std::function<void()> setup;   // run once in each worker before any case
    std::function<void(void*)> preload;   // run once, before the workers are forked; gets an address in main's frame
    std::function<pid_t()> fork;   // how to fork, if not with fork()
};
extern Property the_property;

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define CHECK(cond, streamed) do { if (!(cond)) { std::ostringstream pbt_o_; pbt_o_ << streamed << "  [" #cond "]"; throw pbt::Fail{pbt_o_.str()}; } } while (0)
#define FAILCASE(streamed) do { std::ostringstream pbt_o_; pbt_o_ << streamed; throw pbt::Fail{pbt_o_.str()}; } while (0)
#define NOTE(c, streamed) do { if ((c).verbose) { std::ostringstream pbt_n_; pbt_n_ << streamed; (c).addNote(pbt_n_.str()); } } while (0)

/** Live blocks allocated by operator new */
long live_blocks();
/** Runs fn (which must be repeatable) and throws Fail if it leaves more live
 * blocks behind at every repetition. */
void no_leak(std::string const& what, std::function<void()> const& fn);

uint64_t hash64(void const* p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t hash64(std::string const& s) { return hash64(s.data(), s.size()); }
}
#endif
