// A small property-based testing engine in the style of Hypothesis.
//
// A case is the sequence of integer choices its generators consumed. The same sequence replayed gives the same case,
// and shrinking works on the sequence alone (shorter first, then smaller numbers), so any generator shrinks for free.
// Cases run in forked workers: a crash, a sanitizer report, an assertion failure, or running past the CPU limit in
// the code under test is a failure of the case that was running, like an oracle's own complaint is.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

// What a case has chosen so far, where another process can read it after this one died: a count, then the choices.
inline uint64_t* g_tape = nullptr;
constexpr uint64_t k_tape = 1 << 16;

struct Discard {};
struct Failure : std::runtime_error { using std::runtime_error::runtime_error; };

class Src {
public:
    Src(uint64_t seed) : state_(seed), random_(true) {}
    Src(std::vector<uint64_t> choices) : replay_(std::move(choices)), random_(false) {}
    // A number in [0, n). 0 is the simplest choice.
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v;
        if (random_) v = next() % n;
        else v = pos_ < replay_.size() ? replay_[pos_] % n : 0;
        ++pos_;
        rec_.push_back(v);
        if (g_tape && rec_.size() < k_tape) { g_tape[rec_.size()] = v; *g_tape = rec_.size(); }
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    // A size: usually below n, now and then far larger.
    uint64_t upto(uint64_t n) { return chance(1, 40) ? below(n * 12) : below(n); }
    // True with probability num/den; false is the simplest.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v.at(below(v.size())); }
    // An index chosen with the given weights; index 0 is the simplest.
    size_t weighted(const std::vector<unsigned>& w) {
        unsigned t = 0; for (auto x : w) t += x;
        uint64_t r = below(t);
        for (size_t i = 0; i < w.size(); ++i) { if (r < w[i]) return i; r -= w[i]; }
        return 0;
    }
    template<class T> void shuffle(std::vector<T>& v) { for (size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + below(v.size() - i)]); }
    const std::vector<uint64_t>& recorded() const { return rec_; }
private:
    uint64_t next() { // splitmix64
        uint64_t z = (state_ += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    std::vector<uint64_t> replay_, rec_;
    size_t pos_ = 0;
    uint64_t state_ = 0;
    bool random_;
};

// What a property learns and says about the case it is running.
class Case {
public:
    std::ostringstream desc;                 // the decoded input, for people
    void label(const std::string& l) { labels_.insert(l); }
    void label_if(bool c, const std::string& l) { if (c) label(l); }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    [[noreturn]] void discard() { throw Discard{}; }
    [[noreturn]] void fail(const std::string& m) { throw Failure(m); }
    void check(bool ok, const std::string& m) { if (!ok) fail(m); }
    template<class F, std::enable_if_t<std::is_invocable_v<F>, int> = 0> void check(bool ok, F&& f) { if (!ok) fail(f()); }
    template<class A, class B> void eq(const A& a, const B& b, const std::string& what) {
        if (!(a == b)) { std::ostringstream s; s << what << ": got " << a << ", expected " << b; fail(s.str()); }
    }
    // A known finding, seen in this case: id names the entry of known_findings.json it matches.
    void known(const std::string& id) { known_.insert(id); }
    const std::set<std::string>& labels() const { return labels_; }
    const std::set<std::string>& knowns() const { return known_; }
    bool is_nontrivial() const { return nontrivial_; }
private:
    std::set<std::string> labels_, known_;
    bool nontrivial_ = false;
};

// One executable statement of (a part of) a property.
struct Facet {
    std::string name;
    std::function<void(Src&, Case&)> run;
    uint64_t quick_cases, thorough_cases;
    unsigned cpu_limit_s = 60;      // CPU time after which one case counts as not terminating
};

int main_(int argc, char** argv, const std::string& property, const std::string& rule, std::vector<Facet> facets);

// Runs f, and returns the text of what it threw (nothing if it did not throw). Only std::exception is expected.
template<class F> std::optional<std::string> thrown(F&& f) {
    try { f(); return std::nullopt; }
    catch (const Failure&) { throw; }
    catch (const std::exception& e) { return std::string(e.what()); }
}
template<class T> std::string str(const T& t) { std::ostringstream s; s << t; return s.str(); }
template<class C> std::string list(const C& c, const char* sep = ",") {
    std::ostringstream s; bool first = true;
    for (const auto& x : c) { if (!first) s << sep; s << x; first = false; }
    return s.str();
}
}
#define PBT_MAIN(property, rule, ...) \
    int main(int argc, char** argv) { return pbt::main_(argc, argv, property, rule, __VA_ARGS__); }
