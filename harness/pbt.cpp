#include "pbt.hpp"
#include <nlohmann/json.hpp>
#include <algorithm>
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:handle_abort=1:hard_rss_limit_mb=3500:max_allocation_size_mb=2000:exitcode=98:detect_stack_use_after_return=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
namespace pbt {
using json = nlohmann::json;
using Clock = std::chrono::steady_clock;

static uint64_t mix(uint64_t a, uint64_t b) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint64_t hash_str(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }

struct Shared { // one per worker: what the parent can read after the worker died
    volatile uint64_t facet, index, done, in_case;
};

struct Outcome { bool failed = false; bool discarded = false; std::string message; std::vector<uint64_t> choices; };

static std::string g_scratch, g_desc_path;
static Case* g_live = nullptr;   // the case being run, so that its description survives a crash
static void on_death() {
    if (!g_live || g_desc_path.empty()) return;
    std::string d = g_live->desc.str();
    int fd = open(g_desc_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { (void)!write(fd, d.data(), d.size()); close(fd); }
}
static void arm_cpu_limit(unsigned s) {
    itimerval t{}; t.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void on_prof(int) {
    static const char m[] = "\nPBT: the case ran past its CPU limit (does not terminate)\n";
    (void)!write(2, m, sizeof m - 1);
    on_death();
    _exit(99);
}

static Outcome run_case(const Facet& f, Src& src, Case& c) {
    Outcome o;
    try { f.run(src, c); }
    catch (const Discard&) { o.discarded = true; }
    catch (const Failure& e) { o.failed = true; o.message = e.what(); }
    catch (const std::exception& e) { o.failed = true; o.message = std::string("unexpected exception: ") + e.what(); }
    catch (...) { o.failed = true; o.message = "unexpected exception of unknown type"; }
    o.choices = src.recorded();
    return o;
}

// Runs one choice sequence in a child; returns failure text or nothing, and the choices it really used and the description.
struct ChildResult { bool failed; std::string message, desc; std::vector<uint64_t> choices; std::set<std::string> known; };
static ChildResult run_in_child(const Facet& f, const std::vector<uint64_t>& choices, unsigned wall_s = 0) {
    static uint64_t* tape = static_cast<uint64_t*>(mmap(nullptr, k_tape * sizeof(uint64_t), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *tape = 0;
    std::string out = g_scratch + "/child.json", err = g_scratch + "/child.err";
    unlink(out.c_str());
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        signal(SIGPROF, on_prof); arm_cpu_limit(f.cpu_limit_s); if (wall_s) alarm(wall_s);
        g_tape = tape;
        Src s(choices); Case c;
        g_live = &c; g_desc_path = g_scratch + "/child.desc"; unlink(g_desc_path.c_str());
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
        Outcome o = run_case(f, s, c);
        json j{{"failed", o.failed}, {"message", o.message}, {"desc", c.desc.str()}, {"choices", o.choices}, {"known", c.knowns()}};
        std::ofstream(out) << j.dump(-1, ' ', false, json::error_handler_t::replace);
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    ChildResult r{false, "", "", choices, {}};
    if (wall_s && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) return r;
    std::ifstream in(out);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && in) {
        try {
            json j = json::parse(in);
            r.failed = j["failed"]; r.message = j["message"]; r.desc = j["desc"]; r.choices = j["choices"].get<std::vector<uint64_t>>();
            r.known = j["known"].get<std::set<std::string>>();
            return r;
        } catch (const std::exception&) {}
    }
    r.failed = true;
    if (*tape && *tape + 1 < k_tape) r.choices.assign(tape + 1, tape + 1 + *tape);
    { std::ifstream d(g_scratch + "/child.desc"); std::stringstream ds; ds << d.rdbuf(); r.desc = ds.str(); }
    std::ifstream ein(err); std::stringstream ss; ss << ein.rdbuf();
    std::string e = ss.str();
    std::string key;
    std::istringstream lines(e); std::string l; int n = 0;
    while (std::getline(lines, l)) if (l.find("runtime error") != std::string::npos || l.find("ERROR:") != std::string::npos ||
        l.find("Assertion") != std::string::npos || l.find("SUMMARY") != std::string::npos || l.find("PBT:") != std::string::npos ||
        l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos || (l.find("    #") == 0 && l.find("/src/") != std::string::npos && n < 8)) { key += l + "\n"; ++n; }
    r.message = "crash (" + std::string(WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ")\n" + (key.empty() ? e.substr(0, 1500) : key.substr(0, 3000));
    return r;
}

// Runs cases one after the other in one process, as a worker does: for failures that need what earlier cases left behind.
using History = std::vector<std::pair<size_t, uint64_t>>;   // facet, case number
static ChildResult run_history(const std::vector<Facet>& fs, uint64_t seed, const History& h, unsigned wall_s = 0) {
    Facet all{"history", [&](Src&, Case& c) {
        for (size_t i = 0; i < h.size(); ++i) {
            auto& f = fs[h[i].first];
            arm_cpu_limit(f.cpu_limit_s);
            Src s(mix(mix(seed, hash_str(f.name)), h[i].second)); Case one;
            if (i + 1 == h.size()) g_live = &one;
            Outcome o = run_case(f, s, one);
            g_live = &c;
            if (!o.failed) continue;
            c.desc << one.desc.str();
            c.fail(o.message + "\n(in a process that had run " + std::to_string(i) + " other cases before)");
        }
    }, 1, 1, 60};
    return run_in_child(all, {}, wall_s);
}

static ChildResult shrink(const Facet& f, ChildResult best, double budget_s) {
    auto t0 = Clock::now();
    auto left = [&] { return std::chrono::duration<double>(Clock::now() - t0).count() < budget_s; };
    auto smaller = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](std::vector<uint64_t> c) {
        if (!left()) return false;
        if (!smaller(c, best.choices)) return false;
        auto r = run_in_child(f, c);
        if (!r.failed) return false;
        if (r.choices.size() > c.size()) r.choices = c;
        if (!smaller(r.choices, best.choices)) r.choices = c;
        best = r; return true;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t k = std::max<size_t>(1, best.choices.size() / 2); k >= 1; k /= 2) {   // delete blocks, from the end
            for (size_t i = best.choices.size(); i-- > 0 && left();) {
                if (i + k > best.choices.size()) continue;
                auto c = best.choices; c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true;
                // delete and lower an earlier length by k
                else if (k <= 8) for (size_t j = i; j-- > (i > 6 ? i - 6 : 0) && left();) if (c[j] >= 1) {
                    auto d = c; d[j] -= 1; if (attempt(d)) { progress = true; break; }
                }
            }
        }
        for (size_t i = 0; i < best.choices.size() && left(); ++i) {                        // lower numbers
            if (best.choices[i] == 0) continue;
            auto c = best.choices; c[i] = 0;
            if (attempt(c)) { progress = true; continue; }
            uint64_t lo = 0, hi = best.choices[i];
            while (lo + 1 < hi && left()) {
                uint64_t m = lo + (hi - lo) / 2; c = best.choices; if (i >= c.size()) break; c[i] = m;
                if (attempt(c)) { progress = true; hi = m; } else lo = m;
            }
        }
    }
    return best;
}

#ifndef PBT_LIBFUZZER
int main_(int argc, char** argv, const std::string& property, const std::string& rule, std::vector<Facet> facets) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto get = [&](const char* k, const std::string& d) { auto it = a.find(k); return it == a.end() ? d : it->second; };
    uint64_t seed = std::stoull(get("--seed", "1"));
    bool thorough = get("--tier", "quick") == "thorough";
    unsigned jobs = std::stoul(get("--jobs", "8"));
    double budget = std::stod(get("--seconds", thorough ? "600" : "300"));
    double scale = std::stod(get("--scale", "1"));
    std::string only = get("--facet", "");
    std::string replay_dir = get("--replays", "/verif/replays");
    std::string out_file = get("--out", "");
    g_scratch = get("--scratch", "/tmp/pbt-" + std::to_string(getpid()));
    mkdir(g_scratch.c_str(), 0700);

    if (a.count("--replay")) {
        std::ifstream in(a["--replay"]); json j = json::parse(in);
        if (j.contains("history")) {
            History h;
            for (auto& e : j["history"]) for (size_t i = 0; i < facets.size(); ++i) if (facets[i].name == e[0].get<std::string>()) h.push_back({i, e[1].get<uint64_t>()});
            auto r = run_history(facets, j["seed"].get<uint64_t>(), h);
            std::cout << r.desc << "\n" << (r.failed ? "FAILED: " + r.message : "passed") << std::endl;
            return r.failed ? 1 : 0;
        }
        for (auto& f : facets) if (f.name == j["facet"].get<std::string>()) {
            auto r = run_in_child(f, j["choices"].get<std::vector<uint64_t>>());
            std::cout << r.desc << "\n" << (r.failed ? "FAILED: " + r.message : "passed") << std::endl;
            return r.failed ? 1 : 0;
        }
        std::cerr << "no such facet\n"; return 1;
    }
    if (a.count("--show")) { // print some generated cases, for people
        int n = std::stoi(a["--show"]);
        for (auto& f : facets) { if (!only.empty() && f.name != only) continue;
            for (int i = 0; i < n; ++i) { Src s(mix(mix(seed, hash_str(f.name)), i)); Case c; auto o = run_case(f, s, c);
            std::cout << "--- " << f.name << " " << i << (o.discarded ? " discarded" : "") << (o.failed ? " FAILED " + o.message : "") << (c.is_nontrivial() ? " nontrivial" : "") << " labels=" << list(c.labels()) << "\n" << c.desc.str() << "\n"; } }
        return 0;
    }

    std::vector<Facet> fs;
    for (auto& f : facets) if (only.empty() || only == f.name) fs.push_back(f);
    auto* shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto* stop = static_cast<volatile int*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *stop = 0;
    auto t0 = Clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(Clock::now() - t0).count(); };

    struct Found { size_t facet; uint64_t index; bool crash; };
    std::vector<Found> found;
    // Interleave the facets' cases so that a budget cut hits them all alike.
    auto total = [&](const Facet& f) { return static_cast<uint64_t>(std::max<double>(1, (thorough ? f.thorough_cases : f.quick_cases) * scale)); };
    // Proportional round robin: at each turn take the facet that is the least complete.
    struct Order {
        std::vector<uint64_t> at; uint64_t w;
        Order(uint64_t w) : w(w) {}
        std::optional<std::pair<size_t, uint64_t>> next(const std::vector<Facet>& fs, const std::function<uint64_t(const Facet&)>& total, unsigned jobs) {
            if (at.empty()) at.assign(fs.size(), w);
            size_t best = fs.size(); double bp = 2;
            for (size_t i = 0; i < fs.size(); ++i) if (at[i] < total(fs[i])) { double p = double(at[i]) / total(fs[i]); if (p < bp) { bp = p; best = i; } }
            if (best == fs.size()) return std::nullopt;
            uint64_t idx = at[best]; at[best] += jobs;
            return std::make_pair(best, idx);
        }
    };
    std::vector<pid_t> pids(jobs);
    auto worker = [&](unsigned w) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
        std::string errp = g_scratch + "/w" + std::to_string(w) + ".err"; int fd = open(errp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2);
        signal(SIGPROF, on_prof);
        json res = json::object();
        std::vector<std::unordered_set<uint64_t>> distinct(fs.size());
        struct Agg { uint64_t runs = 0, nontriv = 0, discarded = 0; double slowest = 0; std::map<std::string, uint64_t> labels, known; std::vector<std::string> samples; };
        std::vector<Agg> agg(fs.size());
        json fails = json::array();
        Order order(w);
        while (!*stop && elapsed() < budget) {
            auto at = order.next(fs, total, jobs);
            if (!at) break;
            auto [best, idx] = *at;
            shared[w].facet = best; shared[w].index = idx; shared[w].in_case = 1;
            arm_cpu_limit(fs[best].cpu_limit_s);
            Src s(mix(mix(seed, hash_str(fs[best].name)), idx)); Case c;
            auto c0 = clock();
            Outcome o = run_case(fs[best], s, c);
            arm_cpu_limit(0);
            shared[w].in_case = 0;
            auto& g = agg[best];
            g.slowest = std::max(g.slowest, double(clock() - c0) / CLOCKS_PER_SEC);
            g.runs++;
            if (o.discarded) g.discarded++;
            for (auto& l : c.labels()) g.labels[l]++;
            for (auto& l : c.knowns()) g.known[l]++;
            if (!o.discarded && c.is_nontrivial()) {
                uint64_t h = 7; for (auto v : o.choices) h = mix(h, v);
                if (distinct[best].insert(h).second && g.samples.size() < 2) g.samples.push_back(c.desc.str().substr(0, 1500));
            }
            if (o.failed) { fails.push_back({{"facet", best}, {"index", idx}}); *stop = 1; }
        }
        for (size_t i = 0; i < fs.size(); ++i)
            res["facets"].push_back({{"runs", agg[i].runs}, {"discarded", agg[i].discarded}, {"slowest", agg[i].slowest}, {"labels", agg[i].labels}, {"known", agg[i].known}, {"samples", agg[i].samples}, {"distinct", distinct[i]}});
        res["fails"] = fails;
        std::ofstream(g_scratch + "/w" + std::to_string(w) + ".json") << res.dump(-1, ' ', false, json::error_handler_t::replace);
        shared[w].done = 1;
        _exit(0);
    };
    fflush(nullptr);
    for (unsigned w = 0; w < jobs; ++w) {
        memset((void*)&shared[w], 0, sizeof(Shared));
        if ((pids[w] = fork()) == 0) worker(w);
    }
    for (unsigned w = 0; w < jobs; ++w) {
        int st; waitpid(pids[w], &st, 0);
        if (!shared[w].done) { *stop = 1; if (shared[w].in_case) found.push_back({shared[w].facet, shared[w].index, true}); }
    }
    // Aggregate.
    json facets_out = json::array(); uint64_t evals = 0, distinct_total = 0; json samples = json::array();
    std::vector<json> ws;
    for (unsigned w = 0; w < jobs; ++w) { std::ifstream in(g_scratch + "/w" + std::to_string(w) + ".json"); if (!in) continue; try { ws.push_back(json::parse(in)); } catch (...) {} }
    bool cut = false; std::map<std::string, uint64_t> known_total;
    for (size_t i = 0; i < fs.size(); ++i) {
        uint64_t runs = 0, disc = 0; double slow = 0; std::map<std::string, uint64_t> labels, known; std::unordered_set<uint64_t> d; json sm = json::array();
        for (auto& r : ws) { auto& f = r["facets"][i]; runs += f["runs"].get<uint64_t>(); disc += f["discarded"].get<uint64_t>(); slow = std::max(slow, f["slowest"].get<double>());
            for (auto& [k, v] : f["labels"].items()) labels[k] += v.get<uint64_t>();
            for (auto& [k, v] : f["known"].items()) { known[k] += v.get<uint64_t>(); known_total[k] += v.get<uint64_t>(); }
            for (auto& h : f["distinct"]) d.insert(h.get<uint64_t>());
            for (auto& s : f["samples"]) if (sm.size() < 2) sm.push_back(s); }
        if (runs < total(fs[i])) cut = true;
        evals += runs; distinct_total += d.size();
        facets_out.push_back({{"facet", fs[i].name}, {"planned", total(fs[i])}, {"evaluations", runs}, {"discarded", disc}, {"slowest_case_s", slow}, {"distinct_nontrivial", d.size()}, {"labels", labels}});
        for (auto& s : sm) samples.push_back({{"facet", fs[i].name}, {"case", s}});
    }
    for (auto& r : ws) for (auto& f : r["fails"]) found.push_back({f["facet"].get<size_t>(), f["index"].get<uint64_t>(), false});
    json report{{"property", property}, {"rule", rule}, {"evaluations", evals}, {"distinct_nontrivial", distinct_total}, {"samples", samples}, {"facets", facets_out}, {"known", known_total}, {"budget_cut", cut}, {"search_s", elapsed()}, {"violations", json::array()}};
    // Shrink and confirm what failed: one per facet.
    std::sort(found.begin(), found.end(), [](auto& x, auto& y) { return std::tie(x.facet, x.index) < std::tie(y.facet, y.index); });
    std::set<size_t> seen;
    for (auto& f : found) {
        if (!seen.insert(f.facet).second) continue;
        if (report["violations"].size() >= 2 || (!report["violations"].empty() && elapsed() > 300)) break;
        auto& fc = fs[f.facet];
        // Recover the choices. A crashing case never returned its record, so regenerate it with a recorder that outlives it.
        Src s(mix(mix(seed, hash_str(fc.name)), f.index));
        std::vector<uint64_t> choices;
        {
            // A generous random tape equals what Src(seed) would hand out, since below() uses next() % n and replay uses v % n.
            Src tape(mix(mix(seed, hash_str(fc.name)), f.index));
            size_t len = 20000; choices.reserve(len);
            for (size_t i = 0; i < len; ++i) choices.push_back(tape.below(~0ull));
        }
        ChildResult r = run_in_child(fc, choices);
        bool hang = r.failed && r.message.find("PBT:") != std::string::npos;   // each further attempt takes as long
        int want = hang ? 1 : 3;
        int fails = 0; std::string msg = r.message;
        if (r.failed) { auto b = hang ? r : shrink(fc, r, 45); for (int k = 0; k < want; ++k) { auto rr = run_in_child(fc, b.choices); if (rr.failed) { ++fails; msg = rr.message; if (!rr.desc.empty()) b.desc = rr.desc; } } r = b; }
        if (fails == want) {
            mkdir(replay_dir.c_str(), 0755);
            std::string path = replay_dir + "/" + property + "-" + fc.name + ".json";
            json j{{"property", property}, {"facet", fc.name}, {"choices", r.choices}, {"message", msg}, {"case", r.desc}, {"seed", seed}, {"index", f.index}};
            std::ofstream(path) << j.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
            report["violations"].push_back({{"facet", fc.name}, {"replay", path}, {"message", msg}, {"case", r.desc}});
        } else if (auto h = [&]() -> std::optional<History> {   // did it need what the worker's earlier cases left behind?
                History all; Order order(f.index % jobs);
                while (auto at = order.next(fs, total, jobs)) { all.push_back(*at); if (*at == std::make_pair(f.facet, f.index)) break; }
                auto t1 = Clock::now(); auto left = [&] { return std::max(1, 200 - int(std::chrono::duration<double>(Clock::now() - t1).count())); };
                bool got = false;
                for (size_t k = 2; !got && left() > 1; k *= 2) { History tail(all.end() - std::min(k, all.size()), all.end()); if (auto rr = run_history(fs, seed, tail, left()); rr.failed) { all = tail; r = rr; got = true; } if (k >= all.size()) break; }
                if (!got) return std::nullopt;
                for (size_t k = std::max<size_t>(1, all.size() / 2); k >= 1; k /= 2)
                    for (size_t i = 0; i + 1 < all.size() && left() > 100;) {
                        auto n = std::min(k, all.size() - 1 - i); auto cut = all; cut.erase(cut.begin() + i, cut.begin() + i + n);
                        if (auto rr = run_history(fs, seed, cut, left()); rr.failed) { all = cut; r = rr; } else i += k;
                    }
                for (int k = 0; k < 2; ++k) if (!run_history(fs, seed, all, 60).failed) return std::nullopt;
                return all;
            }()) {
            mkdir(replay_dir.c_str(), 0755);
            std::string path = replay_dir + "/" + property + "-" + fc.name + ".json";
            json hs = json::array(); for (auto& [a, b] : *h) hs.push_back({fs[a].name, b});
            json j{{"property", property}, {"facet", fc.name}, {"history", hs}, {"message", r.message}, {"case", r.desc}, {"seed", seed}, {"index", f.index}};
            std::ofstream(path) << j.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
            report["violations"].push_back({{"facet", fc.name}, {"replay", path}, {"message", r.message}, {"case", r.desc}});
        } else {
            std::cerr << "note: a failure of facet " << fc.name << " case " << f.index << " did not replay (" << fails << "/" << want << "): " << msg << std::endl;
            std::ifstream e(g_scratch + "/w0.err");
            report["unconfirmed"].push_back({{"facet", fc.name}, {"index", f.index}, {"message", msg}});
        }
    }
    if (!a.count("--scratch")) {
        for (auto& n : {"child.json", "child.err", "child.desc"}) unlink((g_scratch + "/" + n).c_str());
        for (unsigned w = 0; w < jobs; ++w) for (auto& e : {".json", ".err"}) unlink((g_scratch + "/w" + std::to_string(w) + e).c_str());
        rmdir(g_scratch.c_str());
    }
    if (!out_file.empty()) std::ofstream(out_file) << report.dump(1, ' ', false, json::error_handler_t::replace) << "\n";
    else std::cout << report.dump(1, ' ', false, json::error_handler_t::replace) << std::endl;
    return report["violations"].empty() ? 0 : 1;
}
#endif
}
