// needs: npm_server.js
#include "cli.hpp"
#include "qasm_gen.hpp"
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <csignal>
using namespace vf; using V = std::vector<std::string>;
// The JavaScript side: one node process per worker.
struct Node {
    int in = -1, out = -1; pid_t pid = 0, owner = 0; std::string buf;
    void start() {
        if (pid && owner == getpid()) return;
        int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) throw std::runtime_error("no pipe"); std::string js = std::string(getenv("VERIF_BUILD") ? getenv("VERIF_BUILD") : "/verif/build") + "/npm_server.js", repo = "/repo"; signal(SIGPIPE, SIG_IGN); buf.clear();
        pid = fork(); if (!pid) { dup2(a[0], 0); dup2(b[1], 1); setenv("NODE_OPTIONS", "", 1); rlimit off{RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_CPU, &off); execlp("node", "node", js.c_str(), repo.c_str(), (char*)nullptr); _exit(127); }
        close(a[0]); close(b[1]); in = a[1]; out = b[0]; owner = getpid();
    }
    void stop() { if (pid && owner == getpid()) { close(in); close(out); kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } pid = 0; }
    void say(const json& j) { std::string t = j.dump(-1, ' ', false, json::error_handler_t::replace) + "\n"; for (size_t i = 0; i < t.size();) { auto n = write(in, t.data() + i, t.size() - i); if (n <= 0) lost(); i += n; } }
    json hear() { for (;;) { if (auto p = buf.find('\n'); p != std::string::npos) { auto l = buf.substr(0, p); buf.erase(0, p + 1); return json::parse(l); } char b[65536]; auto n = read(out, b, sizeof b); if (n <= 0) lost(); buf.append(b, n); } }
    [[noreturn]] void lost() { stop(); throw pbt::Failure("the wrapper cannot be loaded or died"); }
    ~Node() { stop(); }
};
static Node node;
struct Call { V args; }; struct Answer { std::vector<Call> calls; std::optional<json> returned; std::optional<std::string> threw; };
static Answer ask(const json& args, bool load, const std::function<std::string(const V&)>& module) {
    node.start(); Answer a; try { node.say({{"run", args}, {"load", load}});
        for (;;) { auto j = node.hear(); if (j.contains("call")) { V v = j["call"]; a.calls.push_back({v}); node.say(module(v)); continue; } if (j.contains("returned")) a.returned = j["returned"]; else if (j.contains("threw")) a.threw = j["threw"].get<std::string>(); else a.returned = json("undefined"); return a; } } catch (const pbt::Failure&) { throw; } catch (...) { node.stop(); throw; }
}
static Said direct(const V& args, const std::string& input) {
    V all = V{"slicer"} + args; std::vector<const char*> v; for (auto& x : all) v.push_back(x.c_str()); std::istringstream in(input); std::ostringstream o, e; struct Quiet { std::ostringstream o, e; std::streambuf *b = std::cout.rdbuf(o.rdbuf()), *d = std::cerr.rdbuf(e.rdbuf()); ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(d); } } quiet; int code = 100;
    try { code = run_slicer_program(int(v.size()), v.data(), in, o, e); } catch (const std::exception& x) { e << "Compiler exception: " << x.what() << std::endl; } return {o.str(), e.str(), code};
}
static std::string native(const V& v) { struct Quiet { std::ostringstream o, e; std::streambuf *b = std::cout.rdbuf(o.rdbuf()), *d = std::cerr.rdbuf(e.rdbuf()); ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(d); } } quiet; return run_slicer_program_from_strings(v.at(0), v.at(1)); }
struct Req { std::string input, type = "lli", gen, corr = "never"; json args; bool ok_args = true; std::string bad; };
static Req gen_req(pbt::Src& s, pbt::Case& c) {
    Req q; int n = 1 + s.below(4); q.gen = s.pick(V{"", "", "compact", "edpc"}); bool qasm = s.chance(1, 2); q.type = qasm ? "qasm" : "lli"; q.corr = s.chance(1, 2) ? "always" : "never";
    if (qasm) { q.input = "qreg q[" + std::to_string(n) + "];\n"; for (int g = s.below(4); g--;) { int a = s.below(n), b = n > 1 ? (a + 1 + s.below(n - 1)) % n : a; auto at = [](int i) { return "q[" + std::to_string(i) + "]"; }; if (n > 1 && s.chance(1, 3)) q.input += s.pick(V{"cx ", "cz "}) + at(a) + "," + at(b) + ";" + (q.gen == "edpc" ? s.pick(V{" // %AncillaNextToTarget", " // %ZXWithMBMControlFirst,AncillaNextToControl"}) : s.pick(V{"", " // %ZXWithMBMControlFirst", " // %ZXWithMBMTargetFirst,AncillaFreePlacement"})) + "\n"; else q.input += s.pick(V{"h ", "s ", "t ", "x ", "z "}) + at(a) + ";\n"; } }
    else { q.input = "DeclareLogicalQubitPatches 0"; for (int i = 1; i < n; ++i) q.input += "," + std::to_string(i); q.input += "\n"; for (int g = s.below(4); g--;) { int a = s.below(n), b = n > 1 ? (a + 1 + s.below(n - 1)) % n : a; if (n > 1 && s.chance(1, 2)) q.input += "MultiBodyMeasure " + std::to_string(a) + ":Z," + std::to_string(b) + ":Z\n"; else q.input += s.pick(V{"HGate ", "LogicalPauli "}) + std::to_string(a) + "\n"; if (q.input.substr(q.input.rfind('\n', q.input.size() - 2) + 1, 7) == "Logical") q.input.insert(q.input.size() - 1, s.pick(V{" X", " Z"})); } }
    // Texts that are refused, with characters that need care on the way
    if (s.chance(1, 5)) q.input += s.pick(V{"bogus \"quoted\" \\ back\n", "x q[\xe2\x82\xac];\n", "\x01\x1f\n", "MultiBodyMeasure 0:Q\n", "qreg r[1];\n", "h q[9999999999];\n"});
    if (s.chance(1, 12)) q.input = s.pick(V{"", "\n", "  ", "no program", "qreg q[1];\n"}); if (s.chance(1, 6) && !q.input.empty()) q.input.pop_back();
    // Arguments may be left out (null), from the end or in between, when they are the defaults
    auto opt = [&](const std::string& v, const std::string& def) { return v == def && s.chance(1, 2) ? json() : json(v); };
    q.args = json::array({q.input, opt(q.type, "lli"), opt(q.gen, ""), opt(q.corr, "never")}); while (q.args.size() > 1 && q.args.back().is_null() && s.chance(2, 3)) q.args.erase(q.args.end() - 1);
    if (s.chance(1, 8)) { int w = s.below(3); std::string bad = s.pick(V{"QASM", "openqasm", "qasm ", "always ", "Never", "json", "-I", "\"", "lli;qasm", "edpcx"}); if (w == 2) { q.gen = bad; while (q.args.size() < 3) q.args.push_back(nullptr); q.args[2] = bad; if (bad.find(' ') != std::string::npos || bad[0] == '-') { q.gen = "nonsense"; q.args[2] = q.gen; } c.label("unknown layout generator"); } else { q.bad = w ? "Invalid argument cnotCorrections: " + bad : "Invalid argument inputType: " + bad; while (q.args.size() < size_t(w ? 4 : 2)) q.args.push_back(nullptr); q.args[w ? 3 : 1] = bad; } }
    c.desc << q.args.dump(-1, ' ', false, json::error_handler_t::replace) << "\n"; return q;
}
// Whatever was run before on the same object, run() gives what the slicer gives for the options asked for, or throws what it says.
static void runs(pbt::Src& s, pbt::Case& c) {
    int n = 1 + s.below(3); bool some = false; Req last;
    for (int i = 0; i < n; ++i) {
        Req q; if (i && last.bad.empty() && s.chance(1, 3)) { q = last; while (q.args.size() < 4) q.args.push_back(nullptr); if (s.chance(2, 3)) { q.corr = q.corr == "always" ? "never" : "always"; q.args[3] = q.corr; } else { q.type = q.type == "qasm" ? "lli" : "qasm"; q.args[1] = q.type; } c.desc << q.args.dump(-1, ' ', false, json::error_handler_t::replace) << "\n"; c.label("the same text with another option"); } else q = gen_req(s, c); last = q; std::string at = "run " + std::to_string(i + 1) + ": "; auto a = ask(q.args, s.chance(1, 4), native);
        if (!q.bad.empty()) { c.label("invalid argument"); c.check(a.threw.has_value(), at + "an invalid argument was accepted"); c.eq(*a.threw, q.bad, at + "error"); c.eq(a.calls.size(), 0u, at + "calls of the compiler"); continue; }
        V args; if (!q.gen.empty()) args = {"-L", q.gen}; if (q.type == "qasm") args = args + V{"-I", "qasm"}; if (q.corr != "never" || s.chance(1, 2)) args = args + V{"--cnotcorrections", q.corr};
        auto want = direct(args, q.input); c.eq(a.calls.size(), 1u, at + "calls of the compiler"); c.eq(a.calls[0].args.at(1), q.input, at + "input handed to the compiler");
        if (want.code) { c.label("refused by the slicer"); c.check(a.threw.has_value(), at + "no error, though the slicer ends with " + std::to_string(want.code)); std::string safe = json::parse(json(want.err).dump(-1, ' ', false, json::error_handler_t::replace)); c.eq(*a.threw, "Exit code " + std::to_string(want.code) + ": " + safe, at + "error"); continue; }
        if (a.threw) c.fail(at + "threw " + *a.threw); same_json(c, *a.returned, json::parse(want.out), at + "slices"); c.label("slices"); some |= json::parse(want.out).size() > 1; c.label_if(!q.gen.empty(), "layout generator"); c.label_if(q.corr == "always", "corrections"); c.label("type " + q.type);
    }
    c.nontrivial(some);
}
// The wrapper passes on any module's answer: the slices as they are, or the exit code and message.
static json any_json(pbt::Src& s, int depth = 0) { switch (s.below(depth > 2 ? 4 : 6)) { case 0: return nullptr; case 1: return s.pick(V{"", "a\"b\\c", "\n\t", "\xe2\x82\xac", "__proto__"}); case 2: return int64_t(s.below(100000)) - 50000; case 3: return s.chance(1, 2); case 4: { json j = json::array(); for (int n = s.below(4); n--;) j.push_back(any_json(s, depth + 1)); return j; } default: { json j = json::object(); for (int n = s.below(4); n--;) j[s.pick(V{"Top", "text", "x y", ""})] = any_json(s, depth + 1); return j; } } }
static void answers(pbt::Src& s, pbt::Case& c) {
    auto q = gen_req(s, c); if (!q.bad.empty()) return c.label("invalid argument"); bool fails = s.chance(1, 2); int code = fails ? s.pick(std::vector<int>{1, 2, 100, 255, -1, -11, 1 << 20}) : 0; auto out = any_json(s); std::string err = s.pick(V{"", "note", "two\nlines", "q\"uote", "\xe2\x82\xac"});
    std::string said = fails ? s.pick(V{"", "[", "not json"}) : out.dump(s.below(4)); json reply{{"output", said}, {"err", err}, {"exit_code", code}}; c.desc << reply.dump() << "\n"; auto a = ask(q.args, false, [&](const V&) { return reply.dump(s.below(4)); });
    c.nontrivial(); c.label(fails ? "failing" : "succeeding"); c.eq(a.calls.size(), 1u, "calls of the compiler");
    if (fails) { c.check(a.threw.has_value(), "no error for exit code " + std::to_string(code)); c.eq(*a.threw, "Exit code " + std::to_string(code) + ": " + err, "error"); } else { if (a.threw) c.fail("threw " + *a.threw); same_json(c, *a.returned, out, "slices"); }
}
// What run() returns has the type that the package declares for it.
static void typed(pbt::Src& s, pbt::Case& c) {
    auto q = gen_req(s, c); if (!q.bad.empty()) return c.label("invalid argument"); auto a = ask(q.args, false, native); if (a.threw) return c.label("refused by the slicer");
    json few = json::array(); for (auto& x : *a.returned) if (few.size() < 6) few.push_back(x); node.start(); node.say({{"types", few.dump()}}); auto r = node.hear(); c.nontrivial(few.size() > 1); c.label("slices");
    if (!r["returned"].empty()) c.fail("the slices do not have the declared type: " + r["returned"].dump());
}
PBT_MAIN("P26", "slices over at least two time steps came back through the wrapper, or a made-up answer of the compiler was passed on",
    {{"runs", runs, 1500, 40000}, {"answers", answers, 4000, 80000}, {"types", typed, 150, 4000}})
