// needs: slicer
#include "cli.hpp"
#include "mutate.hpp"
#include <regex>
#include <csignal>
#include <sys/resource.h>
using namespace vf;
using V = std::vector<std::string>;
// What the user sees of one run: the bulk output (slices, or LLI), the summary, the messages and the exit code; without clock readings.
struct Seen { std::string bulk, summary, err; int code = 0; };
static std::string untimed(std::string s) {
    static const std::regex took("Took [0-9.e+-]+s"), count("Slice count: [0-9]+\r"), machine("^([0-9]+,[0-9]+),[0-9.e+-]+\n$"); s = std::regex_replace(s, count, ""); s = std::regex_replace(s, took, "Took s"); return s.size() > 200 ? s : std::regex_replace(s, machine, "$1,t\n");
}
struct Cmd { Comp k; std::optional<TempFile> lay; std::vector<V> groups; std::string input; V args() const { V v; for (auto& g : groups) v = v + g; return v; }
    bool has(const std::string& o) const { for (auto& g : groups) if (g[0] == o) return true; return false; } };
// Groups an option with its value.
static std::vector<V> grouped(const V& v) { std::vector<V> g; for (auto& x : v) if (x[0] == '-' && !(x.size() > 1 && isdigit(x[1]))) g.push_back({x}); else g.back().push_back(x); return g; }
static void gen_cmd(pbt::Src& s, pbt::Case& c, Cmd& m, Run& r, size_t cap = 100) {
    Opt o; o.cli = true; o.max_gates = 6; o.max_qubits = 5; o.edpc = s.chance(1, 5); m.k = gen_circuit(s, c, o); r = run(m.k, cap); if (r.capped) c.discard();
    m.groups = grouped(m.k.opts); m.groups.insert(m.groups.begin(), {"-I", s.chance(1, 2) ? "qasm" : "q"}); if (!m.k.layout_text.empty()) { m.lay.emplace(m.k.layout_text); m.groups.push_back({"-l", m.lay->path}); }
    m.input = m.k.qasm; c.desc << join(m.args()) << "\n"; c.label(mode_name(m.k.mode)); c.label(r.error ? "ends with an error" : "completes");
}
static Seen see(const V& args, const std::string& input, bool in_file = false, bool out_file = false) {
    std::optional<TempFile> i, o; V a = args; if (in_file) { i.emplace(input); a = a + V{"-i", i->path}; } if (out_file) { o.emplace(); a = a + V{"-o", o->path}; }
    auto x = slicer(a, in_file ? "" : input); Seen r; r.code = x.code; r.err = untimed(x.err); if (out_file) r.bulk = o->read(), r.summary = untimed(x.out); else r.bulk = untimed(x.out); return r;
}
static void same(pbt::Case& c, const Seen& a, const Seen& b, const std::string& what, bool summary = false) {
    auto cut = [](const std::string& s) { return s.substr(0, 1500); };
    c.eq(a.code, b.code, what + ": exit code (messages '" + a.err + "' and '" + b.err + "')"); if (a.bulk != b.bulk) c.fail(what + ": the output differs:\n" + cut(a.bulk) + "\n---- in place of\n" + cut(b.bulk)); if (a.err != b.err) c.fail(what + ": the messages differ: '" + a.err + "' in place of '" + b.err + "'"); if (summary && a.summary != b.summary) c.fail(what + ": the summary differs: '" + a.summary + "' in place of '" + b.summary + "'");
}
static json slices_of(pbt::Case& c, const Seen& x, const std::string& what) { try { return json::parse(x.code ? x.bulk.empty() ? "[]" : x.bulk + "]" : x.bulk); } catch (const std::exception& e) { c.fail(what + ": not valid JSON: " + e.what() + "\n" + x.bulk.substr(0, 300)); } }
static size_t number_after(pbt::Case& c, const std::string& s, const std::string& key) { auto p = s.find(key); if (p == std::string::npos) c.fail("the summary does not say '" + key + "': " + s); return strtoull(s.c_str() + p + key.size(), nullptr, 10); }
// Another run in the same process, of any kind.
static void disturb(pbt::Src& s, pbt::Case& c) {
    c.desc << "-- another run in between:\n"; Cmd m; Run r; gen_cmd(s, c, m, r, 60); auto a = m.args();
    switch (s.below(4)) { case 0: a = a + V{"--printdag"}; break; case 1: a = a + V{"--printlli", "sliced"}; break; case 2: m.input = mutate(s, m.input, {"cx q[0],q[9];\n", "h", "qreg q[2];"}); a = a + V{"--printlli"}; break; default: break; }
    see(a, m.input, s.chance(1, 2), s.chance(1, 2)); c.desc << "--\n";
}
static Seen fresh_process(const V& args, const std::string& input) {
    TempFile in(input), out, err; std::string cmd = std::string("'") + std::filesystem::read_symlink("/proc/self/exe").parent_path().string() + "/slicer'"; for (auto& a : args) cmd += " '" + a + "'"; cmd += " < " + in.path + " > " + out.path + " 2> " + err.path;
    int st = system(cmd.c_str()); Seen r; r.code = st < 0 ? -1 : WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st); r.bulk = untimed(out.read()); r.err = err.read(); return r;
}
static void relations(pbt::Src& s, pbt::Case& c) {
    Cmd m; Run r; gen_cmd(s, c, m, r); auto a = m.args(); auto base = see(a, m.input); c.nontrivial(!r.error && r.steps.size() >= 2);
    auto b = a; size_t applied = 0; for (auto& t : r.steps) applied += t.applied.size();
    c.check((base.code == 0) == !r.error.has_value(), [&] { return std::string("exit code ") + std::to_string(base.code) + " (" + base.err + "), but the computation " + (r.error ? "fails: " + *r.error : "completes"); });
    auto ask = [&](const V& v) { return a + v; };
    switch (s.below(15)) {
        case 14: { c.label("the options reach the computation"); if (!m.lay && s.chance(1, 2)) a = a + V{"-r", "graph_search"}; auto p = slices_of(c, base, "slices"); c.eq(p.size(), r.steps.size(), "slices written"); for (size_t i = 0; i < p.size(); ++i) same_json(c, p[i], slice_to_json(r.steps[i].slice), "slice " + std::to_string(i) + " of the computation that the options ask for"); break; }
        case 0: c.label("repeated"); same(c, see(a, m.input), base, "the same command once more"); break;
        case 1: c.label("input from a file"); same(c, see(a, m.input, true), base, "input from a file"); break;
        case 2: c.label("output to a file"); same(c, see(a, m.input, s.chance(1, 2), true), base, "output to a file"); break;
        case 3: c.label("after another run"); disturb(s, c); same(c, see(a, m.input, s.chance(1, 2), s.chance(1, 2)), base, "after another run"); break;
        case 4: { // options that ask for what is the default anyway
            std::vector<V> d; auto add = [&](const char* x, const char* y, V v) { if (!m.has(x) && !m.has(y) && s.chance(1, 2)) d.push_back(v); };
            add("-r", "--router", {"-r", "graph_search"}); add("-P", "--pipeline", {"-P", "stream"}); add("-g", "", {"-g", "djikstra"}); add("-l", "-L", {"-L", "compact"}); add("--cnotcorrections", "", {"--cnotcorrections", "never"}); add("--disttime", "", {"--disttime", "10"}); add("-t", "", {"-t", s.pick(V{"1000", "32768", "65536", "100000", "131072", "16777216", "2147483648", "4294967295"})}); if (m.k.edpc_layout) add("--numlanes", "", {"--numlanes", "1"});
            auto g = m.groups; for (auto& v : d) g.insert(g.begin() + s.below(g.size() + 1), v); V v; for (auto& x : g) v = v + x; c.desc << join(v) << "\n"; c.label("defaults spelled out"); same(c, see(v, m.input), base, "defaults spelled out"); break; }
        case 5: { auto g = m.groups; s.shuffle(g); V v; for (auto& x : g) v = v + x; c.desc << join(v) << "\n"; c.label("options in another order"); same(c, see(v, m.input), base, "options in another order"); break; }
        case 6: { static const std::map<std::string, std::string> lng{{"-I", "--input-format"}, {"-l", "--layout"}, {"-L", "--layoutgenerator"}, {"-P", "--pipeline"}, {"-g", "--graph-search"}}; V v = a; for (auto& x : v) if (auto i = lng.find(x); i != lng.end() && s.chance(2, 3)) x = i->second; c.label("long option names"); same(c, see(v, m.input), base, "long option names"); break; }
        case 7: { c.label("output formats"); std::string n, p; for (std::string f : {"progress", "noprogress", "machine", "stats"}) {
            auto x = see(ask({"-f", f}), m.input, false, true); same(c, x, base, "-f " + f); if (x.code) continue;
            if (f == "noprogress") c.check(x.summary.empty(), "-f noprogress prints " + x.summary); else if (f == "machine") c.check(x.summary == n + "," + p + ",t\n", "-f machine prints '" + x.summary + "', -f progress spoke of " + n + " instructions and " + p + " slices"); else { n = std::to_string(number_after(c, x.summary, "LS Instructions read")); p = std::to_string(number_after(c, x.summary, "Slices ")); c.eq(p, std::to_string(r.slices), "slices reported"); c.eq(n, std::to_string(r.instructions), "instructions reported"); } } break; }
        case 8: { c.label("--noslices"); auto w = see(a, m.input, false, true); std::string f = s.pick(V{"", "progress", "machine", "stats"}); auto e = f.empty() ? V{} : V{"-f", f}; auto x = see(ask(e + V{"--noslices"}), m.input), y = see(ask(e), m.input, false, true); c.eq(x.code, y.code, "--noslices: exit code"); if (x.bulk != y.summary || x.err != y.err) c.fail("--noslices reports '" + x.bulk + x.err + "' in place of '" + y.summary + y.err + "'"); break; }
        case 9: { c.label("--printlli sliced"); auto x = see(ask({"--printlli", "sliced"}), m.input); c.eq(x.code, base.code, "--printlli sliced: exit code"); std::string want; for (auto& t : r.steps) { for (auto& i : t.applied) want += pbt::str(i) + ";"; want += "\n"; } for (auto& i : r.rest) want += pbt::str(i) + ";"; if (!r.error) want += "\n"; if (x.bulk != want) c.fail("--printlli sliced prints\n" + x.bulk + "---- in place of\n" + want); break; }
        case 10: { c.label("--op-ids"); V v; bool had = false; for (auto& x : a) if (x == "--op-ids") had = true; else v.push_back(x); if (!had) v.push_back("--op-ids"); auto x = see(v, m.input); c.eq(x.code, base.code, "--op-ids: exit code"); auto p = slices_of(c, x, "--op-ids"), q = slices_of(c, base, "slices"); for (auto* j : {&p, &q}) for (auto& sl : *j) for (auto& row : sl) for (auto& cell : row) if (cell.is_object()) cell.erase("operation_id"); same_json(c, p, q, "slices with operation ids switched, apart from them"); break; }
        case 11: { c.label("--graceful"); auto x = see(ask({"--graceful"}), m.input); c.eq(x.code, 0, "--graceful: exit code"); if (base.code == 0) same(c, x, base, "--graceful"); else { c.check(!x.err.empty(), "--graceful gives no message"); auto p = slices_of(c, x, "--graceful"), q = slices_of(c, base, "slices"); c.check(p.size() >= q.size(), "--graceful makes fewer slices"); } break; }
        case 12: { c.label("fresh process"); auto x = fresh_process(a, m.input); c.check((x.code == 0) == (base.code == 0), [&] { return "in a fresh process the exit code is " + std::to_string(x.code) + ": " + x.err.substr(0, 500); }); if (x.bulk != base.bulk) c.fail("in a fresh process the output differs:\n" + x.bulk.substr(0, 1500) + "\n---- in place of\n" + base.bulk.substr(0, 1500)); if (base.code == 0) c.check(x.err == base.err, [&] { return "in a fresh process the messages are '" + x.err.substr(0, 500) + "'"; }); else c.check(!x.err.empty(), "an error without a message"); break; }
        case 13: { c.label("instructions fed back"); if (m.k.mode == PipelineMode::Dag || !m.lay) { auto x = see(ask({"--printlli"}), m.input), y = see(ask({"--printlli", "before"}), m.input); same(c, x, y, "--printlli without a value"); std::string want; for (auto& i : m.k.prog) want += pbt::str(i) + "\n"; if (x.code == 0 && x.bulk != want) c.fail("--printlli prints\n" + x.bulk + "---- in place of\n" + want); break; }
            auto x = see(ask({"--printlli"}), m.input); c.eq(x.code, 0, "--printlli: exit code (" + x.err + ")"); V v; for (size_t i = 2; i < a.size(); ++i) if (a[i] == "--cnotcorrections") ++i; else v.push_back(a[i]); auto y = see(v, "DeclareLogicalQubitPatches " + pbt::list(m.k.core) + "\n" + x.bulk); c.label("sliced from printed instructions"); c.eq(y.code, base.code, "slicing the printed instructions: exit code (" + y.err + ")"); if (y.bulk != base.bulk && !base.code) c.fail("slicing the printed instructions gives other slices:\n" + x.bulk); break; }
    }
}
static void refused(pbt::Src& s, pbt::Case& c) {
    Cmd m; Run r; gen_cmd(s, c, m, r, 40); auto a = m.args(); std::string what; V junk{"nonsense", "Stream", "edpcc", "0", "compact2", "qasmm", "LLI", "-", "astar2", "sliced2", "inputs"}; auto w = s.pick(junk);
    auto drop = [&](V names) { V v; for (auto& g : m.groups) if (std::find(names.begin(), names.end(), g[0]) == names.end()) v = v + g; a = v; }; std::optional<TempFile> o; std::string missing = std::string(getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp") + "/no/such/file"; bool in_file = false;
    switch (s.below(15)) {
        case 0: drop({"-I"}); a = a + V{"-I", w}; break; case 1: drop({"-P"}); a = a + V{"-P", w}; break; case 2: drop({"-g"}); a = a + V{"-g", w}; break; case 3: a = a + V{"-r", w}; break; case 4: drop({"-L", "-l"}); a = a + V{"-L", w}; break;
        case 5: a = a + V{"--printlli", w}; break; case 6: a = a + V{"--printdag", w}; break; case 7: drop({"--cnotcorrections"}); a = a + V{"--cnotcorrections", w}; break; case 8: o.emplace(); a = a + V{"-o", o->path, "-f", w}; break;
        case 9: a = a + V{"-i", missing}; break; case 10: drop({"-L", "-l", "--condensed", "--explicitfactories", "--numlanes"}); a = a + V{"-l", missing}; break; case 11: a = a + V{"-o", missing}; break;
        case 12: a = a + V{"-f", s.pick(V{"progress", "noprogress", "machine", "stats"})}; break;
        case 13: { drop({"-L", "-l", "--notwists", "--numlanes", "--condensed", "--explicitfactories", "-P"}); a = a + V{"--notwists"}; int k = s.below(3); if (k) a = a + V{"-L", k == 1 ? "compact" : "compact_no_clogging"}; break; }
        case 14: { bool nl = s.chance(1, 2); drop({"-P", "-L", "-l", "--numlanes", "--condensed", "--explicitfactories", "--local", "--notwists"}); a = a + V{"-P", "edpc"}; int k = s.below(4); if (k == 1) a = a + V{"-L", "edpc"}; if (k == 2) a = a + V{"-L", "edpc", "--local", "--numlanes", "2"}; if (k == 3) a = a + V{"-L", "compact", "--local"}; break; }
    }
    s.shuffle(m.groups); c.desc << join(a) << "\n"; auto x = slicer(a, m.input); c.nontrivial(); c.check(x.code != 0, [&] { return "not refused (exit code 0): " + x.out.substr(0, 300) + x.err; }); c.check(!x.err.empty(), "refused without a message"); c.check(x.out.find('[') == std::string::npos, "slices were written all the same: " + x.out.substr(0, 300)); if (o) c.check(o->read().empty(), "slices were written all the same");
    auto y = see(m.args(), m.input); c.check((y.code == 0) == !r.error.has_value(), "after the refused command, the plain one has exit code " + std::to_string(y.code) + ": " + y.err);
}
// Whatever the arguments and the input are, the in-process interface answers.
static void anything(pbt::Src& s, pbt::Case& c) {
    Opt o; o.cli = true; o.max_gates = 4; o.max_qubits = 4; o.edpc = s.chance(1, 6); std::ostringstream keep; Cmd m; m.k = gen_circuit(s, c, o); m.groups = grouped(m.k.opts); m.groups.insert(m.groups.begin(), {"-I", "qasm"}); m.input = m.k.qasm; std::string lay = m.k.layout_text.empty() ? "QrQ\nrrr\nMrA\n" : m.k.layout_text;
    static const V qd{"OPENQASM 2.0;\n", "qreg q[3];\n", "h q[0];\n", "cx q[0],q[1];", "t q[2];", "s q[1];\n", "reset q[0];\n", "rz(pi/4) q[0];\n", "// %BellBased,AncillaNextToTarget", "crz(pi/8) q[0],q[1];\n", "\xff\xfe", "\xc3"};
    static const V ld{"DeclareLogicalQubitPatches 0,1,2\n", "DeclareLogicalQubitPatches \n", "HGate 0\n", "MultiBodyMeasure 0:Z,1:X\n", "RequestMagicState 9,0\n", "Init 5 |+>\n", "MeasureSinglePatch 0 X\n", "Reset 0\n", "RotateSingleCellPatch 1\n", "RequestYState 7,0\n", "BellPairInit 3,4,0:Z,1:X\n", "DeclareLogicalQubitPatches 4294967295,1\n", "BusyRegion", "\xff"};
    bool lli = s.chance(1, 3); if (lli) { m.groups[0][1] = "lli"; m.input = ld[0]; for (int n = s.below(6); n--;) m.input += s.pick(ld); }
    switch (s.below(4)) { case 0: m.input = mutate(s, m.input, lli ? ld : qd); break; case 1: m.input = soup(s, lli ? ld : qd); break; case 2: lay = mutate(s, lay, {"Q", "A", "M", "0", "Y", "\n", "X", "?", "\xf0"}); m.lay.emplace(lay); std::erase_if(m.groups, [](auto& g) { return g[0] == "-L" || g[0] == "-l"; }); m.groups.push_back({"-l", m.lay->path}); break; default: break; }
    if (!m.lay && !m.k.layout_text.empty()) { m.lay.emplace(lay); m.groups.push_back({"-l", m.lay->path}); }
    TempFile in(m.input), out; static const std::vector<V> extra{{"--printlli"}, {"--printlli", "sliced"}, {"--printdag"}, {"--printdag", "processedlli"}, {"--graceful"}, {"--noslices"}, {"-r", "graph_search_cached"}, {"--local"}, {"--notwists"}, {"-P", "edpc"}, {"-P", "dag"}, {"-L", "edpc"}, {"--condensed"}, {"--explicitfactories"}, {"--nostagger"}, {"--cnotcorrections", "always"}, {"-f", "stats"}, {"-f", "machine"}, {"\xff"}, {"-g", "boost"}, {"-P", "\xe2\x82"}, {"--op-ids"}};
    for (int n = s.below(4); n--;) { auto v = s.pick(extra); if (!m.has(v[0])) m.groups.insert(m.groups.begin() + s.below(m.groups.size() + 1), v); } if (s.chance(1, 4)) m.groups.push_back({"-o", out.path}); bool file = s.chance(1, 4); if (file) m.groups.push_back({"-i", in.path}); if (s.chance(1, 6)) m.groups.erase(m.groups.begin() + s.below(m.groups.size()));
    // A register of thousands of qubits, or a huge cell count, is a question of memory
    static const std::regex reg("\\[ *([0-9]{4,})"); if (std::regex_search(m.input, reg)) c.discard();
    m.groups.push_back({"-t", "1"}); c.desc << vf::quoted(join(m.args())) << "\n" << vf::quoted(m.input) << "\n" << (m.lay ? vf::quoted(lay) : "");
    Said x; std::string raw; try { x = slicer(m.args(), file ? "" : m.input); } catch (const std::exception& e) { c.fail(std::string("the in-process interface throws: ") + e.what()); }
    c.check(x.code == 0 || !x.err.empty(), "exit code " + std::to_string(x.code) + " without a message"); c.nontrivial(m.input.size() > 30); c.label(x.code == 0 ? "accepted" : x.code == 100 ? "exception" : "refused");
}
// A program that never ends: stopped once the time is over, with the slices so far.
static void endless(pbt::Src& s, pbt::Case& c) {
    bool graceful = s.chance(1, 2), noslices = s.chance(1, 3); unsigned limit = s.below(2); std::string in = "DeclareLogicalQubitPatches 0,1,2\n"; V some{"HGate 1\n", "MultiBodyMeasure 0:Z,1:X\n", "SGate 2\n", "RotateSingleCellPatch 0\n"}; for (int n = s.below(4); n--;) in += s.pick(some);
    in += "MeasureSinglePatch 77 Z\n"; auto split = s.below(2) ? in.size() : in.size() - 24; in.insert(split, s.chance(1, 2) ? "HGate 0\n" : "");
    TempFile lay("A" "QrQrQA\nrrrrrrr\nArrrrrA\n"), out; V a{"-l", lay.path, "-t", std::to_string(limit)}; if (graceful) a.push_back("--graceful"); if (noslices) a.push_back("--noslices"); else a = a + V{"-o", out.path, "-f", s.pick(V{"progress", "noprogress", "stats"})}; if (s.chance(1, 2)) a = a + V{"-P", "stream"};
    c.desc << join(a) << "\n" << in; auto start = std::chrono::steady_clock::now(); auto x = slicer(a, in); double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
    bool stopped = (x.out + x.err).find("Out of time after " + std::to_string(limit) + "s") != std::string::npos; c.nontrivial(stopped); if (!stopped) { c.label("ended otherwise"); c.check(graceful || x.code, "an endless program ends without an error: " + x.out + x.err); return; }
    c.label(graceful ? "stopped, graceful" : "stopped"); c.check(took >= limit, "stopped before the time is over"); if (took > limit + 20) c.fail("stopped only after " + std::to_string(took) + " s"); c.check((x.code == 0) == graceful, "exit code " + std::to_string(x.code) + " of a program stopped by the timeout" + (graceful ? ", with --graceful" : ""));
    if (!noslices) { auto t = out.read(); try { auto j = json::parse(graceful ? t : t.empty() ? "[]" : t + "]"); c.check(!limit || j.size() > 0, "no slices were written"); } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { c.fail(std::string("the slices written until then are not valid JSON: ") + e.what()); } }
}
// The disk is full after some bytes, or from the start.
struct FileLimit { rlimit old{}; void (*was)(int); FileLimit(size_t n) { was = signal(SIGXFSZ, SIG_IGN); getrlimit(RLIMIT_FSIZE, &old); rlimit l = old; l.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &l); } ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); signal(SIGXFSZ, was); } };
static void full_disk(pbt::Src& s, pbt::Case& c) {
    Cmd m; Run r; gen_cmd(s, c, m, r, 40); auto a = m.args(); if (s.chance(1, 4)) a = a + V{"--printlli", "sliced"}; TempFile in(m.input), out; a = a + V{"-i", in.path}; auto f = s.chance(1, 2) ? V{"-f", s.pick(V{"progress", "noprogress", "machine", "stats"})} : V{};
    auto x = slicer(a + V{"-o", out.path} + f, ""); if (x.code) c.discard(); auto all = out.read(); auto want = untimed(x.out);
    if (s.chance(1, 5)) { // standard output of a process of its own
        TempFile err; auto b = a + s.pick(std::vector<V>{{}, {"--printlli"}, {"--printdag"}, {"--noslices"}, {"--printdag", "processedlli"}}); c.desc << join(b) << " to a full standard output\n"; std::string cmd = std::string("'") + std::filesystem::read_symlink("/proc/self/exe").parent_path().string() + "/slicer'"; for (auto& y : b) cmd += " '" + y + "'"; cmd += " </dev/null >/dev/full 2>" + err.path;
        int st = system(cmd.c_str()); c.check(st > 0 && WIFEXITED(st) && WEXITSTATUS(st), "standard output is full, and the exit status is " + std::to_string(st)); c.check(!err.read().empty(), "standard output is full, and there is no message"); c.label("standard output"); c.nontrivial(); return;
    }
    size_t n = s.chance(1, 8) ? all.size() + s.below(2) : s.below(all.size()); std::string path = s.chance(1, 10) ? "/dev/full" : out.path; if (path == "/dev/full") n = 0; c.desc << join(a + f) << " -o a file with room for " << n << " of " << all.size() << " bytes\n"; Said y; { FileLimit l(n); y = slicer(a + V{"-o", path} + f, ""); }
    if (n >= all.size()) { c.label("just fits"); c.eq(y.code, 0, "exit code (" + y.err + ")"); c.check(out.read() == all, "the output is another"); c.check(untimed(y.out) == want, "the summary is another"); return; }
    c.nontrivial(n > 0); c.label(n ? "full part-way" : "full from the start"); c.check(y.code != 0, "the output did not fit, and the exit code is 0"); c.check(!y.err.empty(), "the output did not fit, and there is no message");
    auto z = slicer(a + V{"-o", out.path} + f, ""); c.check(!z.code && out.read() == all, "once there is room again, the output is another");
}
PBT_MAIN("P21", "the computation completes with two slices or more; a refused command; any input longer than 30 characters", {
    {"relations", relations, 1500, 40000}, {"refusals", refused, 500, 12000}, {"full disk", full_disk, 400, 10000}, {"endless programs", endless, 32, 500, 120}, {"any input", anything, 2000, 80000, 120}})
