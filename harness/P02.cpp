#include "qasm_gen.hpp"
#include "mutate.hpp"
using namespace vf;
static const std::vector<std::string> dict{"OPENQASM 2.0;", "include \"qelib1.inc\";", "qreg q[3];", "qreg ", "creg c[2];", "barrier q;", "h ", "x ", "cx ", "cz ", "sdg ", "tdg ", "rz(pi/4) ", "rz(", "rz", "crz(pi/8) ", "crz(", "crz", "(pi/", "*pi/", "*pi", "pi/", "pi", "-", "reset ", "q[0]", "q[1],q[0]", "q[", "]", "[", "(", ")", ";", ",", "//", "; // %", "ZXWithMBMTargetFirst", "BellBased", "AncillaNextToTarget", "%", "measure q[0] -> c[0];", "if(c==1) x q[0];", "gate g a { h a; }", "1/0", "pi/0", "\r\n"};
struct Result { std::vector<std::string> gates; bool threw = false, unknown = false; std::string what; std::string reg; uint32_t size = 0; };
static Result parse(const std::string& t) {
    Result r; std::istringstream in(t);
    try { GateStreamFromFile g(in); r.reg = g.get_qreg().name; r.size = g.get_qreg().size;
        while (g.has_next_gate()) r.gates.push_back(canon(g.get_next_gate())); }
    catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    return r;
}
static void judge(pbt::Case& c, const std::string& text) {
    c.desc << quoted(text);
    auto r = parse(text);
    c.label(r.threw ? "refused" : "accepted"); c.label_if(r.threw && !r.gates.empty(), "refused midway");
    size_t lines = 1 + std::count(text.begin(), text.end(), '\n');
    c.check(r.gates.size() <= lines, "more gates than lines");
    auto again = parse(text);
    c.check(again.gates == r.gates && again.threw == r.threw && again.what == r.what, "parsing the same text twice differs");
    // Lines after a point cannot change how the lines before it read.
    size_t cut = text.find('\n', text.size() / 2);
    if (cut != std::string::npos) {
        auto p = parse(text.substr(0, cut + 1));
        size_t n = std::min(p.gates.size(), r.gates.size());
        for (size_t i = 0; i < n; ++i) c.eq(r.gates[i], p.gates[i], "gate " + std::to_string(i) + " changes with later lines");
        if (!p.threw && !r.threw) c.check(r.gates.size() >= p.gates.size(), "later lines removed gates");
        if (p.threw && !p.reg.empty()) c.check(r.threw, "a refused beginning is accepted with more lines after it");
    }
}
static void mutated(pbt::Src& s, pbt::Case& c) { QasmOpts o; o.max_gates = 8; auto p = gen_qasm(s, o); c.nontrivial(!p.gates.empty()); judge(c, mutate(s, p.text, dict)); }
static void tokens(pbt::Src& s, pbt::Case& c) { auto t = soup(s, dict); if (s.chance(3, 4)) t = "qreg q[3];\n" + t; c.nontrivial(t.size() > 12); judge(c, t); }
static void one_line(pbt::Src& s, pbt::Case& c) {
    QasmOpts o; o.max_gates = 1; auto p = gen_qasm(s, o);
    std::string l = p.text.substr(p.text.find("qreg")); size_t nl = l.find('\n'); l = nl == std::string::npos ? "" : l.substr(nl + 1);
    l = s.chance(1, 6) ? soup(s, dict) : mutate(s, l, dict); if (auto k = l.find('\n'); k != std::string::npos) l.resize(k);
    c.desc << quoted(l); c.nontrivial(!l.empty());
    bool threw = false;
    try { auto r = parse_gate(l); if (auto* g = std::get_if<gates::Gate>(&r)) { c.label("gate"); canon(*g); } else c.label("ignored or register"); } catch (const std::exception&) { c.label("refused"); }
}
PBT_MAIN("P02", "damaged OpenQASMmin programs (byte, token and line damage on valid ones) and token soup, under address and undefined-behaviour sanitizers; non-trivial: the text grew from at least one gate, or is longer than the bare declaration",
    {{"mutated", mutated, 60000, 2000000}, {"tokens", tokens, 40000, 1000000}, {"one_line", one_line, 60000, 2000000}})
