#include "qasm_gen.hpp"
using namespace vf;
// The gate stream a program parses to is exactly the program's gates, in order, with their operands and annotations.
static void stream(pbt::Src& s, pbt::Case& c) {
    auto old = gates::ControlledGate::default_ancilla_placement;
    struct Restore { gates::CNOTAncillaPlacement v; ~Restore() { gates::ControlledGate::default_ancilla_placement = v; } } restore{old};
    gates::ControlledGate::default_ancilla_placement = s.pick(std::vector<gates::CNOTAncillaPlacement>{gates::CNOTAncillaPlacement::USE_DEDICATED_CELL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL});
    auto p = gen_qasm(s);
    c.desc << p.text << "\n== means ==\n" << pbt::list(p.gates, "\n");
    c.nontrivial(p.gates.size() >= 2);
    c.label_if(p.cnots, "two-qubit"); c.label_if(p.annotated, "annotation"); c.label_if(p.rots, "rotation"); c.label_if(p.resets, "reset"); c.label_if(p.noise, "ignored lines"); c.label_if(!p.identity_rots.empty(), "even multiple of pi");
    std::istringstream in(p.text);
    if (p.gates.empty()) c.discard();
    GateStreamFromFile gs(in);
    c.eq(gs.get_qreg().name, p.reg, "register name");
    c.eq(gs.get_qreg().size, p.size, "register size");
    size_t i = 0;
    while (gs.has_next_gate()) {
        auto g = canon(gs.get_next_gate());
        if (i >= p.gates.size()) c.fail("gate that is not in the program: " + g);
        c.eq(g, p.gates[i], "gate " + std::to_string(i));
        ++i;
    }
    c.eq(i, p.gates.size(), "number of gates");
}
// Programs outside the dialect are refused, not silently read as something else.
static void refused(pbt::Src& s, pbt::Case& c) {
    QasmOpts o; o.max_gates = 5;
    auto p = gen_qasm(s, o);
    if (p.gates.empty()) c.discard();
    std::vector<std::string> lines; std::istringstream in0(p.text); std::string l;
    while (std::getline(in0, l)) lines.push_back(l);
    size_t q = 0; while (lines[q].rfind("qreg ", 0) != 0) ++q;
    static const std::vector<std::pair<std::string, std::string>> bad{
        {"negative index", "h q[-1];"}, {"negative index", "cx q[0],q[-2];"}, {"index out of range", "x q[4294967296];"}, {"index out of range", "t q[99999999999999999999];"},
        {"no index", "h q;"}, {"no index", "h q[];"}, {"index not a number", "s q[a];"}, {"index not a number", "s q[1x];"}, {"index not a number", "cx q[0],q[1.5];"},
        {"operand count", "cx q[0];"}, {"operand count", "cx q[0],q[1],q[2];"}, {"operand count", "cz q[1];"}, {"operand count", "h;"}, {"operand count", "rz(pi/4);"}, {"operand count", "crz(pi/4) q[0];"},
        {"unsupported gate", "ccx q[0],q[1],q[2];"}, {"unsupported gate", "u3(pi/2,0,pi) q[0];"}, {"unsupported gate", "rzz(pi/4) q[0],q[1];"}, {"unsupported gate", "measure q[0] -> c[0];"}, {"unsupported gate", "H q[0];"},
        {"unsupported gate", "rx(pi/2) q[0];"}, {"unsupported gate", "crzz(pi/4) q[0],q[1];"}, {"unsupported gate", "id q[0];"},
        {"angle", "rz(0.25) q[0];"}, {"angle", "rz(pi/x) q[0];"}, {"angle", "rz() q[0];"}, {"angle", "rz(a*pi/4) q[0];"}, {"angle", "rz(2*pi/) q[0];"}, {"angle", "rz(tau/4) q[0];"}, {"angle", "rz(1*pi/2*pi/3) q[0];"},
        {"whole-register reset", "reset q;"}, {"second register", "qreg r[2];"}, {"reset operand count", "reset q[0],q[1];"}};
    auto& b = bad[s.below(bad.size())];
    size_t at = q + 1 + s.below(lines.size() - q);
    lines.insert(lines.begin() + at, b.second);
    std::string text = pbt::list(lines, "\n");
    c.desc << text; c.label(b.first); c.nontrivial();
    std::istringstream in(text);
    bool threw = false; size_t n = 0;
    try { GateStreamFromFile gs(in); while (gs.has_next_gate()) { gs.get_next_gate(); ++n; } } catch (const std::exception&) { threw = true; }
    c.check(threw, "a line outside the dialect was accepted: " + b.second);
}
static void needs_qreg(pbt::Src& s, pbt::Case& c) {
    QasmOpts o; o.max_gates = 6;
    auto p = gen_qasm(s, o);
    std::string text, l; std::istringstream in0(p.text);
    while (std::getline(in0, l)) if (l.rfind("qreg ", 0) != 0) text += l + "\n";
    c.desc << text; c.nontrivial(p.gates.size() > 1);
    std::istringstream in(text);
    bool threw = false;
    try { GateStreamFromFile gs(in); } catch (const std::exception&) { threw = true; }
    c.check(threw, "a program without a qreg was accepted");
}
template<class X> static std::string shown(const X& x) { using namespace lsqecc; std::ostringstream o; o << x; return o.str(); }
// A gate prints as a line that reads back as the gate (annotations are not printed), whatever the numbers.
static void printed(pbt::Src& s, pbt::Case& c) {
    using namespace gates; auto q = [&]() -> QubitNum { return s.chance(1, 8) ? s.pick(std::vector<QubitNum>{255, 256, 65535, 65536, 2147483647u, 2147483648u, 4294967294u}) : s.below(50); };
    using T = BasicSingleQubitGate::Type; static const std::vector<std::pair<T, std::string>> sq{{T::H, "h"}, {T::X, "x"}, {T::Y, "y"}, {T::Z, "z"}, {T::S, "s"}, {T::T, "t"}, {T::SDg, "sdg"}, {T::TDg, "tdg"}};
    auto a = q(), b = q(); if (a == b) b = a ? a - 1 : 1; auto& one = s.pick(sq); auto num = [&](uint64_t n) { return s.chance(1, 10) ? 1 + s.below(1ull << 40) : 1 + s.below(n); }; auto at = [](QubitNum i) { return "[" + std::to_string(i) + "]"; };
    Fraction f{static_cast<ArbitraryPrecisionInteger>(num(9)), static_cast<ArbitraryPrecisionInteger>(2 + num(40)), s.chance(1, 2)}; std::string fr = (f.is_negative ? "-" : "") + pbt::str(f.num) + "*pi/" + pbt::str(f.den); Gate g; std::string want, reg = "q"; bool readable = true;
    auto ct = s.pick(std::vector<CNOTType>{CNOTType::ZX_WITH_MBM_CONTROL_FIRST, CNOTType::ZX_WITH_MBM_TARGET_FIRST, CNOTType::BELL_BASED}); auto ap = s.pick(std::vector<CNOTAncillaPlacement>{CNOTAncillaPlacement::USE_DEDICATED_CELL, CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET});
    switch (s.below(5)) {
        case 0: g = BasicSingleQubitGate{a, one.first}; want = one.second + " q" + at(a) + ";"; break;
        case 1: g = RZ{a, f}; want = "rz(" + fr + ") q" + at(a) + ";"; break;
        case 2: { bool x = one.first == T::X || one.first == T::Z; readable = x; g = ControlledGate{b, BasicSingleQubitGate{a, one.first}, ct, ap}; want = "c" + one.second + " q" + at(b) + ",q" + at(a) + ";"; break; }
        case 3: { readable = f.num == 1 && !f.is_negative; if (readable) fr = "pi/" + pbt::str(f.den); g = ControlledGate{b, RZ{a, f}, ct, ap}; want = "crz(" + fr + ") q" + at(b) + ",q" + at(a) + ";"; break; }
        default: reg = s.pick(std::vector<std::string>{"q", "r", "anc", "q2"}); g = gates::Reset{reg, a}; want = "reset " + reg + at(a) + ";";
    }
    c.desc << want; c.nontrivial(); c.label(readable ? "readable" : "not readable"); c.eq(shown(g), want, "printed text"); if (auto* x = std::get_if<BasicSingleQubitGate>(&g)) c.eq(shown(*x), want, "printed text");
    if (!readable) return;
    std::istringstream in("qreg " + reg + "[4294967295];\n" + shown(g) + "\n"); GateStreamFromFile st(in); c.check(st.has_next_gate(), "the printed gate reads back as nothing"); auto back = st.get_next_gate(); c.check(!st.has_next_gate(), "the printed gate reads back as several");
    if (auto* k = std::get_if<ControlledGate>(&back)) k->cnot_type = ct, k->cnot_ancilla_placement = ap;
    // Angles that are multiples of a quarter turn read back as the gate of that name.
    if (auto* z = std::get_if<RZ>(&g); z && angle(z->pi_fraction).find('/') != std::string::npos) { auto v = angle(z->pi_fraction); auto den = v.substr(v.find('/') + 1); if (den == "1" || den == "2" || den == "4") { c.label("named angle"); return; } }
    c.eq(canon(back), canon(g), "the printed gate read back");
}
PBT_MAIN("P01", "OpenQASMmin programs built from the README's grammar (all gates, annotations, comments, blank lines, indentation, register names, extreme indices) together with their meaning; non-trivial: at least two gates, or one deliberately ill-formed line among well-formed ones",
    {{"stream", stream, 150000, 3000000}, {"refused", refused, 50000, 600000}, {"printed", printed, 40000, 800000}, {"needs_qreg", needs_qreg, 6000, 50000}})
