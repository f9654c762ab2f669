// Generates OpenQASMmin programs together with what they mean, from the README's description of the dialect.
#pragma once
#include "common.hpp"
namespace vf {
struct QasmProgram {
    std::string text, reg;
    uint32_t size = 0;
    std::vector<std::string> gates;     // canonical meaning, in order
    int cnots = 0, annotated = 0, rots = 0, resets = 0, noise = 0;
    std::vector<int> identity_rots;
};
struct QasmOpts { bool rz = true, crz = true, reset = true, bell = true, big_indices = true, wholepi = true, annotations = true; unsigned max_qubits = 40, max_gates = 14; };

inline std::string gen_reg_name(pbt::Src& s) {
    static const std::vector<std::string> n{"q", "qreg0", "Reg_1", "qubits", "x", "a"};
    return s.pick(n);
}
inline uint32_t gen_index(pbt::Src& s, uint32_t size, const QasmOpts& o) {
    if (o.big_indices && s.chance(1, 12)) return static_cast<uint32_t>(s.pick(std::vector<int64_t>{99, 100, 1000, 65535, 65536, 2147483647, 4294967295ll}));
    return s.below(size);
}
// An angle as the dialect writes it, and its value num/den.
struct Angle { std::string text; int64_t num, den; };
inline Angle gen_angle(pbt::Src& s, bool wholepi) {
    bool neg = s.chance(1, 3);
    int64_t n = s.chance(1, 6) ? s.range(0, 1000000) : s.range(1, 9), d = s.weighted({3, 2, 1}) == 0 ? (int64_t{1} << s.range(1, 10)) : s.range(1, 40);
    std::string m = neg ? "-" : "";
    int64_t sg = neg ? -1 : 1;
    switch (s.weighted({4, 4, wholepi ? 2u : 0u, wholepi ? 1u : 0u})) {
        case 0: return {m + "pi/" + std::to_string(d), sg, d};
        case 1: return {m + std::to_string(n) + "*pi/" + std::to_string(d), sg * n, d};
        case 2: return {m + std::to_string(n) + "*pi", sg * n, 1};
        default: return {"pi*-1", -1, 1};
    }
}
inline QasmProgram gen_qasm(pbt::Src& s, const QasmOpts& o = {}) {
    QasmProgram p;
    p.reg = gen_reg_name(s);
    p.size = 1 + s.upto(o.max_qubits); if (s.chance(1, 60)) p.size = s.pick(std::vector<unsigned>{255, 256, 257, 65535, 65536, 65537, 100000, 2147483647u, 2147483648u, 4294967295u});
    std::ostringstream t;
    auto noise = [&] {
        if (!s.chance(1, 6)) return;
        ++p.noise;
        switch (s.below(6)) {
            case 0: t << "\n"; break;
            case 1: t << "// a comment, with q[1]; in it" << std::string(s.chance(1, 20) ? s.below(5000) : 0, 'x') << "\n"; break;
            case 2: t << "   // indented comment\n"; break;
            case 3: t << "barrier " << p.reg << "[0],q[1];\n"; break;
            case 4: t << "creg c[" << s.range(1, 9) << "];\n"; break;
            case 5: t << "//tight comment\n"; break;
        }
    };
    if (s.chance(3, 4)) t << "OPENQASM 2.0;\n";
    if (s.chance(1, 2)) t << "include \"qelib1.inc\";\n";
    noise();
    t << "qreg " << p.reg << "[" << p.size << "];\n";
    static const std::vector<std::pair<std::string, std::string>> sq{{"h", "H"}, {"x", "X"}, {"y", "Y"}, {"z", "Z"}, {"s", "S"}, {"t", "T"}, {"sdg", "SDG"}, {"tdg", "TDG"}};
    int n = 1 + s.upto(o.max_gates);
    for (int i = 0; i < n; ++i) {
        noise();
        std::string ind(s.chance(1, 400) ? s.range(20, 2000) : s.chance(1, 8) ? s.range(1, 4) : 0, ' ');
        if (s.chance(1, 24)) ind = "\t";
        uint32_t a = gen_index(s, p.size, o);
        auto q = [&](uint32_t k) { return p.reg + "[" + std::to_string(k) + "]"; };
        auto gap = [&] { return std::string(s.chance(1, 400) ? s.range(20, 2000) : s.chance(1, 12) ? s.range(2, 4) : 1, ' '); };
        std::string ct = "CF", ap = ap_name(gates::ControlledGate::default_ancilla_placement);
        auto two = [&](const std::string& name, const std::string& canon_name) {
            uint32_t b = gen_index(s, p.size, o);
            if (b == a) b = (a + 1 < p.size || a >= p.size) ? a + 1 : (a ? a - 1 : a + 1);
            std::string sep = s.chance(1, 3) ? "," + gap() : ",";
            std::string ann;
            if (o.annotations && s.chance(1, 2)) {
                std::vector<std::string> as;
                if (s.chance(2, 3)) { static const std::vector<std::pair<std::string, std::string>> cts{{"ZXWithMBMControlFirst", "CF"}, {"ZXWithMBMTargetFirst", "TF"}, {"BellBased", "BELL"}};
                    auto& c = cts[s.below(o.bell ? 3 : 2)]; as.push_back(c.first); ct = c.second; }
                if (s.chance(2, 3)) { static const std::vector<std::pair<std::string, std::string>> aps{{"AncillaFreePlacement", "FREE"}, {"AncillaNextToControl", "NC"}, {"AncillaNextToTarget", "NT"}};
                    auto& c = s.pick(aps); as.push_back(c.first); ap = c.second; }
                if (s.chance(1, 6)) as.push_back("Unrelated");
                if (s.chance(1, 2)) std::reverse(as.begin(), as.end());
                if (!as.empty()) { ann = " // %" + pbt::list(as); ++p.annotated; }
            } else if (s.chance(1, 8)) ann = " // just a remark";
            t << ind << name << gap() << q(a) << sep << q(b) << ";" << ann << "\n";
            p.gates.push_back("C" + canon_name + " c" + std::to_string(a) + " t" + std::to_string(b) + " " + ct + " " + ap);
            ++p.cnots;
        };
        switch (s.weighted({8, 5, 2, o.rz ? 3u : 0u, o.crz ? 1u : 0u, o.reset ? 2u : 0u})) {
            case 0: { auto& g = s.pick(sq); t << ind << g.first << gap() << q(a) << ";" << (s.chance(1, 8) ? " // remark, ok" : "") << "\n"; p.gates.push_back(g.second + " " + std::to_string(a)); break; }
            case 1: two("cx", "X"); break;
            case 2: two("cz", "Z"); break;
            case 3: {
                auto an = gen_angle(s, o.wholepi);
                t << ind << "rz(" << an.text << ")" << gap() << q(a) << ";\n"; ++p.rots;
                if (an.den == 1) { if (an.num % 2) p.gates.push_back("Z " + std::to_string(a)); else p.identity_rots.push_back(p.gates.size()); }
                else p.gates.push_back("RZ(" + angle(Fraction{an.num, an.den}) + ") " + std::to_string(a));
                break; }
            case 4: { int64_t d = int64_t{1} << s.range(1, 8); two("crz(pi/" + std::to_string(d) + ")", "RZ(" + angle(Fraction{1, d}) + ")"); ++p.rots; break; }
            case 5: t << ind << "reset" << gap() << q(a) << ";\n"; p.gates.push_back("RESET " + p.reg + " " + std::to_string(a)); ++p.resets; break;
        }
    }
    p.text = t.str();
    if (s.chance(1, 6)) p.text.pop_back(); // no newline at the end of the file
    return p;
}
}
