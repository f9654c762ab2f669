// Reference lowering: what each gate means as lattice surgery instructions, written from the documentation, the
// comments at each gadget and the regression specs. Patches that the lowering makes up are symbolic until compared.
#pragma once
#include "common.hpp"
#include <lsqecc/ls_instructions/ls_instructions_from_gates.hpp>
namespace vf {
struct G { enum K { SQ, CX, CZ, RST, ROTZ } k; gates::BasicSingleQubitGate::Type t{}; uint32_t a = 0, b = 0; gates::CNOTType ct{}; gates::CNOTAncillaPlacement ap{}; int den = 1; bool neg = false; };
inline gates::Gate to_gate(const G& g, const std::string& reg) {
    switch (g.k) {
        case G::SQ: return gates::BasicSingleQubitGate{g.a, g.t};
        case G::CX: return gates::ControlledGate{g.a, gates::BasicSingleQubitGate{g.b, gates::BasicSingleQubitGate::Type::X}, g.ct, g.ap};
        case G::CZ: return gates::ControlledGate{g.a, gates::BasicSingleQubitGate{g.b, gates::BasicSingleQubitGate::Type::Z}, g.ct, g.ap};
        case G::RST: return gates::Reset{reg, g.a};
        case G::ROTZ: return gates::RZ{g.a, Fraction{1, g.den, g.neg}};
    }
    abort();
}
struct GenGates { bool bell = true, cnots = true, tgates = true, reset = true, rot = true, sgates = true; };
inline G gen_gate(pbt::Src& s, uint32_t n, const GenGates& o = {}) {
    using T = gates::BasicSingleQubitGate::Type; G g;
    uint32_t a = s.below(n), b = n > 1 ? (a + 1 + s.below(n - 1)) % n : a;
    static const std::vector<T> paulis{T::H, T::X, T::Y, T::Z}, ss{T::S, T::SDg}, ts{T::T, T::TDg};
    switch (s.weighted({4, o.sgates ? 3u : 0u, o.tgates ? 3u : 0u, o.cnots && n > 1 ? 6u : 0u, o.reset ? 1u : 0u, o.rot ? 1u : 0u})) {
        case 0: g = {G::SQ, s.pick(paulis), a}; break;
        case 1: g = {G::SQ, s.pick(ss), a}; break;
        case 2: g = {G::SQ, s.pick(ts), a}; break;
        case 3: g = {s.chance(1, 3) ? G::CZ : G::CX, {}, a, b}; g.ct = s.pick(o.bell ? std::vector<gates::CNOTType>{gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST, gates::CNOTType::ZX_WITH_MBM_TARGET_FIRST, gates::CNOTType::BELL_BASED} : std::vector<gates::CNOTType>{gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST, gates::CNOTType::ZX_WITH_MBM_TARGET_FIRST});
            g.ap = s.pick(std::vector<gates::CNOTAncillaPlacement>{gates::CNOTAncillaPlacement::USE_DEDICATED_CELL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET}); break;
        case 4: g = {G::RST, {}, a}; break;
        case 5: g = {G::ROTZ, {}, a}; g.den = int(s.pick(std::vector<int>{1, 2, 4})); g.neg = s.chance(1, 3); break;
    }
    return g;
}
// Instructions whose made-up patches are numbered from BASE up, in order of first appearance.
constexpr PatchId BASE = 1000000;
struct Ref {
    std::vector<std::pair<std::string, std::string>> out;   // canonical instruction, canonical dependencies
    PatchId next = BASE; bool local = false, corrections = false, unsupported = false;
    std::set<PatchId> core;
    PatchId fresh() { return next++; }
    static std::string id(PatchId i) { return std::to_string(i); }
    void emit(const std::string& c, std::set<PatchId> dep) { out.push_back({c, pbt::list(dep)}); }
    void op(const std::string& o, PatchId q) { emit("OP " + o + " " + id(q), {q}); }
    void mm(PatchId a, PatchId b, const std::string& p) { emit("MM " + id(a) + ":" + p + "," + id(b) + ":" + p, {a, b}); }
    void m1(PatchId a, const std::string& p) { emit("M1 " + id(a) + " " + p, {a}); }
    void cnot(PatchId c, PatchId t, gates::CNOTType ct, gates::CNOTAncillaPlacement ap, bool corr) {
        if (local || ct == gates::CNOTType::BELL_BASED) {
            if (corr) { unsupported = true; return; }
            PatchId x = fresh(), y = fresh();
            emit("BCNOT " + id(c) + " " + id(t) + " " + id(x) + " " + id(y), {c, t, x, y});
            return;
        }
        PatchId a = fresh();
        std::string near = ap == gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL ? id(c) + ":Z" : ap == gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET ? id(t) + ":X" : "-";
        emit("INIT " + id(a) + " + " + near, {a, c, t});
        if (ct == gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST) { mm(c, a, "Z"); if (corr) op("X", a); mm(a, t, "X"); if (corr) op("Z", c); }
        else { mm(a, t, "X"); if (corr) op("Z", a); mm(c, a, "Z"); if (corr) op("X", t); }
        m1(a, "X");
    }
    void tgate(PatchId q) {
        PatchId m = fresh();
        emit("MAGIC " + id(m) + " " + id(q), {m, q});
        if (local) { cnot(q, m, gates::CNOTType::BELL_BASED, gates::CNOTAncillaPlacement::USE_DEDICATED_CELL, false); m1(m, "Z"); }
        else { mm(q, m, "Z"); m1(m, "X"); }
        op("S", q);
    }
    void gate(const G& g) {
        using T = gates::BasicSingleQubitGate::Type;
        switch (g.k) {
            case G::SQ: switch (g.t) { case T::X: op("X", g.a); break; case T::Y: op("Y", g.a); break; case T::Z: op("Z", g.a); break; case T::H: op("H", g.a); break;
                case T::S: op("S", g.a); break; case T::SDg: op("SDG", g.a); break; default: tgate(g.a); } break;
            case G::CX: cnot(g.a, g.b, g.ct, g.ap, corrections); break;
            case G::CZ: op("H", g.b); cnot(g.a, g.b, g.ct, g.ap, corrections); op("H", g.b); break;
            case G::RST: emit("RESET " + id(g.a), {g.a}); break;
            case G::ROTZ: if (g.den == 1) op("Z", g.a); else if (g.den == 2) op(g.neg ? "SDG" : "S", g.a); else tgate(g.a); break;
        }
    }
    // What an S gate becomes when it is teleported, or done with a catalyst.
    void s_teleported(PatchId q) { PatchId y = fresh(); emit("YSTATE " + id(y) + " " + id(q), {y, q}); mm(y, q, "Z"); m1(y, "X"); op("Z", q); }
    void s_catalytic(PatchId q) {
        PatchId y = fresh(); emit("YSTATE " + id(y) + " " + id(q), {y, q});
        for (int k = 0; k < 2; ++k) { cnot(q, y, gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, false); op("H", y); emit("ROT " + id(y), {y}); }
        emit("YSTATE " + id(y) + " " + id(q), {y});
    }
};
inline std::string deps(const LSInstruction& i) { auto d = i.get_patch_dependencies(); std::set<PatchId> s(d.begin(), d.end()); return pbt::list(s); }
// Renames the patches that are not known to BASE, BASE+1, ... by first appearance. Fails on an id that is reused.
struct Renamer {
    std::set<PatchId> known; std::map<PatchId, PatchId> m; PatchId next = BASE;
    PatchId operator()(PatchId i) { if (known.count(i)) return i; auto it = m.find(i); if (it != m.end()) return it->second; return m[i] = next++; }
};
inline LSInstruction rename(const LSInstruction& in, Renamer& r) {
    LSInstruction i = in;
    std::visit([&](auto& x) {
        using T = std::decay_t<decltype(x)>;
        auto pl = [&](PlaceNexTo& p) { p.target = r(p.target); };
        if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { tsl::ordered_map<PatchId, PauliOperator> m; for (auto& [k, v] : x.observable) m[r(k)] = v; x.observable = m; }
        else if constexpr (std::is_same_v<T, PatchInit>) { x.target = r(x.target); if (x.place_next_to) pl(*x.place_next_to); }
        else if constexpr (std::is_same_v<T, BellPairInit>) { x.side1 = r(x.side1); x.side2 = r(x.side2); pl(x.loc1); pl(x.loc2); }
        else if constexpr (std::is_same_v<T, MagicStateRequest> || std::is_same_v<T, YStateRequest>) { x.target = r(x.target); x.near_patch = r(x.near_patch); }
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) { x.control = r(x.control); x.target = r(x.target); x.side1 = r(x.side1); x.side2 = r(x.side2); }
        else if constexpr (std::is_same_v<T, SinglePatchMeasurement> || std::is_same_v<T, SingleQubitOp> || std::is_same_v<T, RotateSingleCellPatch> || std::is_same_v<T, PatchReset>) x.target = r(x.target);
    }, i.operation);
    tsl::ordered_set<PatchId> cl; for (auto c : i.clients) cl.insert(r(c)); i.clients = cl;
    return i;
}
struct VecGates : GateStream {
    std::vector<gates::Gate> v; size_t at = 0; Qreg reg;
    gates::Gate get_next_gate() override { return v.at(at++); }
    bool has_next_gate() const override { return at < v.size(); }
    const Qreg& get_qreg() const override { return reg; }
};
struct VecLS : LSInstructionStream {
    std::vector<LSInstruction> v; size_t at = 0; tsl::ordered_set<PatchId> core;
    LSInstruction get_next_instruction() override { return v.at(at++); }
    bool has_next_instruction() const override { return at < v.size(); }
    const tsl::ordered_set<PatchId>& core_qubits() const override { return core; }
};
template<class S> std::vector<LSInstruction> drain(S& s, size_t limit = 1000000) { std::vector<LSInstruction> r; while (s.has_next_instruction()) { r.push_back(s.get_next_instruction()); if (r.size() > limit) throw pbt::Failure("the stream does not end"); } return r; }
inline std::string show(const G& g) { return canon(to_gate(g, "q")); }
// Compares what the code produced with the reference, up to the numbering of made-up patches.
inline void compare(pbt::Case& c, const std::vector<LSInstruction>& got, const Ref& ref, const std::set<PatchId>& known, const std::string& what) {
    Renamer r; r.known = known;
    for (size_t i = 0; i < got.size() || i < ref.out.size(); ++i) {
        std::string g = "(nothing)", d; LSInstruction x;
        if (i < got.size()) { x = rename(got[i], r); g = canon(x); d = deps(x); }
        std::string e = i < ref.out.size() ? ref.out[i].first : "(nothing)", ed = i < ref.out.size() ? ref.out[i].second : "";
        if (g != e || d != ed) c.fail(what + ", instruction " + std::to_string(i) + ": got " + g + " depending on {" + d + "}, expected " + e + " depending on {" + ed + "} (made-up patches renamed from " + std::to_string(BASE) + " up)");
    }
}
}
