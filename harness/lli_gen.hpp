// Generates LLI instructions: their text, and what they mean.
#pragma once
#include "common.hpp"
namespace vf {
struct Lli { std::string text, numeric, canon; std::set<PatchId> acts_on; LSInstruction instr; };
inline PatchId gen_id(pbt::Src& s) {
    switch (s.weighted({8, 2, 1})) { case 0: return s.below(30); case 1: return s.below(5000); default: return s.pick(std::vector<PatchId>{99, 100, 65535, 65536, 1000000, 2147483647u, 2147483648u, 4294967295u}); }
}
// Every instruction LLI can express. reachable: only the ones the parser has always understood by name or number.
inline Lli gen_lli(pbt::Src& s) {
    auto id = [](PatchId i) { return std::to_string(i); };
    static const std::vector<PauliOperator> xyz{PauliOperator::X, PauliOperator::Y, PauliOperator::Z}, xz{PauliOperator::X, PauliOperator::Z};
    Lli r;
    auto set = [&](const std::string& name, const std::string& num, const std::string& args) { r.text = name + " " + args; r.numeric = num.empty() ? "" : num + " " + args; };
    PatchId a = gen_id(s);
    switch (s.below(13)) {
        case 0: { auto p = s.pick(xyz); set("MeasureSinglePatch", "1", id(a) + " " + pauli(p)); r.canon = "M1 " + id(a) + " " + pauli(p); r.acts_on = {a}; r.instr.operation = SinglePatchMeasurement{a, p, false}; break; }
        case 1: {
            std::vector<PatchId> ids; tsl::ordered_map<PatchId, PauliOperator> m; std::string t; int n = 1 + s.below(4); if (s.chance(1, 40)) n = s.below(80);
            for (int i = 0; i < n || !i; ++i) { PatchId x = i ? gen_id(s) : a; if (m.count(x)) continue; auto p = s.pick(xyz); m[x] = p; t += (t.empty() ? "" : ",") + id(x) + ":" + pauli(p); r.acts_on.insert(x); }
            set("MultiBodyMeasure", "2", t); r.canon = "MM " + t; r.instr.operation = MultiPatchMeasurement{m, false}; break; }
        case 2: case 3: {
            bool plus = s.chance(1, 2), nt = s.chance(1, 2); std::optional<PlaceNexTo> pl;
            if (nt) pl = PlaceNexTo{gen_id(s), s.pick(xz)};
            std::string st = plus ? "|+>" : "|0>"; if (s.chance(1, 3)) st = plus ? "+" : "0";
            set("Init", "0", id(a) + " " + st + (pl ? " " + id(pl->target) + ":" + pauli(pl->op) : ""));
            r.canon = "INIT " + id(a) + " " + (plus ? "+" : "0") + " " + near(pl); r.acts_on = {a}; if (pl) r.acts_on.insert(pl->target);
            r.instr.operation = PatchInit{a, plus ? PatchInit::InitializeableStates::Plus : PatchInit::InitializeableStates::Zero, pl}; break; }
        case 4: { PatchId n = gen_id(s); set("RequestMagicState", "3", id(a) + " " + id(n)); r.canon = "MAGIC " + id(a) + " " + id(n); r.acts_on = {a, n}; r.instr.operation = MagicStateRequest{a, n}; break; }
        case 5: { PatchId n = gen_id(s); set("RequestYState", "9", id(a) + " " + id(n)); r.canon = "YSTATE " + id(a) + " " + id(n); r.acts_on = {a}; r.instr.operation = YStateRequest{a, n}; break; }
        case 6: { auto p = s.pick(xyz); set("LogicalPauli", "4", id(a) + " " + pauli(p)); r.canon = "OP " + pauli(p) + " " + id(a); r.acts_on = {a}; r.instr.operation = SingleQubitOp{a, static_cast<SingleQubitOp::Operator>(p)}; break; }
        case 7: set("HGate", "5", id(a)); r.canon = "OP H " + id(a); r.acts_on = {a}; r.instr.operation = SingleQubitOp{a, SingleQubitOp::Operator::H}; break;
        case 8: set("SGate", "6", id(a)); r.canon = "OP S " + id(a); r.acts_on = {a}; r.instr.operation = SingleQubitOp{a, SingleQubitOp::Operator::S}; break;
        case 9: set("RotateSingleCellPatch", "7", id(a)); r.canon = "ROT " + id(a); r.acts_on = {a}; r.instr.operation = RotateSingleCellPatch{a}; break;
        case 10: {
            PatchId b = gen_id(s), c = gen_id(s), d = gen_id(s); auto p = s.pick(xz), q = s.pick(xz);
            set("BellPairInit", "8", id(a) + " " + id(b) + " " + id(c) + ":" + pauli(p) + "," + id(d) + ":" + pauli(q));
            r.canon = "BELL " + id(a) + " " + id(b) + " " + id(c) + ":" + pauli(p) + " " + id(d) + ":" + pauli(q); r.acts_on = {a, b, c, d};
            r.instr.operation = BellPairInit{a, b, {c, p}, {d, q}}; break; }
        case 11: { PatchId b = gen_id(s), c = gen_id(s), d = gen_id(s); set("BellBasedCNOT", "10", id(a) + " " + id(b) + " " + id(c) + " " + id(d)); r.canon = "BCNOT " + id(a) + " " + id(b) + " " + id(c) + " " + id(d); r.acts_on = {a, b, c, d};
            r.instr.operation = BellBasedCNOT{a, b, c, d}; break; }
        case 12: set("Reset", "", id(a)); r.canon = "RESET " + id(a); r.acts_on = {a}; r.instr.operation = PatchReset{a}; break;
    }
    return r;
}
inline std::string gen_declaration(pbt::Src& s, std::vector<PatchId>& ids) {
    int n = 1 + s.upto(12); std::set<PatchId> seen; std::string t = "DeclareLogicalQubitPatches ";
    for (int i = 0; i < n; ++i) { PatchId x = gen_id(s); if (seen.insert(x).second) ids.push_back(x); else if (i) { } t += (i ? "," : "") + std::to_string(x); }
    return t;
}
}
