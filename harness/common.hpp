// Helpers shared by the harnesses: printing, reference types, and access to liblsqecc.
#pragma once
#include "pbt.hpp"
#include <lsqecc/gates/gates.hpp>
#include <lsqecc/gates/parse_gates.hpp>
#include <lsqecc/ls_instructions/ls_instructions.hpp>
#include <lsqecc/ls_instructions/ls_instruction_stream.hpp>
#include <cassert>
namespace vf {
using namespace lsqecc;

// A canonical, parser- and printer-independent text of a gate.
inline std::string sq_name(gates::BasicSingleQubitGate::Type t) {
    using T = gates::BasicSingleQubitGate::Type;
    switch (t) { case T::X: return "X"; case T::Y: return "Y"; case T::Z: return "Z"; case T::S: return "S"; case T::T: return "T"; case T::H: return "H"; case T::SDg: return "SDG"; case T::TDg: return "TDG"; }
    return "?" + std::to_string(int(t));
}
inline std::string ct_name(gates::CNOTType t) {
    switch (t) { case gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST: return "CF"; case gates::CNOTType::ZX_WITH_MBM_TARGET_FIRST: return "TF"; case gates::CNOTType::BELL_BASED: return "BELL"; }
    return "?";
}
inline std::string ap_name(gates::CNOTAncillaPlacement t) {
    switch (t) { case gates::CNOTAncillaPlacement::USE_DEDICATED_CELL: return "FREE"; case gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL: return "NC"; case gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET: return "NT"; }
    return "?";
}
// Value of a fraction of pi in lowest terms, sign in front.
inline std::string angle(const Fraction& f) {
    __int128 n = f.num, d = f.den; if (f.is_negative) n = -n;
    if (d == 0) return "undef";
    if (d < 0) { n = -n; d = -d; }
    auto a = n < 0 ? -n : n, b = d; while (b) { auto t = a % b; a = b; b = t; }
    if (a) { n /= a; d /= a; }
    return std::to_string((long long)n) + "/" + std::to_string((long long)d);
}
inline std::string canon(const gates::SingleQubitGate& g, std::string& target) {
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) { target = std::to_string(b->target_qubit); return sq_name(b->gate_type); }
    auto& r = std::get<gates::RZ>(g); target = std::to_string(r.target_qubit); return "RZ(" + angle(r.pi_fraction) + ")";
}
inline std::string canon(const gates::Gate& g) {
    std::string t;
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) { auto n = canon(gates::SingleQubitGate{*b}, t); return n + " " + t; }
    if (auto* b = std::get_if<gates::RZ>(&g)) { auto n = canon(gates::SingleQubitGate{*b}, t); return n + " " + t; }
    if (auto* c = std::get_if<gates::ControlledGate>(&g)) { auto n = canon(c->target_gate, t); return "C" + n + " c" + std::to_string(c->control_qubit) + " t" + t + " " + ct_name(c->cnot_type) + " " + ap_name(c->cnot_ancilla_placement); }
    auto& r = std::get<gates::Reset>(g); return "RESET " + r.register_name + " " + std::to_string(r.target_qubit);
}

inline std::string pauli(PauliOperator p) { switch (p) { case PauliOperator::I: return "I"; case PauliOperator::X: return "X"; case PauliOperator::Y: return "Y"; case PauliOperator::Z: return "Z"; } return "?"; }
inline std::string sqop(SingleQubitOp::Operator o) {
    using O = SingleQubitOp::Operator;
    switch (o) { case O::X: return "X"; case O::Y: return "Y"; case O::Z: return "Z"; case O::H: return "H"; case O::S: return "S"; }
    return "?" + std::to_string(int(o));
}
inline std::string near(const std::optional<PlaceNexTo>& p) { return p ? std::to_string(p->target) + ":" + pauli(p->op) : std::string("-"); }
// A canonical, parser- and printer-independent text of an instruction.
inline std::string canon(const LSInstruction& i, bool dagger = true) {
    std::ostringstream o;
    std::visit([&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, DeclareLogicalQubitPatches>) o << "DECL " << pbt::list(x.patch_ids);
        else if constexpr (std::is_same_v<T, SinglePatchMeasurement>) o << "M1 " << x.target << " " << (x.is_negative ? "-" : "") << pauli(x.observable);
        else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { o << "MM" << (x.is_negative ? "- " : " "); bool f = true; for (auto& [k, v] : x.observable) { o << (f ? "" : ",") << k << ":" << pauli(v); f = false; } }
        else if constexpr (std::is_same_v<T, PatchInit>) o << "INIT " << x.target << " " << (x.state == PatchInit::InitializeableStates::Zero ? "0" : x.state == PatchInit::InitializeableStates::Plus ? "+" : "?") << " " << near(x.place_next_to);
        else if constexpr (std::is_same_v<T, BellPairInit>) o << "BELL " << x.side1 << " " << x.side2 << " " << near(x.loc1) << " " << near(x.loc2);
        else if constexpr (std::is_same_v<T, MagicStateRequest>) o << "MAGIC " << x.target << " " << x.near_patch;
        else if constexpr (std::is_same_v<T, YStateRequest>) o << "YSTATE " << x.target << " " << x.near_patch;
        else if constexpr (std::is_same_v<T, SingleQubitOp>) o << "OP " << sqop(x.op) << (x.is_dagger && dagger ? "DG" : "") << " " << x.target;
        else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) o << "ROT " << x.target;
        else if constexpr (std::is_same_v<T, BusyRegion>) o << "BUSY " << x.region.cells.size() << " " << x.steps_to_clear;
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) o << "BCNOT " << x.control << " " << x.target << " " << x.side1 << " " << x.side2;
        else if constexpr (std::is_same_v<T, PatchReset>) o << "RESET " << x.target;
        else o << "?";
    }, i.operation);
    return o.str();
}
}
