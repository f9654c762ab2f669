// Gates as maps on operators of a few qubits, written from the usual matrices. Qubit i is bit i of the index.
#pragma once
#include "common.hpp"
#include <complex>
namespace vf {
using Cx = std::complex<double>; using M2 = std::array<Cx, 4>;
struct Op { int n; size_t d; std::vector<Cx> m; Op(int n) : n(n), d(size_t(1) << n), m(d * d) {} Cx& at(size_t r, size_t c) { return m[r * d + c]; } };
inline M2 mat(const gates::SingleQubitGate& g) {
    const double h = std::sqrt(0.5); const Cx i(0, 1); using T = gates::BasicSingleQubitGate::Type;
    if (auto* r = std::get_if<gates::RZ>(&g)) { double t = M_PI * double(r->pi_fraction.num) / double(r->pi_fraction.den) * (r->pi_fraction.is_negative ? -1 : 1) / 2; return {std::polar(1.0, -t), 0, 0, std::polar(1.0, t)}; }
    switch (std::get<gates::BasicSingleQubitGate>(g).gate_type) { case T::X: return {0, 1, 1, 0}; case T::Y: return {0, -i, i, 0}; case T::Z: return {1, 0, 0, -1}; case T::S: return {1, 0, 0, i}; case T::SDg: return {1, 0, 0, -i}; case T::T: return {1, 0, 0, std::polar(1.0, M_PI / 4)}; case T::TDg: return {1, 0, 0, std::polar(1.0, -M_PI / 4)}; case T::H: return {h, h, h, -h}; }
    abort();
}
inline uint32_t target_of(const gates::SingleQubitGate& g) { return std::visit([](auto& x) { return uint32_t(x.target_qubit); }, g); }
// Multiplies by u on qubit t (where bit c is set, if c >= 0) from the left, or by its adjoint from the right.
inline void left(Op& o, const M2& u, int t, int c = -1) { size_t b = size_t(1) << t; for (size_t r = 0; r < o.d; ++r) if (!(r & b) && (c < 0 || (r >> c & 1))) for (size_t k = 0; k < o.d; ++k) { Cx x = o.at(r, k), y = o.at(r | b, k); o.at(r, k) = u[0] * x + u[1] * y; o.at(r | b, k) = u[2] * x + u[3] * y; } }
inline void right_dagger(Op& o, const M2& u, int t, int c = -1) { size_t b = size_t(1) << t; for (size_t k = 0; k < o.d; ++k) if (!(k & b) && (c < 0 || (k >> c & 1))) for (size_t r = 0; r < o.d; ++r) { Cx x = o.at(r, k), y = o.at(r, k | b); o.at(r, k) = x * std::conj(u[0]) + y * std::conj(u[1]); o.at(r, k | b) = x * std::conj(u[2]) + y * std::conj(u[3]); } }
inline void act(Op& o, const gates::Gate& g) {
    auto both = [&](const M2& u, int t, int c) { left(o, u, t, c); right_dagger(o, u, t, c); };
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) both(mat(*b), b->target_qubit, -1);
    else if (auto* z = std::get_if<gates::RZ>(&g)) both(mat(*z), z->target_qubit, -1);
    else if (auto* k = std::get_if<gates::ControlledGate>(&g)) both(mat(k->target_gate), target_of(k->target_gate), k->control_qubit);
    else { int t = std::get<gates::Reset>(g).target_qubit; Op a = o, b = o; M2 k0{1, 0, 0, 0}, k1{0, 1, 0, 0}; left(a, k0, t); right_dagger(a, k0, t); left(b, k1, t); right_dagger(b, k1, t); for (size_t i = 0; i < o.m.size(); ++i) o.m[i] = a.m[i] + b.m[i]; }
}
inline double distance(const Op& a, const Op& b) { double d = 0; for (size_t i = 0; i < a.m.size(); ++i) d = std::max(d, std::abs(a.m[i] - b.m[i])); return d; }
inline Op random_op(pbt::Src& s, int n) { Op o(n); uint64_t x = s.below(1u << 30) * 2654435761u + 12345; for (auto& v : o.m) { auto r = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return double(x % 20001) / 10000 - 1; }; double a = r(); v = Cx(a, r()); } return o; }
// The set of qubits a gate acts on.
inline std::set<uint32_t> acts_on(const gates::Gate& g) {
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) return {uint32_t(b->target_qubit)}; if (auto* z = std::get_if<gates::RZ>(&g)) return {uint32_t(z->target_qubit)};
    if (auto* k = std::get_if<gates::ControlledGate>(&g)) return {uint32_t(k->control_qubit), target_of(k->target_gate)}; return {uint32_t(std::get<gates::Reset>(g).target_qubit)};
}
inline gates::SingleQubitGate gen_single(pbt::Src& s, uint32_t q, bool controlled) {
    using T = gates::BasicSingleQubitGate::Type; static const std::vector<T> all{T::X, T::Z, T::H, T::S, T::T, T::Y, T::SDg, T::TDg};
    if (s.chance(1, 4)) return gates::RZ{q, Fraction{1 + int64_t(s.below(7)), 1 + int64_t(s.below(9)), s.chance(1, 3)}};
    return gates::BasicSingleQubitGate{q, controlled && s.chance(2, 3) ? (s.chance(1, 2) ? T::X : T::Z) : s.pick(all)};
}
inline gates::Gate gen_any_gate(pbt::Src& s, uint32_t n) {
    uint32_t a = s.below(n), b = n > 1 ? (a + 1 + s.below(n - 1)) % n : a;
    static const std::vector<gates::CNOTType> ct{gates::CNOTType::ZX_WITH_MBM_CONTROL_FIRST, gates::CNOTType::ZX_WITH_MBM_TARGET_FIRST, gates::CNOTType::BELL_BASED}; static const std::vector<gates::CNOTAncillaPlacement> ap{gates::CNOTAncillaPlacement::USE_DEDICATED_CELL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_CONTROL, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET};
    switch (s.weighted({3, n > 1 ? 4u : 0u, 1})) { case 0: { auto g = gen_single(s, a, false); if (auto* z = std::get_if<gates::RZ>(&g)) return *z; return std::get<gates::BasicSingleQubitGate>(g); } case 1: { auto t = gen_single(s, b, true); auto c = s.pick(ct); return gates::ControlledGate{a, t, c, s.pick(ap)}; } default: return gates::Reset{"q", a}; }
}
}
