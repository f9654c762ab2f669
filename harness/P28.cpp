#include "comp.hpp"
#include "tableau.hpp"
using namespace vf;
// The instructions that a computation carried out, in the order of its slices, implement the circuit up to Paulis: both are run on halves
// of Bell pairs as stabilizer groups. Magic states are taken to be |+>, with which a T gadget followed by its S acts as S.
struct Full {};
static bool ready_y(const Tableau& t, int q) { auto v = t.on(1ull << q); return v.size() == 1 && v[0].x && v[0].z; }
static void play(pbt::Case& c, const std::vector<LSInstruction>& v, uint32_t n, Tableau& t, bool readout_as_known) {
    std::map<PatchId, int> q; for (uint32_t i = 0; i < n; ++i) q[i] = int(i); std::map<PatchId, char> fix; std::set<PatchId> ancilla, ystate, cnots;
    for (auto& i : v) if (auto* p = std::get_if<PatchInit>(&i.operation)) ancilla.insert(p->target);
    if (readout_as_known) for (auto& i : v) if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& [k, p] : m->observable) if (ancilla.count(k) && !fix.count(k)) fix[k] = p == PauliOperator::Z ? 'C' : 'T';
    auto at = [&](PatchId i) { auto it = q.find(i); if (it == q.end()) c.fail("an instruction acts on patch " + std::to_string(i) + ", which does not exist then"); return it->second; };
    auto add = [&](PatchId i, char b) { if (t.n >= 64) throw Full(); if (q.count(i)) c.fail("patch " + std::to_string(i) + " is made while it exists"); q[i] = t.add(b); };
    for (auto& i : v) {
        if (auto* x = std::get_if<PatchInit>(&i.operation)) { bool plus = x->state == PatchInit::InitializeableStates::Plus; if (readout_as_known && fix[x->target] == 'T') plus = false; add(x->target, plus ? 'X' : 'Z'); }
        else if (auto* x = std::get_if<MagicStateRequest>(&i.operation)) add(x->target, 'X');
        else if (auto* x = std::get_if<YStateRequest>(&i.operation)) { if (!q.count(x->target)) { add(x->target, 'Y'); ystate.insert(x->target); } else { if (readout_as_known) c.check(ready_y(t, at(x->target)), "the state " + std::to_string(x->target) + " given back is not a Y state"); q.erase(x->target); } }
        else if (auto* x = std::get_if<MultiPatchMeasurement>(&i.operation)) { Tableau::Row p; for (auto& [k, o] : x->observable) { uint64_t b = 1ull << at(k); if (o != PauliOperator::Z) p.x |= b; if (o != PauliOperator::X) p.z |= b; } t.measure(p); }
        else if (auto* x = std::get_if<SinglePatchMeasurement>(&i.operation)) { char b = pauli(x->observable)[0]; if (readout_as_known && ancilla.count(x->target) && fix[x->target] == 'C') b = 'Z'; t.measure1(at(x->target), b); q.erase(x->target); }
        else if (auto* x = std::get_if<BellBasedCNOT>(&i.operation)) { if (cnots.insert(x->side1).second) t.cx(at(x->control), at(x->target)); }
        else if (auto* x = std::get_if<SingleQubitOp>(&i.operation)) { int k = at(x->target); if (x->op == SingleQubitOp::Operator::H) t.h(k); else if (x->op == SingleQubitOp::Operator::S) t.s(k); }
        else if (auto* x = std::get_if<PatchReset>(&i.operation)) t.reset(at(x->target));
        else if (auto* x = std::get_if<RotateSingleCellPatch>(&i.operation)) at(x->target);
        else if (!std::holds_alternative<BusyRegion>(i.operation)) c.fail("unexpected instruction " + canon(i));
    }
    c.eq(q.size(), size_t(n), "patches left at the end that the computation uses");
}
static void go(pbt::Src& s, pbt::Case& c, Opt o) {
    o.plain_compact = true; Comp k = gen_circuit(s, c, o); uint32_t n = k.core.size(); Run r = run(k, 150 + 10 * k.prog.size());
    c.label(mode_name(k.mode)); c.label(k.layout_name.substr(0, k.layout_name.find(' '))); if (r.error || r.capped) return c.label("not completed");
    std::vector<LSInstruction> v; size_t spread = 0; for (auto& x : r.steps) { spread += !x.applied.empty(); v.insert(v.end(), x.applied.begin(), x.applied.end()); } v.insert(v.end(), r.rest.begin(), r.rest.end());
    auto fresh = [&] { Tableau t; for (uint32_t i = 0; i < 2 * n; ++i) t.add('Z'); for (uint32_t i = 0; i < n; ++i) { t.h(i); t.cx(i, n + i); } return t; };
    Tableau want = fresh(), got = fresh(), got2 = fresh(); int cnots = 0, two = 0;
    for (auto& g : k.gates) { using T = gates::BasicSingleQubitGate::Type;
        switch (g.k) { case G::SQ: if (g.t == T::H) want.h(g.a), ++two; else if (g.t == T::S || g.t == T::SDg || g.t == T::T || g.t == T::TDg) want.s(g.a), ++two; break;
            case G::CX: want.cx(g.a, g.b); ++cnots; break; case G::CZ: want.h(g.b); want.cx(g.a, g.b); want.h(g.b); ++cnots; break; case G::RST: want.reset(g.a); break; case G::ROTZ: if (g.den > 1) want.s(g.a), ++two; break; } }
    uint64_t keep = (1ull << (2 * n)) - 1; c.nontrivial(cnots >= 1 && two >= 1); c.label_if(k.local, "local"); c.label_if(!k.twists, "catalytic S gates"); c.label_if(cnots >= 4, "four CNOTs or more");
    try { play(c, v, n, got, false); if (got.on(keep) == want.on(keep)) return c.label("equal"); play(c, v, n, got2, true); } catch (Full&) { return c.label("too many patches to follow"); }
    if (got2.on(keep) == want.on(keep)) { c.label("equal but for the known finding"); return c.known("cnot-ancilla-readout"); }
    std::string t; for (auto& x : r.steps) { for (auto& i : x.applied) t += canon(i) + "; "; t += "\n"; } c.fail("what the slices carry out does not implement the circuit (up to Paulis):\n" + t);
}
static void circuits(pbt::Src& s, pbt::Case& c) { Opt o; o.max_qubits = 5; o.max_gates = 8; go(s, c, o); }
static void longer(pbt::Src& s, pbt::Case& c) { Opt o; o.max_qubits = 8; o.max_gates = 20; go(s, c, o); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = true; o.max_qubits = 10; o.max_gates = 20; go(s, c, o); }
PBT_MAIN("P28", "a CNOT and another Clifford that is not a Pauli", {{"circuits", circuits, 5000, 150000}, {"longer circuits", longer, 1500, 50000, 90}, {"edpc pipeline", edpc, 800, 25000, 90}})
