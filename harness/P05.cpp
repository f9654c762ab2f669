#include "lower.hpp"
#include "tableau.hpp"
using namespace vf;
static std::vector<G> gen_gates(pbt::Src& s, uint32_t n, int max, const GenGates& o, bool small = false) { std::vector<G> v; int k = 1 + (small ? s.below(max) : s.upto(max)); for (int i = 0; i < k; ++i) v.push_back(gen_gate(s, n, o)); return v; }
struct Lowered { std::vector<LSInstruction> v; PatchId start; bool threw = false; std::string what; };
static Lowered lower(const std::vector<G>& gs, uint32_t n, bool local, bool corr, PatchId start) {
    VecGates in; in.reg = {"reg", n}; for (auto& g : gs) in.v.push_back(to_gate(g, "reg"));
    IdGenerator ids; ids.set_start(start);
    Lowered r; r.start = start;
    try {
        LSInstructionStreamFromGateStream st(in, corr ? CNOTCorrectionMode::ALWAYS : CNOTCorrectionMode::NEVER, ids, local);
        if (st.core_qubits().size() != n) throw pbt::Failure("core qubits: " + pbt::list(st.core_qubits()));
        uint32_t k = 0; for (auto q : st.core_qubits()) if (q != k++) throw pbt::Failure("core qubits: " + pbt::list(st.core_qubits()));
        r.v = drain(st);
    } catch (const pbt::Failure&) { throw; } catch (const std::exception& e) { r.threw = true; r.what = e.what(); }
    return r;
}
static void structure(pbt::Src& s, pbt::Case& c) {
    uint32_t n = 1 + s.upto(9); if (s.chance(1, 100)) n = 200 + s.below(200); bool local = s.chance(1, 3), corr = s.chance(1, 4); PatchId start = n + (s.chance(1, 3) ? s.below(1000) : 0);
    GenGates o; if (corr && !s.chance(1, 4)) { o.bell = false; if (local) { o.cnots = false; } }
    auto gs = gen_gates(s, n, 14, o);
    c.desc << n << " qubits" << (local ? " local" : "") << (corr ? " corrections" : "") << " ids from " << start << "\n"; for (auto& g : gs) c.desc << show(g) << "\n";
    Ref ref; ref.local = local; ref.corrections = corr; std::set<PatchId> known; for (uint32_t i = 0; i < n; ++i) known.insert(i);
    for (auto& g : gs) ref.gate(g);
    auto r = lower(gs, n, local, corr, start);
    c.nontrivial(gs.size() >= 2); c.label_if(local, "local"); c.label_if(corr, "corrections"); for (auto& g : gs) c.label(g.k == G::SQ ? sq_name(g.t) : g.k == G::CX ? "CX" : g.k == G::CZ ? "CZ" : g.k == G::RST ? "RESET" : "RZ");
    if (ref.unsupported) { c.label("refused"); c.check(r.threw, "Pauli corrections of a Bell based CNOT were dropped instead of refused"); return; }
    c.check(!r.threw, "refused: " + r.what);
    compare(c, r.v, ref, known, "lowering");
    std::set<PatchId> made; // every patch the lowering makes up is its own
    for (auto& i : r.v) { c.eq(i.wait_at_most_for, LSInstruction::DEFAULT_MAX_WAIT, "how long an instruction may wait");
        auto fresh = [&](PatchId p) { c.check(p >= start, "made-up patch " + std::to_string(p) + " below the first free id"); c.check(made.insert(p).second, "made-up patch used twice: " + std::to_string(p)); };
        if (auto* x = std::get_if<PatchInit>(&i.operation)) fresh(x->target); if (auto* x = std::get_if<MagicStateRequest>(&i.operation)) fresh(x->target); if (auto* x = std::get_if<BellBasedCNOT>(&i.operation)) { fresh(x->side1); fresh(x->side2); } }
}
static void refused(pbt::Src& s, pbt::Case& c) {
    uint32_t n = 2 + s.below(4); GenGates o; o.reset = false; auto gs = gen_gates(s, n, 5, o);
    VecGates in; in.reg = {"reg", n}; for (auto& g : gs) in.v.push_back(to_gate(g, "reg"));
    gates::Gate bad; std::string what; uint32_t a = s.below(n), b = (a + 1) % n;
    using T = gates::BasicSingleQubitGate::Type;
    switch (s.below(4)) {
        case 0: { auto t = s.pick(std::vector<T>{T::Y, T::S, T::T, T::H, T::SDg, T::TDg}); bad = gates::ControlledGate{a, gates::BasicSingleQubitGate{b, t}, gates::ControlledGate::default_cnot_type, gates::CNOTAncillaPlacement::USE_DEDICATED_CELL}; what = "controlled " + sq_name(t); break; }
        case 1: { int d = int(s.pick(std::vector<int>{3, 5, 6, 7, 8, 16, 1024})); bad = gates::RZ{a, Fraction{1, d, s.chance(1, 2)}}; what = "rz pi/" + std::to_string(d); break; }
        case 2: bad = gates::Reset{"other", a}; what = "reset of another register"; break;
        case 3: bad = gates::ControlledGate{a, gates::RZ{b, Fraction{1, 4}}, gates::ControlledGate::default_cnot_type, gates::CNOTAncillaPlacement::USE_DEDICATED_CELL}; what = "undecomposed crz"; break;
    }
    in.v.insert(in.v.begin() + s.below(in.v.size() + 1), bad);
    c.desc << what << " among " << gs.size() << " gates"; c.label(what); c.nontrivial();
    IdGenerator ids; ids.set_start(n); bool threw = false;
    try { LSInstructionStreamFromGateStream st(in, CNOTCorrectionMode::NEVER, ids, false); drain(st); } catch (const std::exception&) { threw = true; }
    c.check(threw, "a gate that has no lowering was dropped or lowered: " + what);
}
// The instructions implement the circuit, up to Paulis: both are run on halves of Bell pairs as stabilizer groups.
// Magic states are taken to be Y states, which makes a T gate an S gate; the S after a magic state's measurement is its
// conditional fix-up and is skipped.
static void run(pbt::Case& c, const std::vector<LSInstruction>& v, uint32_t n, Tableau& t, bool readout_as_known) {
    std::map<PatchId, int> q; for (uint32_t i = 0; i < n; ++i) q[i] = int(i);
    std::set<PatchId> magic; std::map<PatchId, char> first; std::map<PatchId, char> fix; PatchId skip_s = ~0u;
    if (readout_as_known) // the known finding: a CNOT's ancilla has the wrong state (target first), or is read out in the wrong basis (control first)
        for (auto& i : v) if (auto* m = std::get_if<MultiPatchMeasurement>(&i.operation)) for (auto& [k, p] : m->observable) if (k >= n && !fix.count(k)) fix[k] = p == PauliOperator::Z ? 'C' : 'T';
    std::set<PatchId> ancilla;
    auto at = [&](PatchId i) { auto it = q.find(i); if (it == q.end()) c.fail("an instruction acts on patch " + std::to_string(i) + ", which does not exist then"); return it->second; };
    for (auto& i : v) {
        if (auto* x = std::get_if<PatchInit>(&i.operation)) { ancilla.insert(x->target); bool plus = x->state == PatchInit::InitializeableStates::Plus; if (readout_as_known && fix[x->target] == 'T') plus = false; q[x->target] = t.add(plus ? 'X' : 'Z'); }
        else if (auto* x = std::get_if<MagicStateRequest>(&i.operation)) { q[x->target] = t.add('Y'); magic.insert(x->target); }
        else if (auto* x = std::get_if<MultiPatchMeasurement>(&i.operation)) { Tableau::Row p; for (auto& [k, o] : x->observable) { uint64_t b = 1ull << at(k); if (o != PauliOperator::Z) p.x |= b; if (o != PauliOperator::X) p.z |= b; } t.measure(p); }
        else if (auto* x = std::get_if<SinglePatchMeasurement>(&i.operation)) { char b = pauli(x->observable)[0]; if (readout_as_known && ancilla.count(x->target) && fix[x->target] == 'C') b = 'Z'; t.measure1(at(x->target), b); if (magic.count(x->target)) skip_s = 1; q.erase(x->target); }
        else if (auto* x = std::get_if<BellBasedCNOT>(&i.operation)) t.cx(at(x->control), at(x->target));
        else if (auto* x = std::get_if<SingleQubitOp>(&i.operation)) { int k = at(x->target); if (x->op == SingleQubitOp::Operator::H) t.h(k); else if (x->op == SingleQubitOp::Operator::S) { if (skip_s == 1) skip_s = ~0u; else t.s(k); } }
        else if (auto* x = std::get_if<PatchReset>(&i.operation)) t.reset(at(x->target));
        else c.fail("unexpected instruction " + canon(i));
    }
    if (q.size() != n) c.fail("a made-up patch is still there at the end");
}
static void semantics(pbt::Src& s, pbt::Case& c) {
    uint32_t n = 1 + s.below(5); const bool small = true; bool local = s.chance(1, 3), corr = !local && s.chance(1, 4); GenGates o; o.bell = !corr;
    auto gs = gen_gates(s, n, 8, o, small);
    if (s.chance(1, 2)) for (auto& g : gs) if (g.k == G::CX || g.k == G::CZ) { if (!corr) g.ct = gates::CNOTType::BELL_BASED; }
    c.desc << n << " qubits" << (local ? " local" : "") << (corr ? " corrections" : "") << "\n"; for (auto& g : gs) c.desc << show(g) << "\n";
    auto r = lower(gs, n, local, corr, n); c.check(!r.threw, "refused: " + r.what);
    c.nontrivial(gs.size() >= 2);
    auto fresh = [&] { Tableau t; for (uint32_t i = 0; i < 2 * n; ++i) t.add('Z'); for (uint32_t i = 0; i < n; ++i) { t.h(i); t.cx(i, n + i); } return t; };
    Tableau want = fresh(), got = fresh(), got2 = fresh();
    for (auto& g : gs) { using T = gates::BasicSingleQubitGate::Type;
        switch (g.k) { case G::SQ: if (g.t == T::H) want.h(g.a); else if (g.t == T::S || g.t == T::SDg || g.t == T::T || g.t == T::TDg) want.s(g.a); break;
            case G::CX: want.cx(g.a, g.b); break; case G::CZ: want.h(g.b); want.cx(g.a, g.b); want.h(g.b); break; case G::RST: want.reset(g.a); break; case G::ROTZ: if (g.den > 1) want.s(g.a); break; } }
    uint64_t keep = (1ull << (2 * n)) - 1;
    run(c, r.v, n, got, false);
    if (got.on(keep) == want.on(keep)) { c.label("equal"); return; }
    run(c, r.v, n, got2, true);
    if (got2.on(keep) == want.on(keep)) { c.label("equal but for the known finding"); c.known("cnot-ancilla-readout"); return; }
    std::string t; for (auto& i : r.v) t += canon(i) + "\n";
    c.fail("the instructions do not implement the circuit (up to Paulis):\n" + t);
}
PBT_MAIN("P05", "gate sequences over every supported gate, CNOT type, ancilla placement, local or not, corrections or not; compared with a reference lowering and, as stabilizer groups on Bell pairs, with the circuit itself; non-trivial: two or more gates, or an unsupported gate among supported ones",
    {{"structure", structure, 60000, 1500000}, {"refused", refused, 10000, 200000}, {"semantics", semantics, 40000, 1000000}})
