#include "channel.hpp"
#include "comp.hpp"
#include <lsqecc/dag/domain_dags.hpp>
using namespace vf;
using GT = dag::CommutationTrait<gates::Gate>; using IT = dag::CommutationTrait<LSInstruction>;
static void gate_pairs(pbt::Src& s, pbt::Case& c) {
    int n = 2 + s.below(3); auto a = gen_any_gate(s, n), b = gen_any_gate(s, n); c.desc << canon(a) << "\n" << canon(b) << "\n";
    for (auto* g : {&a, &b}) { auto q = gates::get_operating_qubits(*g); c.check(std::set<uint32_t>(q.begin(), q.end()) == acts_on(*g), canon(*g) + " is said to act on qubits " + pbt::list(q)); }
    bool ab = GT::can_commute(a, b); c.check(ab == GT::can_commute(b, a), "whether they commute depends on the order they are asked about"); auto x = random_op(s, n), y = x; act(x, a); act(x, b); act(y, b); act(y, a);
    std::set<uint32_t> common; auto qa = acts_on(a), qb = acts_on(b); std::set_intersection(qa.begin(), qa.end(), qb.begin(), qb.end(), std::inserter(common, common.end()));
    if (ab && distance(x, y) > 1e-9) c.fail("declared commuting, but they do not commute (difference " + std::to_string(distance(x, y)) + ")");
    c.nontrivial(!common.empty()); c.label_if(ab && !common.empty(), "commuting, with a qubit in common"); c.label_if(ab, "declared commuting");
}
static void reordered(pbt::Src& s, pbt::Case& c) {
    int n = 2 + s.below(3), len = 2 + s.below(10); VecGates gs; gs.reg = Qreg{"q", uint32_t(n)}; for (int i = 0; i < len; ++i) { gs.v.push_back(gen_any_gate(s, n)); c.desc << canon(gs.v.back()) << "\n"; }
    auto v = gs.v; auto g = dag::full_dependency_dag_from_gate_stream(gs); std::vector<size_t> order; while (!g.empty()) { auto h = g.applicable_instructions(); c.check(!h.empty() && order.size() < v.size(), "the dependencies are circular"); auto l = h[s.below(h.size())]; order.push_back(l); g.pop_head(l); }
    c.eq(order.size(), v.size(), "instructions"); c.desc << "order " << pbt::list(order) << "\n"; auto x = random_op(s, n), y = x; for (auto& q : v) act(x, q); bool moved = false; for (size_t i = 0; i < order.size(); ++i) { act(y, v.at(order[i])); moved = moved || order[i] != i; }
    if (distance(x, y) > 1e-8) c.fail("carrying out the gates in an order the dependencies allow changes the result"); c.nontrivial(moved); c.label_if(moved, "reordered");
}
static LSInstruction gen_any(pbt::Src& s) {
    LSInstruction i{.operation = PatchReset{0}}; auto id = [&] { return PatchId(s.below(8)); }; static const std::vector<PauliOperator> p{PauliOperator::X, PauliOperator::Z, PauliOperator::Y};
    using O = SingleQubitOp::Operator; static const std::vector<O> ops{O::X, O::Y, O::Z, O::H, O::S};
    switch (s.below(11)) {
        case 0: i.operation = SinglePatchMeasurement{id(), s.pick(p), s.chance(1, 2)}; break;
        case 1: { tsl::ordered_map<PatchId, PauliOperator> m; int n = 1 + s.below(4); while (n--) m[id()] = s.pick(p); i.operation = MultiPatchMeasurement{m, s.chance(1, 2)}; break; }
        case 2: i.operation = PatchInit{id(), PatchInit::InitializeableStates::Plus, s.chance(1, 2) ? std::optional<PlaceNexTo>{{id(), s.pick(p)}} : std::nullopt}; break;
        case 3: { auto a = id(), b = id(), d = id(), e = id(); i.operation = BellPairInit{a, b, {d, s.pick(p)}, {e, s.pick(p)}}; break; }
        case 4: { auto a = id(); i.operation = MagicStateRequest{a, id()}; break; }
        case 5: { auto a = id(); i.operation = YStateRequest{a, id()}; break; }
        case 6: i.operation = SingleQubitOp{id(), s.pick(ops), s.chance(1, 2)}; break;
        case 7: i.operation = RotateSingleCellPatch{id()}; break;
        case 8: { auto a = id(), b = id(), d = id(); i.operation = BellBasedCNOT{a, b, d, id()}; break; }
        case 9: i.operation = PatchReset{id()}; break;
        case 10: { BusyRegion b; b.steps_to_clear = s.below(3); int n = s.below(4); while (n--) { SparsePatch q = LayoutHelpers::basic_square_patch({int(s.below(5)), int(s.below(5))}); if (s.chance(3, 4)) q.id = id(); b.state_after_clearing.push_back(q); } i.operation = b; break; }
    }
    int n = s.chance(1, 2) ? 0 : s.below(3); while (n--) i.clients.insert(id()); return i;
}
static std::set<PatchId> touched(const LSInstruction& i) {
    std::set<PatchId> r(i.clients.begin(), i.clients.end());
    std::visit([&](const auto& x) { using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, MultiPatchMeasurement>) for (auto& [k, v] : x.observable) r.insert(k);
        else if constexpr (std::is_same_v<T, PatchInit>) { r.insert(x.target); if (x.place_next_to) r.insert(x.place_next_to->target); }
        else if constexpr (std::is_same_v<T, BellPairInit>) r.insert({x.side1, x.side2, x.loc1.target, x.loc2.target});
        else if constexpr (std::is_same_v<T, MagicStateRequest>) r.insert({x.target, x.near_patch});
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) r.insert({x.control, x.target, x.side1, x.side2});
        else if constexpr (std::is_same_v<T, BusyRegion>) { for (auto& p : x.state_after_clearing) if (p.id) r.insert(*p.id); }
        else if constexpr (std::is_same_v<T, DeclareLogicalQubitPatches>) {}
        else r.insert(x.target);
    }, i.operation);
    return r;
}
static bool meet(const std::set<PatchId>& a, const std::set<PatchId>& b) { for (auto x : a) if (b.count(x)) return true; return false; }
static void reports(pbt::Case& c, const LSInstruction& i) {
    for (int k = 0; k < 2; ++k) { auto o = k ? i.get_patch_dependencies() : i.get_operating_patches(); std::set<PatchId> got(o.begin(), o.end()); for (auto x : touched(i)) if (!got.count(x)) c.fail(canon(i) + " reports " + (k ? "depending on" : "operating on") + " patches " + pbt::list(got) + ", not on patch " + std::to_string(x)); }
}
static void instruction_pairs(pbt::Src& s, pbt::Case& c) {
    auto a = gen_any(s), b = gen_any(s); c.desc << canon(a) << " clients " << pbt::list(a.clients) << "\n" << canon(b) << " clients " << pbt::list(b.clients) << "\n"; reports(c, a); reports(c, b);
    bool ab = IT::can_commute(a, b); c.check(ab == IT::can_commute(b, a), "whether they commute depends on the order they are asked about"); bool m = meet(touched(a), touched(b)); if (ab && m) c.fail("declared commuting, but they share a patch"); c.nontrivial(m); c.label(m ? "sharing a patch" : "sharing no patch"); c.label_if(ab, "declared commuting");
}
// Instructions as gates are compiled to them: what they depend on is enough to keep the order on every patch they name.
// (Asking for a Y state again gives it back.)
static void compiled(pbt::Src& s, pbt::Case& c) {
    Opt o; o.edpc = s.chance(1, 4); auto k = gen_circuit(s, c, o); int shared = 0; std::set<PatchId> requested;
    for (auto& i : k.prog) { reports(c, i); if (auto* y = std::get_if<YStateRequest>(&i.operation); y && requested.insert(y->target).second) { auto d = i.get_patch_dependencies(); c.check(d.count(y->near_patch), canon(i) + " does not depend on the patch it is requested for"); c.label("Y state request"); } }
    for (size_t j = 0; j < k.prog.size(); ++j) for (size_t i = 0; i < j; ++i) if (meet(touched(k.prog[i]), touched(k.prog[j]))) { ++shared; c.check(!IT::can_commute(k.prog[i], k.prog[j]), canon(k.prog[i]) + " and " + canon(k.prog[j]) + " are declared commuting"); }
    c.nontrivial(shared >= 3);
}
PBT_MAIN("P18", "a pair with a qubit or a patch in common; a circuit whose gates changed places; a program with three dependent pairs", {{"gate pairs", gate_pairs, 20000, 1000000}, {"reordered circuits", reordered, 4000, 200000}, {"instruction pairs", instruction_pairs, 20000, 1000000}, {"compiled instructions", compiled, 1500, 60000}})
