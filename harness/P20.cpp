#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); auto m = judge(c, k, r, "P20"); if (!m) return; auto& s = m->seen;
    c.nontrivial(s.bells > 0); c.label(r.capped ? "cut short" : r.error ? "ended by an error" : "completed"); c.label(mode_name(k.mode));
    c.label_if(s.cnots, "CNOTs"); c.label_if(s.bells > s.cnots, "Bell pairs"); c.label_if(s.retried, "local operations over several slices"); c.label_if(s.longest_route >= 8, "8 local operations or more"); c.label_if(s.longest_route >= 16, "16 local operations or more"); c.label_if(s.longest_route % 2, "even routes"); 
}
static void circuits(pbt::Src& s, pbt::Case& c) { Opt o; o.local_only = true; auto k = gen_circuit(s, c, o); if (!k.local) return c.label("not local"); go(c, k, 400); }
static void raw(pbt::Src& s, pbt::Case& c) { Opt o; o.local_only = true; go(c, gen_raw(s, c, o), 400); }
static void large(pbt::Src& s, pbt::Case& c) { Opt o; o.local_only = true; o.max_gates = 100; o.max_qubits = 24; auto k = gen_circuit(s, c, o); if (!k.local) return c.label("not local"); go(c, k, 1200); }
// One gate between two patches with a winding free path between them, others in the way.
static void winding(pbt::Src& s, pbt::Case& c) {
    Comp k; gen_mode(s, k, Opt{}); int R = 3 + s.below(8), C = 3 + s.below(8); auto lay = std::make_shared<VLayout>(R, C); k.layout = lay; k.layout_name = "winding path"; k.local = true; k.twists = true;
    // A walk that does not touch itself
    std::vector<Cell> w{{int(s.below(R)), int(s.below(C))}}; std::set<Cell> on{w[0]}; int len = 3 + s.below(40);
    while (int(w.size()) < len) {
        std::vector<Cell> next; for (int d = 0; d < 4; ++d) { Cell y = vf::step(w.back(), d); if (!inside(*lay, y) || on.count(y)) continue; int near = 0; for (int e = 0; e < 4; ++e) near += on.count(vf::step(y, e)); if (near == 1) next.push_back(y); }
        if (next.empty()) break; w.push_back(next[s.below(next.size())]); on.insert(w.back());
    }
    if (w.size() < 3) return c.label("no room");
    bool open = s.chance(1, 4); lay->core = {LayoutHelpers::basic_square_patch(w.front()), LayoutHelpers::basic_square_patch(w.back())}; k.core = {0, 1};
    std::vector<std::string> pic(R, std::string(C, '.')); for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (!on.count({i, j}) && !open) { lay->dead.push_back({i, j}); pic[i][j] = 'x'; }
    pic[w.front().row][w.front().col] = 'A'; pic[w.back().row][w.back().col] = 'B'; for (auto& l : pic) c.desc << l << "\n";
    auto add = [&](auto op) { LSInstruction i{.operation = op}; i.wait_at_most_for = 30; k.prog.push_back(i); };
    // Turns the patches so that the path begins and ends at the boundaries asked for, most of the time
    auto vertical = [](Cell a, Cell b) { return a.col == b.col; }; auto turn = [&](PatchId p, bool vert, PauliOperator op) { bool smooth_vertical = true; bool want = (op == PauliOperator::Z) != (vert == smooth_vertical); if (s.chance(1, 12)) want = !want; if (want) add(SingleQubitOp{p, SingleQubitOp::Operator::H}); };
    static const std::vector<PauliOperator> xz{PauliOperator::X, PauliOperator::Z}; bool cnot = s.chance(1, 2), swap = s.chance(1, 2); auto a = cnot ? (swap ? PauliOperator::X : PauliOperator::Z) : s.pick(xz), b = cnot ? (swap ? PauliOperator::Z : PauliOperator::X) : s.pick(xz);
    turn(0, vertical(w[0], w[1]), a); turn(1, vertical(w[w.size() - 2], w.back()), b);
    if (cnot) { if (swap) add(BellBasedCNOT{1, 0, 2, 3}); else add(BellBasedCNOT{0, 1, 2, 3}); }
    else { if (swap) add(BellPairInit{2, 3, {1, b}, {0, a}}); else add(BellPairInit{2, 3, {0, a}, {1, b}});
           PatchId ha = swap ? 3 : 2, hb = swap ? 2 : 3; for (auto [p, h, op] : {std::tuple{PatchId(0), ha, a}, {PatchId(1), hb, b}}) { tsl::ordered_map<PatchId, PauliOperator> m; m[p] = op; m[h] = op; if (s.chance(1, 2)) add(MultiPatchMeasurement{m, false}), add(SinglePatchMeasurement{h, op == PauliOperator::X ? PauliOperator::Z : PauliOperator::X, false}); } }
    if (s.chance(1, 3)) add(BellBasedCNOT{0, 1, 4, 5});
    say(c, k); go(c, k, 400);
}
PBT_MAIN("P20", "the local operations of a Bell pair or a CNOT are carried out to the end", {{"circuits on generated layouts", circuits, 4000, 100000}, {"instructions on drawn lattices", raw, 10000, 300000}, {"one gate along a winding path", winding, 4000, 150000}, {"large circuits", large, 100, 4000, 120}})
