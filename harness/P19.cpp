#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); bool clogs = k.layout_name.find("factories") != std::string::npos;
    if (r.capped && !clogs) c.fail("the program does not come to an end");
    auto m = judge(c, k, r, "P19"); if (!m) return; auto& s = m->seen;
   
    bool refused = r.error && r.error->find("requires shortest route to be at least two tiles") != std::string::npos, blocked = false;
    // On a drawn lattice there may be no way from one patch to the other
    if (r.error && !k.edpc_layout && r.error->find("after max retries") != std::string::npos) for (auto& i : k.prog) if (auto* b = std::get_if<BellBasedCNOT>(&i.operation)) { auto x = m->find(b->control), y = m->find(b->target); if (x && y && r.error->find(pbt::str(i)) != std::string::npos && !m->route(*x, BoundaryType::Smooth, *y, BoundaryType::Rough)) blocked = true; }
    if (r.error && !refused && !blocked) c.fail("the program ends with an error: " + *r.error);
    c.nontrivial(s.cnots > 0 && s.wave_cnots >= 2); c.label(r.capped ? "cut short" : blocked ? "no route there is" : r.error ? "touching patches refused" : "completed");
    c.label_if(s.cnots, "CNOTs"); c.label_if(s.bells > s.cnots, "Bell pairs"); c.label_if(s.wave_cnots >= 2, "several routes in a wave"); c.label_if(s.wave_cnots >= 5, "five routes in a wave or more"); c.label_if(s.crossings, "crossing routes"); c.label_if(s.crossings >= 3, "three crossings or more"); c.label_if(s.two_phase, "CNOTs in two phases"); c.label_if(s.longest_route >= 12, "routes of 12 cells or more");
}
static void circuits(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = true; o.max_qubits = 12; o.max_gates = 14; go(c, gen_circuit(s, c, o), 800); }
// Layers of CNOTs, so that many routes have to be found at a time, on edpc layouts and on lattices with patches anywhere.
static void large(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = true; o.max_qubits = 40; o.max_gates = 150; go(c, gen_circuit(s, c, o), 1500); }
static void layers(pbt::Src& s, pbt::Case& c, Comp& k, int n) {
    k.mode = PipelineMode::EDPC; k.local = true; k.twists = true; k.search = s.chance(1, 3) ? GraphSearchProvider::AStar : GraphSearchProvider::Djikstra; for (int i = 0; i < n; ++i) k.core.insert(i);
    PatchId fresh = n; int L = 1 + s.below(4); std::vector<PatchId> p; for (int i = 0; i < n; ++i) p.push_back(i);
    auto add = [&](auto op) { LSInstruction i{.operation = op}; if (!k.edpc_layout) i.wait_at_most_for = 60; k.prog.push_back(i); };
    for (int l = 0; l < L; ++l) {
        for (int i = 0; i < n; ++i) if (s.chance(1, 6)) add(SingleQubitOp{PatchId(i), SingleQubitOp::Operator::H});
        s.shuffle(p); int m = s.chance(1, 2) ? n / 2 : 1 + s.below(n / 2); for (int i = 0; i < m; ++i) { add(BellBasedCNOT{p[2 * i], p[2 * i + 1], fresh, fresh + 1}); fresh += 2; }
    }
    say(c, k);
}
static bool edpc_case(pbt::Src& s, pbt::Case& c, Comp& k) {
    int n = 2 + s.below(24); auto d = gen_dist(s, c); size_t lanes = 1 + s.chance(1, 6); bool condensed = s.chance(1, 4); k.layout = make_edpc_layout(n, lanes, condensed, false, false, d); k.layout_name = "edpc " + std::to_string(lanes) + " lanes" + (condensed ? " condensed" : ""); k.edpc_layout = true; layers(s, c, k, n); return true;
}
static bool lattice_case(pbt::Src& s, pbt::Case& c, Comp& k) {
    int R = 5 + s.below(6), C = 5 + s.below(6); auto lay = std::make_shared<VLayout>(R, C); std::vector<Cell> all; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) all.push_back({i, j}); s.shuffle(all); int n = 2 + s.below(9); std::vector<std::string> pic(R, std::string(C, '.'));
    // Patches that leave each other's neighbourhood free
    std::set<Cell> taken; for (auto& x : all) { if (int(lay->core.size()) == n) break; bool ok = true; for (auto& t : taken) if (std::abs(t.row - x.row) + std::abs(t.col - x.col) < 3) ok = false; if (!ok) continue; taken.insert(x); pic[x.row][x.col] = char('A' + lay->core.size()); lay->core.push_back(LayoutHelpers::basic_square_patch(x)); }
    n = lay->core.size(); int dead = s.chance(1, 2) ? s.below(6) : 0; for (auto& x : all) { if (!dead) break; bool ok = true; for (auto& t : taken) if (std::abs(t.row - x.row) + std::abs(t.col - x.col) < 2) ok = false; if (!ok) continue; --dead; lay->dead.push_back(x); pic[x.row][x.col] = 'x'; }
    for (auto& l : pic) c.desc << l << "\n"; if (n < 2) { c.label("no room"); return false; }
    k.layout = lay; k.layout_name = "drawn lattice"; layers(s, c, k, n); return true;
}
static void on_edpc(pbt::Src& s, pbt::Case& c) { Comp k; if (edpc_case(s, c, k)) go(c, k, 400); }
static void on_lattice(pbt::Src& s, pbt::Case& c) { Comp k; if (lattice_case(s, c, k)) go(c, k, 400); }
// Routes laid one after another: each joins its ends over free edges, the labels are consistent where routes cross, and a route is only refused if no labels would be.
static void labels(pbt::Src& s, pbt::Case& c) {
    Comp k; bool e = s.chance(1, 2); if (!(e ? edpc_case(s, c, k) : lattice_case(s, c, k))) return;
    CustomDPRouter router; router.set_graph_search_provider(k.search); router.set_EDPC(); DenseSlice slice(*k.layout, k.core); using Path = std::vector<Cell>; using Edge = std::pair<Cell, Cell>; std::vector<Path> paths; std::set<PatchId> used; size_t crossings = 0, refused = 0, clusters = 0;
    auto edge = [](Cell a, Cell b) { return a < b ? Edge{a, b} : Edge{b, a}; };
    // Every crossing cell has a sign; a route that goes from one crossing cell straight to another ties their signs
    auto consistent = [&](const std::vector<Path>& ps) {
        std::map<Cell, std::vector<size_t>> on; for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 1; j + 1 < ps[i].size(); ++j) on[ps[i][j]].push_back(i); std::map<Cell, std::vector<std::pair<Cell, bool>>> ties; size_t n = 0;
        for (size_t i = 0; i < ps.size(); ++i) for (size_t j = 1; j + 2 < ps[i].size(); ++j) { Cell a = ps[i][j], b = ps[i][j + 1]; auto &u = on[a], &v = on[b]; if (u.size() < 2 || v.size() < 2) continue; ++n; bool flip = (u[0] == i) != (v[0] == i); ties[a].push_back({b, flip}); ties[b].push_back({a, flip}); }
        clusters = n; std::map<Cell, bool> sign; for (auto& [at, _] : ties) { if (sign.count(at)) continue; sign[at] = false; std::vector<Cell> q{at}; while (!q.empty()) { Cell x = q.back(); q.pop_back(); for (auto& [y, f] : ties[x]) { auto [it, fresh] = sign.insert({y, sign[x] != f}); if (fresh) q.push_back(y); else if (it->second != (sign[x] != f)) return false; } } }
        return true;
    };
    size_t step = 0;
    for (auto instr : k.prog) {
        auto* b = std::get_if<BellBasedCNOT>(&instr.operation); if (!b || used.count(b->control) || used.count(b->target)) continue; ++step; std::string at = "route " + std::to_string(step) + " from patch " + std::to_string(b->target) + " to " + std::to_string(b->control) + ": ";
        Cell tc = slice.get_cell_by_id(b->target).value(), cc = slice.get_cell_by_id(b->control).value(); int apart = std::abs(tc.row - cc.row) + std::abs(tc.col - cc.col); if (apart < 2) continue;
        auto region = router.find_routing_ancilla(slice, b->control, PauliOperator::Z, b->target, PauliOperator::X); if (region && region->cells.size() < 2) continue; // refused by the documented error
        Path p; if (region) { p.push_back(tc); for (auto& x : region->cells) p.push_back(x.cell); p.push_back(cc); }
        DenseSlice before = slice; auto r = try_apply_instruction_direct_followup(slice, instr, true, true, false, *k.layout, router); c.check(bool(r.maybe_error), at + "no word that local compilation comes later"); std::string why = r.maybe_error->what();
        if (r.followup_instructions.empty()) {
            c.check(same_slice(before, slice) && before.EDPC_crossing_vertices == slice.EDPC_crossing_vertices, at + "refused, but the slice changed");
            if (!region) continue;
            auto all = paths; all.push_back(p); c.check(!consistent(all), at + "refused although its edges can be labelled consistently: " + why); ++refused; continue;
        }
        c.check(region.has_value(), at + "laid, but the router finds none"); auto* done = std::get_if<BellBasedCNOT>(&r.followup_instructions[0].operation); c.check(done && done->route, at + "no route stored"); Path q; for (auto& x : done->route->cells) q.push_back(x.cell);
        c.check(p == q, at + "the stored route is not the one found"); used.insert(b->control); used.insert(b->target); paths.push_back(q); c.check(consistent(paths), at + "laid although no labels of its edges are consistent");
        // The labels of all routes so far
        std::map<Edge, size_t> owner; std::map<Cell, std::vector<size_t>> on; auto label = [&](Cell a, Cell b2) { auto x = slice.get_boundary_between(a, b2), y = slice.get_boundary_between(b2, a); c.check(x && y, at + "no boundary between " + show(a) + " and " + show(b2)); return std::pair(x->get().boundary_type, y->get().boundary_type); };
        auto is_label = [](BoundaryType t) { return t == BoundaryType::Reserved_Label1 || t == BoundaryType::Reserved_Label2; };
        for (size_t i = 0; i < paths.size(); ++i) { auto& x = paths[i]; for (size_t j = 0; j + 1 < x.size(); ++j) { c.check(std::abs(x[j].row - x[j + 1].row) + std::abs(x[j].col - x[j + 1].col) == 1, at + "steps between cells that are not neighbours"); if (!owner.insert({edge(x[j], x[j + 1]), i}).second) c.fail(at + "two routes share the edge between " + show(x[j]) + " and " + show(x[j + 1])); auto [l1, l2] = label(x[j], x[j + 1]); if (!is_label(l1) || l1 != l2) c.fail(at + "the edge between " + show(x[j]) + " and " + show(x[j + 1]) + " is not labelled the same from both sides"); } for (size_t j = 1; j + 1 < x.size(); ++j) on[x[j]].push_back(i); }
        crossings = 0; for (auto& [cell, who] : on) { c.check(who.size() <= 2, at + "more than two routes cross at " + show(cell)); if (who.size() < 2) continue; ++crossings; BoundaryType seen[2]; for (int w = 0; w < 2; ++w) { auto& x = paths[who[w]]; size_t j = std::find(x.begin(), x.end(), cell) - x.begin(); auto a = label(cell, x[j - 1]).first, z = label(cell, x[j + 1]).first; if (a != z) c.fail(at + "a route changes its label at the crossing " + show(cell)); seen[w] = a; } if (seen[0] == seen[1]) c.fail(at + "both routes have the same label at the crossing " + show(cell)); }
    }
    c.nontrivial(crossings > 0); c.label(e ? "edpc layout" : "drawn lattice"); c.label_if(paths.size() > 4, "five routes or more"); c.label_if(crossings > 2, "three crossings or more"); c.label_if(clusters, "neighbouring crossings"); c.label_if(refused, "refused");
}
PBT_MAIN("P19", "at least two CNOTs are routed in the same wave", {{"circuits on the edpc layout", circuits, 3000, 100000}, {"large circuits", large, 150, 4000, 120}, {"layers of CNOTs on the edpc layout", on_edpc, 3000, 100000}, {"layers of CNOTs on drawn lattices", on_lattice, 4000, 150000}, {"labels of crossing routes", labels, 6000, 250000}})
