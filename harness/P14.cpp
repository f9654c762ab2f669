#include "model.hpp"
using namespace vf;
static void go(pbt::Src& s, pbt::Case& c) {
    size_t n = 1 + (s.chance(1, 3) ? s.below(200) : s.below(30)); bool compact = s.chance(1, 3); DistillationOptions d; d.distillation_time = 1 + s.below(20); d.staggered = s.chance(1, 2);
    bool noclog = false, condensed = false, fac = false, ys = false; size_t lanes = 1; Comp k;
    if (compact) { noclog = s.chance(1, 2); k.layout = make_compact_layout(n, d, noclog); c.desc << "compact" << (noclog ? "_no_clogging " : " ") << n << "\n"; }
    else { lanes = 1 + s.below(4); condensed = s.chance(1, 2); fac = s.chance(1, 2); ys = s.chance(1, 2); c.desc << "edpc " << n << " qubits, " << lanes << " lanes" << (condensed ? ", condensed" : "") << (fac ? ", explicit factories" : "") << (ys ? ", Y states" : "") << "\n"; k.layout = make_edpc_layout(n, lanes, condensed, fac, ys, d); }
    const Layout& l = *k.layout; auto f = l.furthest_cell(); int R = f.row + 1, C = f.col + 1; std::vector<std::string> g(R, std::string(C, 'r'));
    auto put = [&](Cell x, char ch) { if (x.row < 0 || x.col < 0 || x.row >= R || x.col >= C) c.fail("a cell lies outside the layout: " + show(x)); if (g[x.row][x.col] != 'r') c.fail("cell " + show(x) + " has two roles"); g[x.row][x.col] = ch; };
    for (auto& p : l.core_patches()) put(std::get<SingleCellOccupiedByPatch>(p.cells).cell, 'Q'); for (auto& x : l.dead_location()) put(x, 'X'); for (auto& x : l.reserved_for_magic_states()) put(x, 'M'); for (auto& x : l.predistilled_y_states()) put(x, 'Y');
    for (auto& r : l.distillation_regions()) for (auto& x : r.sub_cells) put(x.cell, '0'); for (auto& x : l.ancilla_location()) put(x, 'A'); for (auto& x : l.ancilla_location()) g[x.row][x.col] = 'r';
    std::string pic; for (auto& r : g) pic += r + "\n"; if (n <= 40) c.desc << pic;
    c.eq(l.core_patches().size(), n, "number of core patches");
    auto free = [&](Cell x) { return x.row >= 0 && x.col >= 0 && x.row < R && x.col < C && g[x.row][x.col] == 'r'; };
    std::vector<Cell> routing; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (free({i, j})) routing.push_back({i, j});
    std::set<Cell> seen; std::vector<Cell> q; if (!routing.empty()) { q.push_back(routing[0]); seen.insert(routing[0]); } for (size_t i = 0; i < q.size(); ++i) for (int e = 0; e < 4; ++e) { Cell y = step(q[i], e); if (free(y) && seen.insert(y).second) q.push_back(y); }
    c.eq(seen.size(), routing.size(), "routing cells reached from one of them");
    auto touches = [&](Cell x) { for (int e = 0; e < 4; ++e) if (free(step(x, e))) return true; return false; };
    for (auto& p : l.core_patches()) {
        auto& sc = std::get<SingleCellOccupiedByPatch>(p.cells); bool rough = false, smooth = false; for (int e = 0; e < 4; ++e) if (free(step(sc.cell, e))) (side(sc, e).boundary_type == BoundaryType::Rough ? rough : smooth) = true;
        c.check(smooth, "core patch at " + show(sc.cell) + " has no free neighbour at a smooth boundary"); if (!compact) c.check(rough, "core patch at " + show(sc.cell) + " has no free neighbour at a rough boundary");
    }
    for (auto& x : l.reserved_for_magic_states()) c.check(touches(x), "reserved cell " + show(x) + " is walled in"); for (auto& x : l.predistilled_y_states()) c.check(touches(x), "Y state " + show(x) + " is walled in");
    for (size_t i = 0; i < l.distillation_regions().size(); ++i) { auto& v = l.distilled_state_locations(i); c.check(!v.empty(), "a distillation region has no place for its states"); for (auto& x : v) c.check(free(x), "a distilled state location is not a routing cell"); }
    size_t reg = l.distillation_regions().size(), res = l.reserved_for_magic_states().size(), anc = l.ancilla_location().size();
    if (compact) {
        c.eq(R, 3, "rows"); c.eq(reg, noclog ? 0u : 1u, "distillation regions"); c.eq(res, noclog ? 1u : 0u, "reserved cells"); c.eq(anc, noclog ? 1u : 2u, "ancilla locations"); c.eq(l.predistilled_y_states().size(), 0u, "Y states"); c.eq(l.dead_location().size(), 0u, "dead cells");
        if (reg) c.eq(l.distillation_regions()[0].sub_cells.size(), 15u, "cells of the distillation region");
        for (int j = 0; j < C; ++j) { if (g[1][j] == 'Q') c.fail("a core patch lies in the lane"); }
    } else {
        c.check(fac ? reg > 0 && !res : res > 0 && !reg, "magic states come from neither or the wrong kind of place"); c.check(ys == !l.predistilled_y_states().empty(), ys ? "no Y states" : "Y states that were not asked for"); c.eq(anc, 0u, "ancilla locations");
        if (!fac) c.eq(l.dead_location().size(), 0u, "dead cells");
        // Lanes: cells between patches that are not packed together, and between patches and the border
        int lo_r = R, hi_r = 0, lo_c = C, hi_c = 0; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (g[i][j] == 'r' || g[i][j] == 'Y' || g[i][j] == 'M') lo_r = std::min(lo_r, i), hi_r = std::max(hi_r, i), lo_c = std::min(lo_c, j), hi_c = std::max(hi_c, j);
        std::vector<Cell> cs; for (auto& p : l.core_patches()) cs.push_back(std::get<SingleCellOccupiedByPatch>(p.cells).cell);
        auto gap = [&](int a) { return a == 0 || a >= int(lanes) + 1 || (condensed && a == 1); };
        for (auto& a : cs) { c.check(a.row - lo_r > int(lanes) && hi_r - a.row > int(lanes) && a.col - lo_c > int(lanes) && hi_c - a.col > int(lanes), "fewer lanes than asked for between the border and " + show(a)); for (auto& b : cs) if (!gap(std::abs(a.row - b.row)) || !gap(std::abs(a.col - b.col))) c.fail("fewer lanes than asked for between " + show(a) + " and " + show(b)); }
    }
    if (!compact) {
        // The options change what the places along the border hold, not where they are
        auto other = make_edpc_layout(n, lanes, condensed, false, true, d); auto sorted = [](std::vector<Cell> v) { std::sort(v.begin(), v.end(), [](Cell a, Cell b) { return std::pair(a.row, a.col) < std::pair(b.row, b.col); }); std::string o; for (auto& x : v) o += show(x) + " "; return o; };
        Cell o0 = std::get<SingleCellOccupiedByPatch>(l.core_patches()[0].cells).cell, o1 = std::get<SingleCellOccupiedByPatch>(other->core_patches()[0].cells).cell; int dr = o0.row - o1.row, dc = o0.col - o1.col; auto moved = [&](std::vector<Cell> v) { for (auto& x : v) x = {x.row + dr, x.col + dc}; return v; };
        auto cores = [&](const Layout& w) { std::vector<Cell> v; for (auto& p : w.core_patches()) v.push_back(std::get<SingleCellOccupiedByPatch>(p.cells).cell); return v; };
        c.eq(sorted(cores(l)), sorted(moved(cores(*other))), "core patches, compared to the layout with reserved cells and Y states"); auto M = moved(other->reserved_for_magic_states()), Y = moved(other->predistilled_y_states());
        if (ys) c.eq(sorted(l.predistilled_y_states()), sorted(Y), "Y states, compared to the layout with reserved cells");
        if (!fac) { auto all = M; if (!ys) all.insert(all.end(), Y.begin(), Y.end()); c.eq(sorted(l.reserved_for_magic_states()), sorted(all), "reserved cells, compared to the layout with Y states"); }
        else {
            std::vector<Cell> at, want = M; for (auto& m : [&] { auto all = M; all.insert(all.end(), Y.begin(), Y.end()); return all; }()) { bool next = false; for (auto& r : l.distillation_regions()) for (auto& x : r.sub_cells) for (int e = 0; e < 4; ++e) next |= step(m, e) == x.cell; if (next) at.push_back(m); }
            if (!ys) { // Without Y states the corners are taken by the north and south edges, and every second of the others on the west and east edge has a factory
                auto all = M; all.insert(all.end(), Y.begin(), Y.end()); int top = all[0].row, bot = top, left = all[0].col, right = left; for (auto& x : all) top = std::min(top, x.row), bot = std::max(bot, x.row), left = std::min(left, x.col), right = std::max(right, x.col);
                want.clear(); auto second = [&](auto in, auto less) { std::vector<Cell> v; for (auto& x : all) if (in(x)) v.push_back(x); std::sort(v.begin(), v.end(), less); for (size_t i = 1; i < v.size(); i += 2) want.push_back(v[i]); };
                for (int row : {top, bot}) second([&](Cell x) { return x.row == row; }, [](Cell a, Cell b) { return a.col < b.col; });
                for (int col : {left, right}) second([&](Cell x) { return x.col == col && x.row != top && x.row != bot; }, [](Cell a, Cell b) { return a.row < b.row; }); }
            size_t cells = 0; for (auto& r : l.distillation_regions()) cells += r.sub_cells.size(); c.eq(cells, 15 * want.size(), "cells of all factories"); for (auto& x : want) c.check(std::count(at.begin(), at.end(), x), "no factory next to " + show(x));
            if (!condensed) { c.eq(sorted(at), sorted(want), "places with a factory, compared to the places along the border"); c.eq(reg, want.size(), "number of factories"); } }
        if (condensed) { std::set<int> rows, cols; for (auto& p : l.core_patches()) { auto x = std::get<SingleCellOccupiedByPatch>(p.cells).cell; rows.insert(x.row); cols.insert(x.col); }
            for (auto* u : {&rows, &cols}) { int last = -1, k = 0; for (int v : *u) { if (last >= 0) c.eq(v - last, k % 2 ? 1 : int(lanes) + 1, "steps between rows or columns of a condensed layout"); last = v; ++k; } } }
    }
    // Any two patches can be joined on the fresh lattice (by smooth boundaries on the compact layouts)
    for (size_t i = 0; i < n; ++i) k.core.insert(PatchId(i)); Model m(k);
    for (int t = 0; n > 1 && t < 6; ++t) { size_t a = s.below(n), b = (a + 1 + s.below(n - 1)) % n; auto ty = [&] { return compact || s.chance(1, 2) ? BoundaryType::Smooth : BoundaryType::Rough; }; auto ta = ty(), tb = ty();
        auto cell = [&](size_t i) { return std::get<SingleCellOccupiedByPatch>(l.core_patches()[i].cells).cell; }; c.check(m.route(cell(a), ta, cell(b), tb), "core patches " + show(cell(a)) + " and " + show(cell(b)) + " cannot be joined"); }
    c.nontrivial(n >= 3); c.label(compact ? (noclog ? "compact_no_clogging" : "compact") : "edpc"); c.label_if(condensed, "condensed"); c.label_if(fac, "explicit factories"); c.label_if(ys, "Y states"); c.label_if(n > 50, "more than 50 qubits"); c.label_if(lanes > 1, "several lanes");
}
PBT_MAIN("P14", "three qubits or more", {{"generated layouts", go, 3000, 60000}})
