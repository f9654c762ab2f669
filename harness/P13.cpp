#include "grid.hpp"
#include <lsqecc/layout/ascii_layout_spec.hpp>
#include <fstream>
using namespace vf;
// Grids with clumps of distillation cells; each row a string over the alphabet of the format.
static std::vector<std::string> gen_grid(pbt::Src& s, bool reserved) {
    int R = 1 + s.below(9), C = 1 + s.below(10); if (s.chance(1, 60)) R = 1 + s.below(60), C = 1 + s.below(60); std::vector<std::string> g(R, std::string(C, 'r'));
    static const std::string other = "rQAXYrQrDT"; int style = s.below(3);
    for (auto& row : g) for (auto& ch : row) if (s.chance(1, 2)) ch = other[s.below(style ? 8 : other.size())];
    if (reserved) { int n = 1 + s.below(4); for (int i = 0; i < n; ++i) g[s.below(R)][s.below(C)] = 'M'; }
    else { int clumps = s.below(6); for (int i = 0; i < clumps; ++i) { char d = '0' + s.below(s.chance(1, 2) ? 3 : 10); int r = s.below(R), c = s.below(C), len = 1 + s.below(10); while (len--) { g[r][c] = d; int k = s.below(4); Cell n = step({r, c}, k); if (n.row >= 0 && n.row < R && n.col >= 0 && n.col < C) { r = n.row; c = n.col; } } } }
    // Large regions: blocks and snakes
    if (!reserved && s.chance(1, 25)) { R = 6 + s.below(40); C = 6 + s.below(40); g.resize(R); for (auto& row : g) row.resize(C, 'r'); for (int k = 1 + s.below(3); k--;) { char d = '0' + s.below(10); int h = 1 + s.below(R), w = 1 + s.below(C), r = s.below(R - h + 1), c = s.below(C - w + 1); bool snake = s.chance(1, 2); for (int i = 0; i < h; ++i) for (int j = 0; j < w; ++j) if (!snake || i % 2 == 0 || j == (i % 4 == 1 ? w - 1 : 0)) g[r + i][c + j] = d; } }
    return g;
}
static std::string text(pbt::Src& s, const std::vector<std::string>& g) {
    std::string t; for (size_t i = 0; i < g.size(); ++i) { if (s.chance(1, 12)) t += "\n"; t += g[i]; if (i + 1 < g.size() || s.chance(1, 2)) t += "\n"; } if (s.chance(1, 10)) t += "\n"; return t;
}
static void reading(pbt::Src& s, pbt::Case& c) {
    bool reserved = s.chance(1, 3); auto g = gen_grid(s, reserved); std::string t = text(s, g); DistillationOptions d; d.distillation_time = 1 + s.below(s.chance(1, 6) ? 100000 : 20); d.staggered = !s.chance(1, 3);
    c.desc << t << "\ndisttime " << d.distillation_time << (d.staggered ? "" : " nostagger") << "\n"; int R = g.size(), C = g[0].size();
    std::optional<LayoutFromSpec> made; if (s.chance(1, 2)) made.emplace(t, d); else { made.emplace(AsciiLayoutSpec(t).get_grid_spec(), d); }
    const Layout& l = *made; auto f = l.furthest_cell(); c.check(f == Cell{R - 1, C - 1}, "the furthest cell is " + show(f));
    auto where = [&](char ch) { std::vector<Cell> v; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (g[i][j] == ch) v.push_back({i, j}); return v; };
    auto cells = [&](const std::vector<Cell>& v) { std::string o; for (auto& x : v) o += show(x); return o; };
    auto same = [&](const std::vector<Cell>& got, char ch, const char* what) { c.eq(cells(got), cells(where(ch)), what); };
    same(l.ancilla_location(), 'A', "ancilla locations"); same(l.dead_location(), 'X', "dead cells"); same(l.predistilled_y_states(), 'Y', "Y states"); same(l.reserved_for_magic_states(), 'M', "cells reserved for magic states");
    c.eq(l.magic_states_reserved(), !where('M').empty(), "whether cells are reserved for magic states");
    std::vector<Cell> core; for (auto& p : l.core_patches()) { auto& sc = std::get<SingleCellOccupiedByPatch>(p.cells); core.push_back(sc.cell); auto q = square(std::nullopt, false); c.check(p.type == PatchType::Qubit && p.activity == PatchActivity::None && !p.id && static_cast<const CellBoundaries&>(sc) == q.boundaries, "core patch at " + show(sc.cell) + " is not an idle qubit patch with smooth boundaries above and below"); }
    same(core, 'Q', "core patches");
    // Reference regions: flood fill, by digit and then by first cell
    std::vector<std::vector<Cell>> regions;
    for (char dg = '0'; dg <= '9'; ++dg) { std::set<Cell> seen; for (auto& start : where(dg)) { if (seen.count(start)) continue; std::vector<Cell> q{start}; seen.insert(start); for (size_t i = 0; i < q.size(); ++i) for (int k = 0; k < 4; ++k) { Cell n = step(q[i], k); if (n.row >= 0 && n.row < R && n.col >= 0 && n.col < C && g[n.row][n.col] == dg && seen.insert(n).second) q.push_back(n); } regions.push_back(q); } }
    c.eq(l.distillation_regions().size(), regions.size(), "number of distillation regions"); size_t n = regions.size() + where('M').size(); c.eq(l.distillation_times().size(), n, "number of distillation times");
    for (size_t i = 0; i < regions.size(); ++i) {
        std::string name = "region " + std::to_string(i); std::set<Cell> in(regions[i].begin(), regions[i].end()), got, queue;
        auto& sub = l.distillation_regions()[i].sub_cells; c.eq(sub.size(), in.size(), "cells of " + name); for (auto& x : sub) got.insert(x.cell); c.check(got == in, name + " is not the group of cells drawn");
        c.check(!sub.empty() && sub[0].cell == regions[i][0], name + " does not begin with its first cell");
        for (auto& x : sub) for (int k = 0; k < 4; ++k) { Cell m = step(x.cell, k); bool inner = in.count(m); if (side(x, k).boundary_type != (inner ? BoundaryType::None : BoundaryType::Smooth)) c.fail(name + " is not outlined properly at " + show(x.cell)); if (m.row >= 0 && m.row < R && m.col >= 0 && m.col < C && g[m.row][m.col] == 'r') queue.insert(m); }
        auto& q = l.distilled_state_locations(i); c.check(std::set<Cell>(q.begin(), q.end()) == queue, "the queue of " + name + " is" + cells(q));
        c.eq(l.distillation_times()[i], d.distillation_time + (d.staggered ? i : 0), "distillation time of " + name);
    }
    for (size_t i = regions.size(); i < n; ++i) c.eq(l.distillation_times()[i], d.distillation_time, "distillation time of a reserved cell");
    AsciiLayoutSpec spec{std::string_view(t)};
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) c.check(spec.get_grid_spec().at(i).at(j) == g[i][j], "the grid read differs");
    static const std::string all = "rQTDAMXY0123456789"; for (char ch : all) { auto v = where(ch); auto one = spec.find_a_cell_of_type(AsciiLayoutSpec::CellType(ch)); c.check(v.empty() ? !one : one == v[0], "first cell of a type"); c.check(spec.find_all_cells_of_type(AsciiLayoutSpec::CellType(ch)) == v, "cells of a type"); }
    // The first slice
    size_t ids = s.below(core.size() + 1); tsl::ordered_set<PatchId> use; for (size_t i = 0; i < ids; ++i) use.insert(PatchId(7 * i + 3)); DenseSlice sl(l, use); c.check(int(sl.cells.size()) == R, "rows of the first slice");
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) {
        auto& p = sl.patch_at({i, j}); char ch = g[i][j]; auto it = std::find(core.begin(), core.end(), Cell{i, j}); size_t k = it - core.begin(); std::string at = "cell " + show({i, j}) + " of the first slice";
        if (ch == 'Q' && k < ids) c.check(p && p->type == PatchType::Qubit && p->id == PatchId(7 * k + 3), at + " does not have its core patch");
        else if (ch == 'Y') c.check(p && p->type == PatchType::Qubit && !p->id, at + " does not have its Y state");
        else if (ch == 'M') c.check(p && p->type == PatchType::Distillation && p->activity == PatchActivity::Distillation, at + " is not being distilled on");
        else if (ch == 'X') c.check(p && p->type == PatchType::Dead, at + " is not dead");
        else if (isdigit(ch)) c.check(p && p->type == PatchType::Distillation, at + " is not part of a distillation region");
        else c.check(!p, at + " is not free");
    }
    tsl::ordered_set<PatchId> many; for (size_t i = 0; i <= core.size(); ++i) many.insert(PatchId(i)); c.check(bool(pbt::thrown([&] { DenseSlice x(l, many); })), "more core patches than the layout has were not refused");
    size_t big = 0; for (auto& r : regions) big = std::max(big, r.size()); c.nontrivial(R * C >= 9 && (big >= 3 || where('M').size() >= 2) && core.size() >= 2); c.label_if(regions.size() >= 3, "three regions or more"); c.label_if(big >= 4, "region of four cells or more"); c.label_if(big >= 100, "region of 100 cells or more"); c.label_if(!where('M').empty(), "reserved cells"); c.label_if(R == 1 || C == 1, "one row or column");
}
static void refuse(pbt::Src& s, pbt::Case& c) {
    auto g = gen_grid(s, false); std::string t; int how = s.below(4);
    if (how == 0) { t = std::string(s.below(4), '\n'); }
    else {
        if (how == 1) { if (g.size() < 2) g.push_back(g[0]); auto& r = g[s.below(g.size())]; if (r.size() > 1 && s.chance(1, 2)) r.resize(r.size() - 1); else r += "r"; }
        if (how == 2) { static const std::string bad = "abqRmxyt .-\t\rZ#BCEFGN,"; auto& r = g[s.below(g.size())]; r[s.below(r.size())] = s.chance(3, 4) ? bad[s.below(bad.size())] : char(128 + s.below(128)); }
        if (how == 3) { auto& r = g[s.below(g.size())]; size_t i = s.below(r.size()); r[i] = '0' + s.below(10); auto& q = g[s.below(g.size())]; size_t j = s.below(q.size()); if (&q == &r && i == j) { if (r.size() == 1) c.discard(); j = (j + 1) % q.size(); } q[j] = 'M'; }
        t = text(s, g);
    }
    c.desc << t << "\n"; static const char* n[]{"empty", "ragged", "unknown character", "factories and reserved cells"}; c.label(n[how]); c.nontrivial(how > 0 && g.size() > 1);
    c.check(bool(pbt::thrown([&] { LayoutFromSpec l(std::string_view(t), DistillationOptions{}); })), std::string("not refused: ") + n[how]);
}
PBT_MAIN("P13", "at least nine cells, two core patches and a region of three cells or two reserved cells; or a refused grid of several rows", {{"reading", reading, 80000, 1500000}, {"refusing", refuse, 40000, 600000}})
