#include "grid.hpp"
#include <queue>
using namespace vf;
struct Scene {
    VLayout lay; DenseSlice sl; std::vector<PatchId> ids; std::vector<std::string> pic;
    std::set<std::pair<Cell, Cell>> reserved;  // pairs of cells whose common edge an EDPC path took
    Scene(int r, int c) : lay(r, c), sl(lay), pic(r, std::string(c, '.')) {}
};
static bool type_is(const DensePatch& p, int d, PauliOperator op) { return side(p.boundaries, d).boundary_type == (op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth); }
static void patch(Scene& s, Cell c, PatchId id, pbt::Src& r, pbt::Case& cs) {
    DensePatch p = square(id, r.chance(1, 3)); bool rot = p.boundaries.top.boundary_type == BoundaryType::Rough;
    if (r.chance(1, 6)) { static const std::vector<BoundaryType> ts{BoundaryType::Rough, BoundaryType::Smooth, BoundaryType::None, BoundaryType::Connected}; cs.desc << "patch " << id << " sides"; for (int d = 0; d < 4; ++d) { side(p.boundaries, d).boundary_type = r.pick(ts); cs.desc << " " << int(side(p.boundaries, d).boundary_type); } cs.desc << "\n"; }
    else if (rot) cs.desc << "patch " << id << " rotated\n";
    s.sl.patch_at(c) = p; s.ids.push_back(id); s.pic[c.row][c.col] = char('A' + id);
}
static Scene scene(pbt::Src& r, pbt::Case& c, bool edpc) {
    int big = r.chance(1, 8) ? 18 : 9, R = 1 + r.below(big), C = 1 + r.below(big); if (R * C < 2) C = 3;
    Scene s(R, C); int n = 1 + r.below(std::min(6, R * C));
    std::vector<Cell> all; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) all.push_back({i, j});
    r.shuffle(all); size_t at = 0;
    for (int i = 0; i < n; ++i) patch(s, all[at++], PatchId(i), r, c);
    unsigned density = r.pick(std::vector<unsigned>{0, 10, 20, 30, 40, 60});
    // Obstacles of every kind; they get no id, so no query names them.
    for (; at < all.size(); ++at) if (r.below(100) >= 100 - density) {
        DensePatch p; int k = r.below(5);
        p.type = std::vector{PatchType::Qubit, PatchType::Distillation, PatchType::Dead, PatchType::Routing, PatchType::PreparedState}[k];
        p.activity = std::vector{PatchActivity::None, PatchActivity::Distillation, PatchActivity::Dead, r.chance(1, 2) ? PatchActivity::MultiPatchMeasurement : PatchActivity::Rotation, PatchActivity::None}[k];
        p.boundaries = square(std::nullopt, r.chance(1, 2)).boundaries; if (k == 1 || k == 2) for (int d = 0; d < 4; ++d) side(p.boundaries, d) = {BoundaryType::Connected, false};
        s.sl.patch_at(all[at]) = p; s.pic[all[at].row][all[at].col] = "#%X+m"[k];
    }
    if (edpc) { // some earlier paths: random walks over free cells that take each edge at most once
        int paths = r.below(5);
        for (int k = 0; k < paths; ++k) {
            Cell at = r.pick(all); if (s.sl.patch_at(at) && s.sl.patch_at(at)->activity != PatchActivity::EDPC) continue;
            int len = 1 + r.below(8); auto lab = r.chance(1, 2) ? BoundaryType::Reserved_Label2 : BoundaryType::Reserved_Label1;
            auto touch = [&](Cell x) { auto& p = s.sl.patch_at(x); if (!p) { DensePatch q; q.type = PatchType::Routing; q.activity = PatchActivity::EDPC; for (int d = 0; d < 4; ++d) side(q.boundaries, d) = {BoundaryType::None, false}; p = q; s.pic[x.row][x.col] = '~'; } };
            touch(at);
            for (int i = 0; i < len; ++i) {
                Cell to = step(at, r.below(4)); if (!inside(s.lay, to) || (s.sl.patch_at(to) && s.sl.patch_at(to)->activity != PatchActivity::EDPC) || s.reserved.count({at, to})) continue;
                touch(to); side(s.sl.patch_at(at)->boundaries, dir_to(at, to)) = {lab, true}; side(s.sl.patch_at(to)->boundaries, dir_to(to, at)) = {lab, true};
                s.reserved.insert({at, to}); s.reserved.insert({to, at}); c.desc << "edge " << show(at) << "-" << show(to) << " taken\n"; at = to;
            }
        }
    }
    for (auto& l : s.pic) c.desc << l << "\n";
    return s;
}
// Breadth-first search over the free cells. Returns the number of cells of a shortest route, or -1.
static int reference(const Scene& s, Cell src, PauliOperator so, Cell dst, PauliOperator to, bool edpc) {
    auto passable = [&](Cell x) { auto& p = s.sl.patch_at(x); return !p || (edpc && p->activity == PatchActivity::EDPC); };
    auto& sp = *s.sl.patch_at(src); auto& tp = *s.sl.patch_at(dst); bool cycle = src == dst;
    int dd = dir_to(src, dst); if (!cycle && dd >= 0 && type_is(sp, dd, so) && type_is(tp, dir_to(dst, src), to)) return 0;
    std::map<Cell, int> dist; std::queue<Cell> q;
    for (int d = 0; d < 4; ++d) { Cell x = step(src, d); if (inside(s.lay, x) && passable(x) && type_is(sp, d, so)) { dist[x] = 1; q.push(x); } }
    int best = -1;
    while (!q.empty()) {
        Cell x = q.front(); q.pop();
        int d = dir_to(dst, x); if (d >= 0 && type_is(tp, d, to)) { best = dist[x]; break; }
        for (int k = 0; k < 4; ++k) { Cell y = step(x, k); if (!inside(s.lay, y) || !passable(y) || dist.count(y) || s.reserved.count({x, y})) continue; dist[y] = dist[x] + 1; q.push(y); }
    }
    return best;
}
static std::string show(const std::optional<RoutingRegion>& r) { if (!r) return "none"; std::string t = "["; for (auto& c : r->cells) t += vf::show(c.cell); return t + "]"; }
static void legal(pbt::Case& c, const Scene& s, const RoutingRegion& r, Cell src, PauliOperator so, Cell dst, PauliOperator to, bool edpc, const std::string& who) {
    size_t n = r.cells.size(); if (!n) return;
    for (size_t i = 0; i < n; ++i) {
        Cell x = r.cells[i].cell, prev = i ? r.cells[i - 1].cell : dst, next = i + 1 < n ? r.cells[i + 1].cell : src;
        c.check(inside(s.lay, x), who + ": the route leaves the lattice");
        auto& p = s.sl.patch_at(x); c.check(!p || (edpc && p->activity == PatchActivity::EDPC), who + ": the route runs over an occupied cell " + vf::show(x));
        c.check(dir_to(x, prev) >= 0 && dir_to(x, next) >= 0, who + ": consecutive cells of the route are not neighbours at " + vf::show(x));
        if (i) c.check(!s.reserved.count({x, prev}), who + ": the route takes a taken edge at " + vf::show(x));
        for (int d = 0; d < 4; ++d) {
            auto b = side(r.cells[i], d); bool on = d == dir_to(x, prev) || d == dir_to(x, next);
            auto want = on ? Boundary{edpc ? BoundaryType::Reserved_Label1 : BoundaryType::Connected, true} : Boundary{BoundaryType::None, false};
            c.check(b == want, who + ": boundary " + std::to_string(d) + " of route cell " + vf::show(x) + " is wrong");
        }
    }
    c.check(type_is(*s.sl.patch_at(src), dir_to(src, r.cells.back().cell), so), who + ": the route leaves the source at another boundary");
    c.check(type_is(*s.sl.patch_at(dst), dir_to(dst, r.cells.front().cell), to), who + ": the route reaches the target at another boundary");
}
static Scene maze(pbt::Src&, pbt::Case&);
static void run(pbt::Src& r, pbt::Case& c, bool edpc, bool big = false) {
    Scene s = big ? maze(r, c) : scene(r, c, edpc); if (s.ids.empty()) c.discard(); CachedRouter cached[3];
    std::vector<GraphSearchProvider> ps{GraphSearchProvider::Djikstra, GraphSearchProvider::AStar}; if (!edpc) ps.push_back(GraphSearchProvider::Boost);
    static const char* names[]{"djikstra", "astar", "boost"};
    int queries = 1 + r.below(4); auto op = [&] { return r.chance(1, 2) ? PauliOperator::Z : PauliOperator::X; };
    std::map<std::string, int> lens;
    for (int q = 0; q < queries; ++q) {
        PatchId a = r.pick(s.ids), b = r.pick(s.ids); auto so = op(), to = op(); if (a == b && r.chance(3, 4)) to = so == PauliOperator::X ? PauliOperator::Z : PauliOperator::X;
        Cell ca{}, cb{}; for (int i = 0; i < s.lay.rows; ++i) for (int j = 0; j < s.lay.cols; ++j) { if (s.pic[i][j] == char('A' + a)) ca = {i, j}; if (s.pic[i][j] == char('A' + b)) cb = {i, j}; }
        std::string ask = std::string(1, 'A' + a) + (so == PauliOperator::X ? "X" : "Z") + " to " + std::string(1, 'A' + b) + (to == PauliOperator::X ? "X" : "Z");
        c.desc << "query " << ask << "\n";
        int want = reference(s, ca, so, cb, to, edpc);
        for (size_t k = 0; k < ps.size(); ++k) {
            CustomDPRouter ro; ro.set_graph_search_provider(ps[k]); if (edpc) { ro.set_EDPC(); c.check(ro.get_EDPC(), "set_EDPC"); }
            std::string who = std::string(names[k]) + " for " + ask;
            auto got = ro.find_routing_ancilla(s.sl, a, so, b, to);
            c.check(bool(got) == (want >= 0), [&] { return who + ": " + (got ? "found the route " + show(got) + " where there is none" : "found no route where one of " + std::to_string(want) + " cells exists"); });
            if (got) { legal(c, s, *got, ca, so, cb, to, edpc, who); c.check(int(got->cells.size()) == want, [&] { return who + ": the route " + show(got) + " is not of the shortest length " + std::to_string(want); }); }
            if (!edpc) { cached[k].set_graph_search_provider(ps[k]); for (int t = 0; t < 2; ++t) { auto again = cached[k].find_routing_ancilla(s.sl, a, so, b, to); c.check(again == got, [&] { return "cached " + who + ": " + show(again) + " instead of " + show(got); }); } }
        }
        c.nontrivial(want >= 2); c.label(want < 0 ? "no route" : want == 0 ? "touching" : want < 4 ? "short route" : want < 60 ? "long route" : "route of 60 cells or more"); c.label_if(a == b && want >= 0, "cycle");
    }
}
// Long ways round: a maze of walls on a large lattice.
static Scene maze(pbt::Src& r, pbt::Case& c) {
    int R = 1 + r.below(40), C = 1 + r.below(60); if (r.chance(1, 6)) R = 1 + r.below(3), C = 100 + r.below(400); if (r.chance(1, 12)) std::swap(R, C); if (R * C < 12) C = 12; Scene s(R, C); bool tall = r.chance(1, 2); int gapw = 1 + r.below(3), every = 1 + gapw; bool alternate = r.chance(1, 2);
    std::set<Cell> wall; for (int k = gapw; k < (tall ? C : R); k += every) { int len = tall ? R : C, hole = alternate ? ((k / every) % 2 ? 0 : len - 1) : int(r.below(len)); for (int i = 0; i < len; ++i) if (i != hole && !(r.chance(1, 50) && r.chance(1, 8))) wall.insert(tall ? Cell{i, k} : Cell{k, i}); }
    for (auto& x : wall) { DensePatch p; p.type = PatchType::Dead; p.activity = PatchActivity::Dead; p.boundaries = square(std::nullopt, false).boundaries; s.sl.patch_at(x) = p; s.pic[x.row][x.col] = 'X'; }
    std::vector<Cell> all; for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) if (!wall.count({i, j})) all.push_back({i, j});
    int n = std::min<int>(all.size(), 2 + r.below(4)); for (int i = 0; i < n; ++i) { size_t k = i == 0 ? r.below(std::min<size_t>(all.size(), 20)) : i == 1 ? all.size() - 1 - r.below(std::min<size_t>(all.size(), 20)) : r.below(all.size()); if (s.sl.patch_at(all[k])) { if (i < 2) continue; else break; } patch(s, all[k], PatchId(i), r, c); }
    for (auto& l : s.pic) c.desc << l << "\n"; return s;
}
static void plain(pbt::Src& r, pbt::Case& c) { run(r, c, false); }
static void mazes(pbt::Src& r, pbt::Case& c) { run(r, c, r.chance(1, 4), true); }
static void edp(pbt::Src& r, pbt::Case& c) { run(r, c, true); }
PBT_MAIN("P07", "a route of at least two cells exists for some query", {{"routes", plain, 30000, 1000000}, {"edpc routes", edp, 15000, 500000}, {"mazes", mazes, 600, 20000}})
