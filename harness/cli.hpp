// The slicer, run in process on generated computations, and what its output should say.
#pragma once
#include "comp.hpp"
#include <lsqecc/pipelines/slicer.hpp>
#include <lsqecc/patches/slice_stats.hpp>
#include <lsqecc/patches/slices_to_json.hpp>
#include <nlohmann/json.hpp>
#include <fstream>
#include <filesystem>
#include <unistd.h>
namespace vf {
using nlohmann::json;
struct Said { std::string out, err; int code = 0; };
inline std::string join(const std::vector<std::string>& v) { return pbt::list(v, " "); }
// What was printed to standard output behind the program's back is put in front of its output.
inline Said slicer(const std::vector<std::string>& args, const std::string& input) {
    struct Quiet { std::ostringstream o, e; std::streambuf *b = std::cout.rdbuf(o.rdbuf()), *d = std::cerr.rdbuf(e.rdbuf()); ~Quiet() { std::cout.rdbuf(b); std::cerr.rdbuf(d); } } quiet;
    auto j = json::parse(run_slicer_program_from_strings(join(args), input)); return {quiet.o.str() + std::string(j.at("output")), quiet.e.str() + std::string(j.at("err")), j.at("exit_code")};
}
// A file in the scratch directory of the run, removed with this object.
struct TempFile { std::string path; TempFile(const std::string& content = "") { const char* t = getenv("TMPDIR"); static int n = 0; path = std::string(t ? t : "/tmp") + "/f" + std::to_string(getpid()) + "_" + std::to_string(n++); std::ofstream(path) << content; } ~TempFile() { unlink(path.c_str()); } std::string read() const { std::ifstream f(path); std::stringstream s; s << f.rdbuf(); return s.str(); } };
inline std::vector<std::string> operator+(std::vector<std::string> a, const std::vector<std::string>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
// The entry of one cell, written from the description of the JSON format.
inline json ref_edge(const Boundary& b) {
    switch (b.boundary_type) {
        case BoundaryType::None: return "None"; case BoundaryType::Connected: return b.is_active ? "AncillaJoin" : "None";
        case BoundaryType::Rough: return b.is_active ? "DashedStiched" : "Dashed"; case BoundaryType::Smooth: return b.is_active ? "SolidStiched" : "Solid";
        case BoundaryType::Reserved_Label1: return b.is_active ? "SolidStiched" : "None"; default: return b.is_active ? "DashedStiched" : "None";
    }
}
inline json ref_cell(const DensePatch& p) {
    json j; const auto& b = p.boundaries; j["edges"] = {{"Top", ref_edge(b.top)}, {"Bottom", ref_edge(b.bottom)}, {"Left", ref_edge(b.left)}, {"Right", ref_edge(b.right)}};
    if (p.operation_id) j["operation_id"] = std::to_string(*p.operation_id);
    j["patch_type"] = p.type == PatchType::Qubit ? "Qubit" : p.type == PatchType::Distillation || p.type == PatchType::PreparedState ? "DistillationQubit" : "Ancilla";
    j["activity"] = {{"activity_type", p.activity == PatchActivity::Measurement ? json("Measurement") : p.activity == PatchActivity::Unitary ? json("Unitary") : json()}};
    j["text"] = p.id ? "Id: " + std::to_string(*p.id) : p.type == PatchType::Qubit || (p.type == PatchType::Distillation && p.activity == PatchActivity::None) ? "Not bound" : "";
    return j;
}
inline json ref_slice(const DenseSlice& s) {
    json rows = json::array(); const Layout& l = s.get_layout(); auto f = l.furthest_cell();
    for (int i = 0; i <= f.row; ++i) { json row = json::array(); for (int k = 0; k <= f.col; ++k) { auto& p = s.cells[i][k]; row.push_back(p ? ref_cell(*p) : json()); } rows.push_back(row); }
    for (size_t i = 0; i < l.distillation_regions().size(); ++i) { Cell c = l.distillation_regions()[i].sub_cells.front().cell; rows[c.row][c.col]["text"] = "Time to next magic state:" + std::to_string(s.time_to_next_magic_state_by_distillation_region.at(i)); }
    return rows;
}
inline void same_json(pbt::Case& c, const json& got, const json& want, const std::string& what) {
    if (got == want) return;
    if (got.is_array() && want.is_array()) { c.eq(got.size(), want.size(), what + ": size"); for (size_t i = 0; i < got.size(); ++i) same_json(c, got[i], want[i], what + "[" + std::to_string(i) + "]"); }
    c.fail(what + ": got " + got.dump() + ", expected " + want.dump());
}
struct Totals { size_t volume = 0, unused = 0, distillation = 0, dead = 0; };
inline Totals ref_totals(const std::vector<const DenseSlice*>& v) {
    Totals t; for (auto* s : v) for (auto& row : s->cells) for (auto& p : row) { ++t.volume; if (!p) ++t.unused; else if (p->type == PatchType::Dead) ++t.dead; else if (p->type == PatchType::Distillation || (p->type == PatchType::PreparedState && s->get_layout().magic_states_reserved())) ++t.distillation; }
    return t;
}
// Slices put together cell by cell, with anything on them.
inline DenseSlice gen_slice(pbt::Src& s, pbt::Case& c, VLayout& l) {
    static const std::vector<BoundaryType> bt{BoundaryType::Rough, BoundaryType::Smooth, BoundaryType::None, BoundaryType::Connected, BoundaryType::Reserved_Label1, BoundaryType::Reserved_Label2};
    static const std::vector<PatchType> pt{PatchType::Qubit, PatchType::Routing, PatchType::Distillation, PatchType::PreparedState, PatchType::Dead};
    static const std::vector<PatchActivity> pa{PatchActivity::None, PatchActivity::Measurement, PatchActivity::Unitary, PatchActivity::Distillation, PatchActivity::Dead, PatchActivity::MultiPatchMeasurement, PatchActivity::Rotation, PatchActivity::EDPC, PatchActivity::Reserved};
    DenseSlice sl(l); for (size_t i = 0; i < l.times.size(); ++i) { if (sl.time_to_next_magic_state_by_distillation_region.size() <= i) sl.time_to_next_magic_state_by_distillation_region.push_back(0); sl.time_to_next_magic_state_by_distillation_region[i] = s.below(s.chance(1, 6) ? 100000 : 300); }
    auto patch = [&] { DensePatch p; p.type = s.pick(pt); p.activity = s.pick(pa); if (s.chance(1, 2)) p.id = s.chance(1, 6) ? PatchId(4294967295u) : PatchId(s.below(200)); if (s.chance(1, 3)) p.operation_id = s.chance(1, 6) ? s.below(~0ull) : s.below(100); for (int e = 0; e < 4; ++e) { side(p.boundaries, e).boundary_type = s.pick(bt); side(p.boundaries, e).is_active = s.chance(1, 2); } return p; };
    int fill = s.below(5); for (auto& row : sl.cells) for (auto& p : row) if (p) { if (s.chance(1, 4)) p = patch(); } else if (s.chance(fill, 4)) p = patch();
    c.desc << l.rows << "x" << l.cols << " slice\n"; for (int i = 0; i < l.rows; ++i) for (int j = 0; j < l.cols; ++j) if (auto& p = sl.cells[i][j]) c.desc << show({i, j}) << " " << ref_cell(*p).dump() << "\n";
    return sl;
}
inline std::shared_ptr<VLayout> gen_vlayout(pbt::Src& s) {
    bool large = s.chance(1, 60); auto l = std::make_shared<VLayout>(1 + s.below(large ? 30 : 6), 1 + s.below(large ? 50 : 6)); std::vector<Cell> all; for (int i = 0; i < l->rows; ++i) for (int j = 0; j < l->cols; ++j) all.push_back({i, j}); s.shuffle(all); size_t at = 0;
    int kind = s.below(3), n = 1 + s.below(3);
    if (kind == 1) for (int i = 0; i < n && at + 2 < all.size(); ++i) { MultipleCellsOccupiedByPatch m; int sz = 1 + s.below(2); for (int j = 0; j < sz; ++j) m.sub_cells.push_back(LayoutHelpers::make_distillation_region_cell(all[at++])); l->regions.push_back(m); l->queue.push_back({}); l->times.push_back(1 + s.below(9)); }
    if (kind == 2) for (int i = 0; i < n && at < all.size(); ++i) { l->magic.push_back(all[at++]); l->times.push_back(1 + s.below(9)); }
    return l;
}
}
