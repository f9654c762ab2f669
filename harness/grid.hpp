// A layout of a given size with nothing on it, and slices put together cell by cell.
#pragma once
#include "pbt.hpp"
#include <lsqecc/layout/layout.hpp>
#include <lsqecc/layout/router.hpp>
#include <lsqecc/patches/dense_slice.hpp>
namespace vf {
using namespace lsqecc;
struct VLayout : Layout {
    int rows, cols; std::vector<SparsePatch> core; std::vector<MultipleCellsOccupiedByPatch> regions; std::vector<std::vector<Cell>> queue;
    DistillationTimeMap times; std::vector<Cell> ancilla, dead, magic, ystates;
    VLayout(int r, int c) : rows(r), cols(c) {}
    const std::vector<SparsePatch>& core_patches() const override { return core; }
    Cell furthest_cell() const override { return Cell{rows - 1, cols - 1}; }
    const std::vector<MultipleCellsOccupiedByPatch>& distillation_regions() const override { return regions; }
    const std::vector<Cell>& distilled_state_locations(size_t i) const override { return queue.at(i); }
    const DistillationTimeMap& distillation_times() const override { return times; }
    const std::vector<Cell>& ancilla_location() const override { return ancilla; }
    const std::vector<Cell>& dead_location() const override { return dead; }
    const std::vector<Cell>& reserved_for_magic_states() const override { return magic; }
    const std::vector<Cell>& predistilled_y_states() const override { return ystates; }
    const bool magic_states_reserved() const override { return !magic.empty(); }
};
// Directions in the order top, bottom, left, right.
inline Cell step(Cell c, int d) { static const int dr[]{-1, 1, 0, 0}, dc[]{0, 0, -1, 1}; return {c.row + dr[d], c.col + dc[d]}; }
inline bool inside(const VLayout& l, Cell c) { return c.row >= 0 && c.col >= 0 && c.row < l.rows && c.col < l.cols; }
inline int dir_to(Cell a, Cell b) { for (int d = 0; d < 4; ++d) if (step(a, d) == b) return d; return -1; }
template<class B> auto& side(B& b, int d) { switch (d) { case 0: return b.top; case 1: return b.bottom; case 2: return b.left; default: return b.right; } }
inline std::string show(Cell c) { return "(" + std::to_string(c.row) + "," + std::to_string(c.col) + ")"; }
inline DensePatch square(std::optional<PatchId> id, bool rotated) {
    auto r = Boundary{BoundaryType::Rough, false}, s = Boundary{BoundaryType::Smooth, false};
    DensePatch p; p.type = PatchType::Qubit; p.activity = PatchActivity::None; p.id = id;
    p.boundaries = rotated ? CellBoundaries{r, r, s, s} : CellBoundaries{s, s, r, r}; return p;
}
}
