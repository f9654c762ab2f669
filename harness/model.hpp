// A reference model of the lattice: replays the instructions a pipeline says it applied, and says what each slice must
// look like. Where the code is free to choose (which cell, which route), the model takes the choice from the slice and
// checks that it is one the documentation allows. Every complaint carries the properties it is about.
#pragma once
#include "comp.hpp"
#include "tableau.hpp"
#include <deque>
namespace vf {
struct Complaint { std::set<std::string> about; std::string msg; };
struct Unmodelled {};
// Which of the program's instructions have been applied, and in which order they may be.
inline std::set<PatchId> touched(const LSInstruction& i) {
    std::set<PatchId> s(i.clients.begin(), i.clients.end());
    std::visit([&](const auto& x) {
        using T = std::decay_t<decltype(x)>;
        if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { for (auto& [p, o] : x.observable) s.insert(p); }
        else if constexpr (std::is_same_v<T, PatchInit>) { s.insert(x.target); if (x.place_next_to) s.insert(x.place_next_to->target); }
        else if constexpr (std::is_same_v<T, BellPairInit>) s.insert({x.side1, x.side2, x.loc1.target, x.loc2.target});
        else if constexpr (std::is_same_v<T, MagicStateRequest>) s.insert({x.target, x.near_patch});
        else if constexpr (std::is_same_v<T, BellBasedCNOT>) s.insert({x.control, x.target, x.side1, x.side2});
        else if constexpr (std::is_same_v<T, BusyRegion> || std::is_same_v<T, DeclareLogicalQubitPatches>) {}
        else s.insert(x.target);
    }, i.operation);
    return s;
}
class Trace {
public:
    enum { Waiting, Started, Done };
    Trace(const Comp& k) : k_(k), state_(k.prog.size(), Waiting), before_(k.prog.size()) {
        std::map<PatchId, std::vector<size_t>> on;
        for (size_t i = 0; i < k.prog.size(); ++i) { text_.push_back(canon(k.prog[i])); for (auto p : touched(k.prog[i])) { auto& v = on[p]; if (!v.empty()) before_[i].push_back(v.back()); v.push_back(i); } }
    }
    bool ready(size_t i) const { for (auto j : before_[i]) if (state_[j] != Done) return false; return true; }
    // Takes note of one applied instruction.
    void apply(const LSInstruction& in) {
        auto bad = [&](const std::string& m) { throw Complaint{{"P09"}, canon(in) + ": " + m}; };
        ++events; ends_slice = false;
        if (auto* b = std::get_if<BusyRegion>(&in.operation)) {
            if (b->state_after_clearing.size() != 1 || !b->state_after_clearing[0].id) bad("the end of a rotation without its patch");
            auto it = rot_.find(*b->state_after_clearing[0].id); if (it == rot_.end()) bad("follow-up of a rotation that was not applied");
            followups++; if (b->steps_to_clear <= 0) { state_[it->second] = Done; rot_.erase(it); } else ends_slice = true; return;
        }
        std::string t = canon(in);
        if (auto* o = std::get_if<SingleQubitOp>(&in.operation); o && o->op == SingleQubitOp::Operator::Z) { auto it = sgate_.find(o->target); if (it != sgate_.end()) { state_[it->second] = Done; sgate_.erase(it); followups++; return; } }
        size_t i = 0; bool partly = false;
        for (; i < text_.size(); ++i) if (state_[i] != Done && text_[i] == t) break;
        if (i == text_.size()) bad("applied, but the program has no (further) such instruction");
        if (state_[i] == Started && !std::holds_alternative<BellPairInit>(in.operation) && !std::holds_alternative<BellBasedCNOT>(in.operation)) bad("applied a second time");
        if (!ready(i)) { for (auto j : before_[i]) if (state_[j] != Done) bad("applied before " + text_[j] + ", which comes before it in the program and shares a patch with it, was done"); }
        for (size_t j = 0; k_.mode == PipelineMode::Stream && j < i; ++j) if (state_[j] == Waiting) bad("applied before " + text_[j] + ", which comes before it in the program");
        state_[i] = Started;
        if (std::holds_alternative<RotateSingleCellPatch>(in.operation)) { rot_[std::get<RotateSingleCellPatch>(in.operation).target] = i; ends_slice = true; return; }
        if (auto* o = std::get_if<SingleQubitOp>(&in.operation); o && o->op == SingleQubitOp::Operator::S) { sgate_[o->target] = i; ends_slice = true; return; }
        if (auto* b = std::get_if<BellPairInit>(&in.operation)) partly = b->counter && b->local_instructions && b->counter->second < b->local_instructions->size();
        if (auto* b = std::get_if<BellBasedCNOT>(&in.operation)) { if (b->counter_pairs && b->local_instruction_sets) for (size_t j = 0; j < b->counter_pairs->size(); ++j) if (b->counter_pairs->at(j).second < b->local_instruction_sets->at(j).size()) partly = true; }
        if (partly) ends_slice = true; else state_[i] = Done;
    }
    // The instructions that can be the next ones to be applied.
    std::vector<size_t> heads() const {
        std::vector<size_t> v; if (!rot_.empty() && k_.mode == PipelineMode::Stream) return v;
        for (size_t i = 0; i < text_.size(); ++i) { if (state_[i] == Waiting && ready(i)) v.push_back(i); if (k_.mode == PipelineMode::Stream && state_[i] != Done) break; }
        return v;
    }
    std::optional<std::string> undone() const { for (size_t i = 0; i < text_.size(); ++i) if (state_[i] != Done) return text_[i] + (state_[i] == Started ? " was begun and not finished" : " was not applied"); return std::nullopt; }
    size_t events = 0, followups = 0; bool ends_slice = false;
private:
    const Comp& k_; std::vector<int> state_; std::vector<std::vector<size_t>> before_; std::vector<std::string> text_; std::map<PatchId, size_t> rot_, sgate_;
};
class Model {
public:
    struct Seen { int merges = 0, touching = 0, longest = 0, rotations = 0, rotated_back = 0, hadamards = 0, magic_bound = 0, magic_made = 0, y_bound = 0, y_released = 0, y_made = 0, waits = 0, local_ops = 0, dag_short = 0, twists = 0, same_slice = 0, refused = 0, bells = 0, inits = 0, measured = 0, cnots = 0, longest_route = 0, retried = 0, crossings = 0, two_phase = 0, wave_cnots = 0; } seen;
    bool unmodelled = false; size_t trace_events = 0, trace_followups = 0;
    Model(const Comp& k) : k_(k), lay_(*k.layout), R_(lay_.furthest_cell().row + 1), C_(lay_.furthest_cell().col + 1), g_(R_ * C_) {
        auto it = k.core.begin();
        for (auto& p : lay_.core_patches()) { if (it == k.core.end()) break; auto& sc = std::get<SingleCellOccupiedByPatch>(p.cells); DensePatch d; static_cast<Patch&>(d) = p; d.boundaries = sc; d.id = *it++; at(sc.cell) = d; }
        for (auto& c : lay_.predistilled_y_states()) { at(c) = square(std::nullopt, false); ycells_.insert(c); }
        for (auto& r : lay_.distillation_regions()) for (auto& c : r.sub_cells) { DensePatch d = blank(PatchType::Distillation, PatchActivity::Distillation); d.boundaries = c; at(c.cell) = d; }
        for (auto& c : lay_.reserved_for_magic_states()) at(c) = inert(PatchType::Distillation, PatchActivity::Distillation);
        for (auto& c : lay_.dead_location()) at(c) = inert(PatchType::Dead, PatchActivity::Dead);
        timer_ = lay_.distillation_times();
    }
    void step(const Step& st) {
        s_ = &st.slice; n_++; if (n_ > 1) advance(); wave_ = g_; if (st.applied.empty()) seen.waits++;
        int before = seen.merges;
        for (auto& i : st.applied) { what_ = canon(i); apply(i); }
        seen.same_slice = std::max(seen.same_slice, seen.merges - before);
        compare(st.applied.empty());
    }
    // Whether an instruction could be applied at the beginning of the slice after the last one seen.
    std::optional<bool> could_apply_next(const LSInstruction& in) { if (!s_) return can_apply(in); advance(); return can_apply(in); }
    // Whether an instruction could be applied to the lattice as it is now; nothing when the model does not say.
    std::optional<bool> can_apply(const LSInstruction& in) {
        return std::visit([&](const auto& x) -> std::optional<bool> {
            using T = std::decay_t<decltype(x)>;
            auto ty = [](PauliOperator p) { return p == PauliOperator::X ? BoundaryType::Rough : p == PauliOperator::Z ? BoundaryType::Smooth : BoundaryType::None; };
            if constexpr (std::is_same_v<T, SinglePatchMeasurement>) return bool(find(x.target));
            else if constexpr (std::is_same_v<T, SingleQubitOp>) { auto c = find(x.target); if (!c || active(*c)) return false; return x.op != SingleQubitOp::Operator::S || route(*c, BoundaryType::Rough, *c, BoundaryType::Smooth); }
            else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) { auto a = x.observable.begin(), b = std::next(a); auto ca = find(a->first), cb = find(b->first); if (!ca || !cb || active(*ca) || active(*cb)) return false; if (k_.local) return std::nullopt; return route(*ca, ty(a->second), *cb, ty(b->second)); }
            else if constexpr (std::is_same_v<T, PatchInit>) {
                if (find(x.target)) return false; // Its id is still that of another patch
                if (!x.place_next_to) { for (auto& c : lay_.ancilla_location()) if (!at(c)) return true; return false; }
                auto t = find(x.place_next_to->target); if (!t) return false;
                for (int d = 0; d < 4; ++d) { Cell y = vf::step(*t, d); if (this->in(y) && !at(y) && side(at(*t)->boundaries, d).boundary_type == ty(x.place_next_to->op)) return true; } return false;
            }
            else if constexpr (std::is_same_v<T, MagicStateRequest>) return !find(x.target) && find(x.near_patch) && !magic_.empty();
            else if constexpr (std::is_same_v<T, YStateRequest>) {
                if (find(x.target)) return true; if (!find(x.near_patch)) return false;
                if (k_.local && k_.twists) return std::nullopt;
                for (auto& y : ycells_) if (at(y) && at(y)->type == PatchType::Qubit && !at(y)->id && !active(y)) return true; return std::nullopt;
            }
            else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) { auto c = find(x.target); if (!c) return false; if (active(*c) && at(*c)->activity != PatchActivity::Unitary) return false; for (int d = 0; d < 4; ++d) { if (side(at(*c)->boundaries, d).is_active) return false; } for (int d = 0; d < 4; ++d) { Cell y = vf::step(*c, d); if (this->in(y) && !at(y)) return true; } return false; }
            else if constexpr (std::is_same_v<T, PatchReset>) return true;
            else return std::nullopt;
        }, in.operation);
    }
    static std::set<std::string> topic(const LSInstruction& in) {
        std::set<std::string> s{"P24"}; if (std::holds_alternative<MultiPatchMeasurement>(in.operation)) s.insert("P10");
        if (std::holds_alternative<MagicStateRequest>(in.operation) || std::holds_alternative<YStateRequest>(in.operation)) s.insert("P11"); if (std::holds_alternative<RotateSingleCellPatch>(in.operation)) s.insert("P12");
        if (auto* o = std::get_if<SingleQubitOp>(&in.operation)) s.insert(o->op == SingleQubitOp::Operator::S ? "P10" : "P12"); if (std::holds_alternative<PatchInit>(in.operation)) s.insert("P08"); return s;
    }
    // The program waits in this slice: nothing it is waiting for could have been applied.
    void waits(const Trace& t, const Step& st, bool last) {
        bool ended = k_.mode == PipelineMode::Stream ? !t.ends_slice && !last : st.applied.empty();
        if (ended) for (auto i : t.heads()) { auto& in = k_.prog[i]; seen.refused++; if (can_apply(in) == true) { what_ = ""; bad(topic(in), canon(in) + " is made to wait although it can be applied"); } }
    }
    std::optional<Cell> find(PatchId id) { std::optional<Cell> r; for (int i = 0; i < R_; ++i) for (int j = 0; j < C_; ++j) if (at({i, j}) && at({i, j})->id == id) r = Cell{i, j}; return r; }
    bool route(Cell a, BoundaryType ta, Cell b, BoundaryType tb) {
        std::deque<Cell> q; std::set<Cell> seen; auto goal = [&](Cell x) { for (int d = 0; d < 4; ++d) if (vf::step(x, d) == b && side(at(b)->boundaries, d ^ 1).boundary_type == tb) return true; return false; };
        for (int d = 0; d < 4; ++d) { Cell y = vf::step(a, d); if (side(at(a)->boundaries, d).boundary_type != ta || !in(y)) continue; if (y == b && !(a == b) && side(at(b)->boundaries, d ^ 1).boundary_type == tb) return true; if (!at(y) && seen.insert(y).second) q.push_back(y); }
        while (!q.empty()) { Cell x = q.front(); q.pop_front(); if (goal(x)) return true; for (int d = 0; d < 4; ++d) { Cell y = vf::step(x, d); if (in(y) && !at(y) && seen.insert(y).second) q.push_back(y); } }
        return false;
    }
    bool unfinished() const { return !chains_.empty(); }
    const std::vector<std::optional<DensePatch>>& grid() const { return g_; }
    std::optional<DensePatch>& at(Cell c) { return g_.at(c.row * C_ + c.col); }
private:
    [[noreturn]] void bad(std::set<std::string> about, const std::string& m) { throw Complaint{about, "slice " + std::to_string(n_) + (what_.empty() ? "" : ", " + what_) + ": " + m}; }
    static DensePatch blank(PatchType t, PatchActivity a) { DensePatch d; d.type = t; d.activity = a; for (int i = 0; i < 4; ++i) side(d.boundaries, i) = {BoundaryType::None, false}; return d; }
    static DensePatch inert(PatchType t, PatchActivity a) { DensePatch d = blank(t, a); for (int i = 0; i < 4; ++i) side(d.boundaries, i) = {BoundaryType::Connected, false}; return d; }
    bool in(Cell c) const { return c.row >= 0 && c.col >= 0 && c.row < R_ && c.col < C_; }
    std::vector<Cell> observed(PatchId id) const { std::vector<Cell> r; for (int i = 0; i < R_; ++i) for (int j = 0; j < C_; ++j) { auto& p = s_->patch_at({i, j}); if (p && p->id == id) r.push_back({i, j}); } return r; }
    const std::optional<DensePatch>& obs(Cell c) const { return s_->patch_at(c); }
    Cell need(PatchId id, const std::set<std::string>& about = {"P09", "P24"}) { auto c = find(id); if (!c) bad(about, "applied although patch " + std::to_string(id) + " is not on the lattice"); return *c; }
    bool active(Cell c) { return at(c)->is_active(); }
    void idle(Cell c, std::set<std::string> about) { if (active(c)) bad(about, "applied although the patch at " + show(c) + " is busy"); }
    static int l1(Cell a, Cell b) { return std::abs(a.row - b.row) + std::abs(a.col - b.col); }
    // What passes from one slice to the next.
    void advance() {
        what_ = "";
        for (auto& p : g_) {
            if (!p) continue;
            if (p->activity == PatchActivity::Unitary) p->activity = PatchActivity::None;
            if (p->activity == PatchActivity::EDPC) p->activity = PatchActivity::Reserved;
            if (p->activity != PatchActivity::Rotation && p->activity != PatchActivity::Reserved) for (int d = 0; d < 4; ++d) side(p->boundaries, d).is_active = false;
            if (p->activity == PatchActivity::MultiPatchMeasurement || p->activity == PatchActivity::Measurement) p = std::nullopt;
        }
        auto prepared = [&](Cell c) { DensePatch d = square(std::nullopt, false); d.type = PatchType::PreparedState; at(c) = d; magic_.insert(c); seen.magic_made++; };
        if (lay_.magic_states_reserved()) {
            size_t i = 0;
            for (auto& c : lay_.reserved_for_magic_states()) {
                if (!at(c)) { at(c) = inert(PatchType::Distillation, PatchActivity::Distillation); timer_[i] = lay_.distillation_times()[i]; }
                else if (at(c)->type == PatchType::Distillation && --timer_[i] == 0) prepared(c);
                ++i;
            }
        } else for (size_t i = 0; i < timer_.size(); ++i) if (--timer_[i] == 0) {
            timer_[i] = lay_.distillation_times()[i]; bool room = false; std::vector<Cell> here;
            for (auto& c : lay_.distilled_state_locations(i)) if (!at(c)) { room = true; auto& o = obs(c); if (o && o->type == PatchType::PreparedState) here.push_back(c); }
            // which queue cell was taken: any free one; the code's own order unless the slice shows another
            if (room) {
                Cell pick{-1, -1}; for (auto& c : lay_.distilled_state_locations(i)) if (!at(c)) { pick = c; break; }
                prepared(pick);
            }
        }
    }
    int merge_counter_ = 0;
    void follow(Cell a, BoundaryType ta, Cell b, BoundaryType tb) {
        const std::set<std::string> P10{"P10"};
        std::vector<int> da; auto& oa = obs(a); if (!oa) bad(P10, "the merged patch at " + show(a) + " is not there");
        for (int d = 0; d < 4; ++d) if (side(oa->boundaries, d).is_active) da.push_back(d);
        if (a == b) { if (da.size() != 2) bad(P10, "an S gate has to join two boundaries of its patch, and " + std::to_string(da.size()) + " are active"); if (side(oa->boundaries, da[0]).boundary_type != ta) std::swap(da[0], da[1]); }
        else if (da.size() != 1) bad(P10, "a merged patch has to have one active boundary, the one at " + show(a) + " has " + std::to_string(da.size()));
        int db = -1;
        if (a == b) db = da[1]; else { auto& ob = obs(b); if (!ob) bad(P10, "the merged patch at " + show(b) + " is not there"); int cnt = 0; for (int d = 0; d < 4; ++d) if (side(ob->boundaries, d).is_active) { db = d; ++cnt; } if (cnt != 1) bad(P10, "a merged patch has to have one active boundary, the one at " + show(b) + " has " + std::to_string(cnt)); }
        auto type = [&](Cell x, int d) { return side(at(x)->boundaries, d).boundary_type; };
        if (type(a, da[0]) != ta) bad(P10, "the boundary joined at " + show(a) + " is not the one of the requested operator");
        if (type(b, db) != tb) bad(P10, "the boundary joined at " + show(b) + " is not the one of the requested operator");
        side(at(a)->boundaries, da[0]).is_active = true; side(at(b)->boundaries, db).is_active = true;
        Cell x = vf::step(a, da[0]); int from = da[0] ^ 1, len = 0; seen.merges++; if (a == b) seen.twists++;
        if (a != b && x == b) { if (vf::step(b, db) != a) bad(P10, "touching patches joined at boundaries that do not touch"); seen.touching++; return; }
        std::optional<OpId> op; bool first = true;
        while (true) {
            if (!in(x)) bad(P10, "the joined cells leave the lattice at " + show(x));
            if (at(x)) bad({"P10", "P08"}, "a merge runs over " + show(x) + ", which is occupied");
            auto& o = obs(x); if (!o || o->type != PatchType::Routing || o->activity != PatchActivity::MultiPatchMeasurement || o->id) bad(P10, "the chain of routing cells from " + show(a) + " to " + show(b) + " breaks at " + show(x));
            std::vector<int> on; for (int d = 0; d < 4; ++d) if (side(o->boundaries, d).is_active) on.push_back(d);
            if (on.size() == 1 && on[0] == from && a == b) bad(P10, "an S gate's chain ends at " + show(x));
            if (on.size() != 2 || (on[0] != from && on[1] != from)) bad(P10, "routing cell " + show(x) + " is not joined to exactly the cells before and after it");
            DensePatch w = blank(PatchType::Routing, PatchActivity::MultiPatchMeasurement); for (int d : on) side(w.boundaries, d) = {BoundaryType::Connected, true};
            if (first) { op = o->operation_id; first = false; if (bool(op) != k_.op_ids) bad(P10, op ? "a routing cell carries an operation id without the option" : "a routing cell carries no operation id"); if (op && !ops_.insert(*op).second) bad(P10, "operation id " + std::to_string(*op) + " is used by an earlier merge"); }
            else if (o->operation_id != op) bad(P10, "the cells of one merge carry different operation ids");
            w.operation_id = op; at(x) = w; ++len;
            int out = on[0] == from ? on[1] : on[0]; Cell y = vf::step(x, out);
            if (y == b && (out ^ 1) == db) break;
            x = y; from = out ^ 1;
        }
        seen.longest = std::max(seen.longest, len);
    }
    static bool marked(const std::optional<DensePatch>& p) { return p && p->type == PatchType::Routing && (p->activity == PatchActivity::EDPC || p->activity == PatchActivity::Reserved); }
    void place(Cell c, DensePatch d, const std::set<std::string>& about) { if (!in(c)) bad(about, "a patch is placed off the lattice"); if (at(c) && !marked(at(c))) bad(about, "a patch is placed on " + show(c) + ", which is occupied"); at(c) = d; }
    Cell appeared(PatchId id, const std::set<std::string>& about) {
        auto v = observed(id); if (v.size() > 1) bad({"P08"}, "patch " + std::to_string(id) + " is on two cells"); if (v.empty()) { for (auto& p : s_->cells) for (auto& q : p) if (q && q->activity == PatchActivity::Rotation) throw Unmodelled{}; bad(about, "patch " + std::to_string(id) + " is nowhere on the lattice"); }
        return v[0];
    }
    std::string tag() const { return k_.mode == PipelineMode::EDPC ? "P19" : "P20"; }
    // What the local operations of one Bell pair or CNOT have done so far: which cells hold its qubits, and their state.
    struct Chain { Tableau t; std::map<Cell, int> q; std::optional<Cell> control, target; uint64_t keep = 0; std::set<std::pair<Cell, Cell>> edges; bool cnot = false; std::vector<unsigned> done; };
    std::map<std::vector<PatchId>, Chain> chains_;
    struct WaveRoutes { int wave = -1; std::map<std::pair<Cell, Cell>, std::string> edges; std::map<Cell, int> cells; int routes = 0; } routes_;
    static std::pair<Cell, Cell> edge(Cell a, Cell b) { return b < a ? std::pair{b, a} : std::pair{a, b}; }
    void simulate(Chain& h, const LocalInstruction::LocalLSInstruction& i) {
        const std::set<std::string> P{tag()}; if (h.t.n > 60) throw Unmodelled{};
        auto mine = [&](Cell a, bool data = false) { auto it = h.q.find(a); if (it == h.q.end()) bad(P, "a local operation uses the patch at " + show(a) + ", which is not of its instruction"); if (!data && (a == h.control || a == h.target)) bad(P, "a local operation would consume the patch at " + show(a)); return it->second; };
        auto along = [&](Cell a, Cell b) { if (!h.edges.empty() && !h.edges.count(edge(a, b))) bad(P, "a local operation from " + show(a) + " to " + show(b) + " leaves the route of its instruction"); };
        auto fresh = [&](Cell a, char basis) { int n = h.t.add(basis); if (!h.q.emplace(a, n).second) bad(P, "a local operation prepares a patch where its instruction has one"); return n; };
        auto joint = [&](int a, int b, char p) { uint64_t m = (1ull << a) | (1ull << b); h.t.measure(Tableau::Row{p == 'X' ? m : 0, p == 'Z' ? m : 0}); };
        auto basis = [&](Cell a, Cell b) { auto t = side(at(a)->boundaries, dir_to(a, b)).boundary_type; if (t != BoundaryType::Rough && t != BoundaryType::Smooth) bad(P, "a local operation over a side of " + show(a) + " that is neither rough nor smooth"); return t == BoundaryType::Smooth ? 'Z' : 'X'; };
        std::visit([&](auto& o) {
            using T = std::decay_t<decltype(o)>; using namespace LocalInstruction;
            if constexpr (std::is_same_v<T, BellPrepare>) { along(o.cell1, o.cell2); int a = fresh(o.cell1, 'X'), b = fresh(o.cell2, 'Z'); h.t.cx(a, b); }
            else if constexpr (std::is_same_v<T, BellMeasure>) { along(o.cell1, o.cell2); int a = mine(o.cell1), b = mine(o.cell2); joint(a, b, 'X'); joint(a, b, 'Z'); h.q.erase(o.cell1); h.q.erase(o.cell2); }
            else if constexpr (std::is_same_v<T, Move>) { along(o.source_cell, o.target_cell); int a = mine(o.source_cell); h.q.erase(o.source_cell); if (!h.q.emplace(o.target_cell, a).second) bad(P, "a patch is moved onto another one of the same instruction"); }
            else if constexpr (std::is_same_v<T, ExtendSplit>) { along(o.target_cell, o.extension_cell); int a = mine(o.target_cell, true); char p = basis(o.target_cell, o.extension_cell); int b = fresh(o.extension_cell, p == 'Z' ? 'X' : 'Z'); joint(a, b, p); }
            else if constexpr (std::is_same_v<T, MergeContract>) { along(o.preserved_cell, o.measured_cell); int a = mine(o.preserved_cell, true), b = mine(o.measured_cell); char p = basis(o.preserved_cell, o.measured_cell); joint(a, b, p); h.t.measure1(b, p == 'Z' ? 'X' : 'Z'); h.q.erase(o.measured_cell); }
            else bad(P, "this kind of local operation has no place in a Bell pair or CNOT");
        }, i.operation);
    }
    void finished(const BellPairInit& x) {
        const std::set<std::string> P{tag()}; auto& h = chains_.at({x.side1, x.side2}); std::vector<Cell> on; for (auto& [c, q] : h.q) on.push_back(c);
        if (on.size() != 2) bad(P, "the operations of a Bell pair leave " + std::to_string(on.size()) + " patches behind instead of two");
        for (auto [id, loc] : {std::pair{x.side1, x.loc1}, {x.side2, x.loc2}}) {
            auto c = find(id), t = find(loc.target); if (!c || !h.q.count(*c)) bad(P, "half " + std::to_string(id) + " of the Bell pair is not among the patches prepared");
            int d = t ? dir_to(*t, *c) : -1; if (d < 0 || side(at(*t)->boundaries, d).boundary_type != (loc.op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth)) bad(P, "half " + std::to_string(id) + " of the Bell pair is not at the " + (loc.op == PauliOperator::X ? "rough" : "smooth") + " boundary of patch " + std::to_string(loc.target));
        }
        uint64_t m = 0; for (auto& [c, q] : h.q) m |= 1ull << q; std::vector<Tableau::Row> want{{0, m}, {m, 0}}; std::sort(want.begin(), want.end());
        if (h.t.on(m) != want) bad(P, "the operations of a Bell pair prepare another state"); chains_.erase({x.side1, x.side2});
    }
    void finished(const BellBasedCNOT& x) {
        const std::set<std::string> P{tag()}; auto& h = chains_.at({x.control, x.target, x.side1, x.side2});
        if (h.q.size() != 2 || !h.q.count(*h.control) || !h.q.count(*h.target)) bad(P, "the operations of a CNOT leave patches behind");
        Tableau r; for (int i = 0; i < 2; ++i) { int a = r.add('X'), b = r.add('Z'); r.cx(a, b); } r.cx(1, 3); if (h.t.on(15) != r.on(15)) bad(P, "the operations of a CNOT implement something else");
        seen.cnots++; chains_.erase({x.control, x.target, x.side1, x.side2});
    }
    void progress(Chain& h, const std::vector<std::vector<LocalInstruction::LocalLSInstruction>>& sets, const std::vector<std::pair<unsigned, unsigned>>& counters) {
        const std::set<std::string> P{tag()}; if (h.done.empty()) h.done.resize(sets.size()); else seen.retried++;
        if (sets.size() != h.done.size() || counters.size() != h.done.size()) bad(P, "the local operations change between retries");
        std::string what = what_;
        for (size_t j = 0; j < sets.size(); ++j) {
            if (counters[j].second < h.done[j] || counters[j].second > sets[j].size()) bad(P, "the count of applied local operations goes wrong");
            for (unsigned i = h.done[j]; i < counters[j].second; ++i) { for (size_t l = 0; l < j; ++l) if (counters[l].second < sets[l].size()) bad(P, "local operations of a later layer before those of an earlier one"); local(sets[j][i], &h); }
            h.done[j] = counters[j].second;
        }
        what_ = what;
    }
    // Of a route found in the edpc pipeline: where it goes, and that it shares no edge with the others of its wave.
    void route_of(const BellBasedCNOT& x, Chain& h) {
        const std::set<std::string> P{tag()}; if (!x.route) bad(P, "a CNOT is applied without a route"); auto& v = x.route->cells; if (v.size() < 4) bad(P, "the route of a CNOT is too short");
        if (routes_.wave != n_) { routes_ = {}; routes_.wave = n_; }
        if (v.front().cell != *h.target || v.back().cell != *h.control) bad(P, "the route of a CNOT does not lead from its target to its control");
        std::set<Cell> own;
        for (size_t i = 0; i < v.size(); ++i) {
            Cell c = v[i].cell; if (!in(c)) bad(P, "the route of a CNOT leaves the lattice"); if (!own.insert(c).second) bad(P, "the route of a CNOT passes " + show(c) + " twice");
            if (i) { Cell b = v[i - 1].cell; if (dir_to(b, c) < 0) bad(P, "the route of a CNOT jumps from " + show(b) + " to " + show(c)); h.edges.insert(edge(b, c)); auto [it, ok] = routes_.edges.emplace(edge(b, c), what_); if (!ok) bad(P, "the edge from " + show(b) + " to " + show(c) + " is also on the route of " + it->second); }
            if (i && i + 1 < v.size()) { int n = ++routes_.cells[c]; if (n > 2) bad(P, "more than two routes cross at " + show(c)); if (n == 2) seen.crossings++; auto& p = before_wave(c); if (p) bad(P, "the route of a CNOT passes over " + show(c) + ", which is occupied by " + text(p)); }
        }
        if (side(at(*h.target)->boundaries, dir_to(v[0].cell, v[1].cell)).boundary_type != BoundaryType::Rough) bad(P, "the route of a CNOT does not begin at a rough boundary of its target");
        if (side(at(*h.control)->boundaries, dir_to(v.back().cell, v[v.size() - 2].cell)).boundary_type != BoundaryType::Smooth) bad(P, "the route of a CNOT does not end at a smooth boundary of its control");
        seen.longest_route = std::max<int>(seen.longest_route, v.size()); seen.wave_cnots = std::max(seen.wave_cnots, ++routes_.routes);
        for (size_t i = 1; i + 1 < v.size(); ++i) if (!at(v[i].cell)) { auto d = blank(PatchType::Routing, PatchActivity::EDPC); at(v[i].cell) = d; }
    }
    std::vector<std::optional<DensePatch>> wave_; const std::optional<DensePatch>& before_wave(Cell c) const { return wave_.at(c.row * C_ + c.col); }
    void local(const LocalInstruction::LocalLSInstruction& i, Chain* h = nullptr) {
        seen.local_ops++; what_ = pbt::str(i); const std::set<std::string> P{tag()}, P8{tag(), "P08"};
        auto nb = [&](Cell a, Cell b) { if (!in(a) || !in(b) || dir_to(a, b) < 0) bad(P, "a local operation on cells that are not neighbours"); };
        auto join = [&](Cell a, Cell b) { side(at(a)->boundaries, dir_to(a, b)).is_active = true; side(at(b)->boundaries, dir_to(b, a)).is_active = true; };
        auto have = [&](Cell a) { if (!in(a) || !at(a)) bad(P, "a local operation uses an empty cell " + show(a)); if (active(a)) bad(P, "a local operation uses a busy patch at " + show(a)); };
        std::visit([&](auto& o) {
            using T = std::decay_t<decltype(o)>; using namespace LocalInstruction;
            if constexpr (std::is_same_v<T, PrepareY>) { DensePatch d = square(o.target_id, false); d.activity = PatchActivity::Unitary; place(o.target_cell, d, P8); }
            else if constexpr (std::is_same_v<T, BellPrepare>) { nb(o.cell1, o.cell2); place(o.cell1, square(o.side1, false), P8); place(o.cell2, square(o.side2, false), P8); join(o.cell1, o.cell2); }
            else if constexpr (std::is_same_v<T, BellMeasure>) { nb(o.cell1, o.cell2); have(o.cell1); have(o.cell2); join(o.cell1, o.cell2); at(o.cell1)->activity = at(o.cell2)->activity = PatchActivity::Measurement; }
            else if constexpr (std::is_same_v<T, Move>) { nb(o.source_cell, o.target_cell); have(o.source_cell); place(o.target_cell, square(o.new_id_for_target ? o.new_id_for_target : at(o.source_cell)->id, false), P8); join(o.source_cell, o.target_cell); at(o.source_cell)->activity = PatchActivity::Measurement; at(o.source_cell)->id = std::nullopt; }
            else if constexpr (std::is_same_v<T, TwoPatchMeasure>) { nb(o.cell1, o.cell2); have(o.cell1); have(o.cell2); join(o.cell1, o.cell2); }
            else if constexpr (std::is_same_v<T, ExtendSplit>) { nb(o.target_cell, o.extension_cell); have(o.target_cell); place(o.extension_cell, square(o.extension_id, false), P8); join(o.target_cell, o.extension_cell); }
            else if constexpr (std::is_same_v<T, MergeContract>) { nb(o.preserved_cell, o.measured_cell); have(o.preserved_cell); have(o.measured_cell); join(o.preserved_cell, o.measured_cell); at(o.measured_cell)->activity = PatchActivity::Measurement; }
        }, i.operation);
        if (h) simulate(*h, i);
    }
    // A local operation that is put off: it could not be applied.
    void stuck(const LocalInstruction::LocalLSInstruction& i) {
        auto free = [&](Cell c) { return in(c) && !at(c); }; auto idle = [&](Cell c) { return in(c) && at(c) && !active(c); };
        bool can = std::visit([&](auto& o) {
            using T = std::decay_t<decltype(o)>; using namespace LocalInstruction;
            if constexpr (std::is_same_v<T, BellPrepare>) return free(o.cell1) && free(o.cell2); else if constexpr (std::is_same_v<T, BellMeasure>) return idle(o.cell1) && idle(o.cell2);
            else if constexpr (std::is_same_v<T, Move>) return idle(o.source_cell) && free(o.target_cell); else if constexpr (std::is_same_v<T, ExtendSplit>) return idle(o.target_cell) && free(o.extension_cell);
            else if constexpr (std::is_same_v<T, MergeContract>) return idle(o.preserved_cell) && idle(o.measured_cell); else return false;
        }, i.operation);
        if (can && k_.mode != PipelineMode::EDPC) bad({"P20", "P24"}, pbt::str(i) + " is put off although it can be applied");
    }
    void apply(const LSInstruction& in) {
        std::visit([&](const auto& x) {
            using T = std::decay_t<decltype(x)>;
            if constexpr (std::is_same_v<T, SinglePatchMeasurement>) { at(need(x.target))->activity = PatchActivity::Measurement; seen.measured++; }
            else if constexpr (std::is_same_v<T, SingleQubitOp>) {
                Cell c = need(x.target); idle(c, {"P12", "P10"});
                if (x.op == SingleQubitOp::Operator::S) follow(c, BoundaryType::Rough, c, BoundaryType::Smooth);
                else if (x.op == SingleQubitOp::Operator::H) { auto b = at(c)->boundaries; at(c)->boundaries = CellBoundaries{b.left, b.right, b.bottom, b.top}; at(c)->activity = PatchActivity::Unitary; seen.hadamards++; }
            }
            else if constexpr (std::is_same_v<T, MultiPatchMeasurement>) {
                auto a = x.observable.begin(), b = std::next(a); Cell ca = need(a->first), cb = need(b->first); idle(ca, {"P10", "P12"}); idle(cb, {"P10", "P12"});
                if (k_.local) {
                    if (!x.local_instruction) bad({tag()}, "a local measurement without its local operation"); auto* o = std::get_if<LocalInstruction::TwoPatchMeasure>(&x.local_instruction->operation);
                    if (!o || edge(o->cell1, o->cell2) != edge(ca, cb)) bad({tag()}, "the local operation of a measurement is not one on the two patches"); int d = dir_to(ca, cb); if (d < 0) bad({tag()}, "a local measurement of patches that do not touch");
                    auto wrong = [](BoundaryType t, PauliOperator p) { return (t == BoundaryType::Rough && p != PauliOperator::X) || (t == BoundaryType::Smooth && p != PauliOperator::Z); };
                    if (wrong(side(at(ca)->boundaries, d).boundary_type, a->second) || wrong(side(at(cb)->boundaries, d ^ 1).boundary_type, b->second)) bad({tag()}, "a local measurement of patches that touch with other boundaries than those of the operators");
                    local(*x.local_instruction); return; }
                auto ty = [](PauliOperator p) { return p == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth; };
                follow(ca, ty(a->second), cb, ty(b->second));
            }
            else if constexpr (std::is_same_v<T, PatchInit>) {
                Cell c = appeared(x.target, {"P08"}); seen.inits++;
                if (x.place_next_to) { Cell t = need(x.place_next_to->target); int d = dir_to(t, c); if (d < 0) bad({"P08"}, "the patch is not placed next to the one it was asked next to"); if (side(at(t)->boundaries, d).boundary_type != (x.place_next_to->op == PauliOperator::X ? BoundaryType::Rough : BoundaryType::Smooth)) bad({"P08"}, "the patch is placed next to another boundary than the one asked for"); }
                else { auto& l = lay_.ancilla_location(); if (std::find(l.begin(), l.end(), c) == l.end()) bad({"P08"}, "the patch is not placed on an ancilla location"); }
                place(c, square(x.target, false), {"P08"});
            }
            else if constexpr (std::is_same_v<T, MagicStateRequest>) {
                if (magic_.empty()) bad({"P11"}, "a magic state is bound although none is ready");
                Cell q = need(x.near_patch, {"P11"}), c = appeared(x.target, {"P11"}); int best = 1 << 30; for (auto& m : magic_) best = std::min(best, l1(m, q));
                if (!magic_.count(c)) bad({"P11"}, "the state bound at " + show(c) + " is not a ready magic state");
                if (l1(c, q) != best) bad({"P11"}, "the magic state bound at " + show(c) + " is not the nearest one");
                at(c)->id = x.target; at(c)->type = PatchType::Qubit; at(c)->activity = PatchActivity::None; magic_.erase(c); seen.magic_bound++;
            }
            else if constexpr (std::is_same_v<T, YStateRequest>) {
                if (auto c = find(x.target)) { at(*c)->id = std::nullopt; seen.y_released++; return; }
                auto v = observed(x.target); if (v.empty()) throw Unmodelled{}; Cell c = appeared(x.target, {"P11"});
                if (at(c)) {
                    if (k_.local && k_.twists) bad({"P11"}, "a pre-distilled Y state is bound where it may not be used");
                    if (!ycells_.count(c) || at(c)->type != PatchType::Qubit || at(c)->id || active(c)) bad({"P11"}, "the patch bound at " + show(c) + " is not a Y state that is available");
                    Cell q = need(x.near_patch, {"P11"}); for (auto& y : ycells_) if (at(y) && at(y)->type == PatchType::Qubit && !at(y)->id && !active(y) && l1(y, q) < l1(c, q)) bad({"P11"}, "the Y state bound at " + show(c) + " is not the nearest one");
                    at(c)->id = x.target; seen.y_bound++;
                } else {
                    if (!k_.twists) bad({"P11"}, "a Y state is prepared without twists");
                    if (!k_.local) for (auto& y : ycells_) if (at(y) && at(y)->type == PatchType::Qubit && !at(y)->id && !active(y)) bad({"P11"}, "a Y state is prepared although one is available");
                    Cell q = need(x.near_patch, {"P11"}); int d = dir_to(q, c); if (d < 0 || side(at(q)->boundaries, d).boundary_type != BoundaryType::Smooth) bad({"P11"}, "the Y state is not prepared at a smooth boundary of its user");
                    DensePatch p = square(x.target, false); if (side(p.boundaries, d ^ 1).boundary_type != BoundaryType::Smooth) { auto b = p.boundaries; p.boundaries = CellBoundaries{b.left, b.right, b.bottom, b.top}; } p.activity = PatchActivity::Unitary; place(c, p, {"P11", "P08"}); seen.y_made++;
                }
            }
            else if constexpr (std::is_same_v<T, RotateSingleCellPatch>) {
                Cell c = need(x.target); if (at(c)->activity == PatchActivity::Unitary) at(c)->activity = PatchActivity::None; idle(c, {"P12", "P10"});
                auto& o = obs(c); const std::set<std::string> P12{"P12"}; if (!o || o->type != PatchType::Routing || o->activity != PatchActivity::Rotation || o->id) bad(P12, "the patch being rotated is not shown as such");
                int dir = -1; for (int d = 0; d < 4; ++d) if (side(o->boundaries, d).is_active) { if (dir >= 0) bad(P12, "a rotation takes more than one neighbour"); dir = d; }
                if (dir < 0) bad(P12, "a rotation takes no neighbour"); Cell y = vf::step(c, dir); if (!this->in(y) || at(y)) bad({"P12", "P08"}, "a rotation takes a neighbour that is not free");
                DensePatch old = *at(c), a = blank(PatchType::Routing, PatchActivity::Rotation), b = a; side(a.boundaries, dir) = {BoundaryType::Connected, true}; side(b.boundaries, dir ^ 1) = {BoundaryType::Connected, true};
                at(c) = a; at(y) = b; auto q = old.boundaries; old.boundaries = CellBoundaries{q.left, q.right, q.bottom, q.top};
                old.label = std::nullopt; turning_.push_back({c, y, old, n_}); seen.rotations++;
            }
            else if constexpr (std::is_same_v<T, BusyRegion>) {
                Turning* t = nullptr; for (auto& r : turning_) for (auto& oc : x.region.cells) if (oc.cell == r.cell) t = &r;
                if (!t) bad({"P12"}, "the end of a rotation that never started");
                int age = n_ - t->since; if (age > 3) bad({"P12"}, "a rotation takes more than three slices");
                if (x.steps_to_clear == 0) {
                    if (age == 2 && k_.mode == PipelineMode::Dag) seen.dag_short++; else if (age != 3) bad({"P12"}, "a rotation ends after " + std::to_string(age) + " slices instead of three");
                    at(t->cell) = t->patch; at(t->next) = std::nullopt; wave_.at(t->next.row * C_ + t->next.col) = std::nullopt; turning_.erase(turning_.begin() + (t - &turning_[0])); seen.rotated_back++;
                }
            }
            else if constexpr (std::is_same_v<T, PatchReset>) { }
            else if constexpr (std::is_same_v<T, BellPairInit>) {
                auto& h = chains_[{x.side1, x.side2}]; progress(h, {x.local_instructions.value()}, {x.counter.value()});
                if (x.counter->second == x.local_instructions->size()) { seen.bells++; seen.longest_route = std::max<int>(seen.longest_route, x.local_instructions->size() + 1); finished(x); } else stuck(x.local_instructions->at(x.counter->second));
            }
            else if constexpr (std::is_same_v<T, BellBasedCNOT>) {
                auto& h = chains_[{x.control, x.target, x.side1, x.side2}]; auto& v = x.local_instruction_sets.value(); auto& r = x.counter_pairs.value();
                if (!h.cnot) {
                    h.cnot = true; h.control = need(x.control); h.target = need(x.target); for (auto c : {*h.control, *h.target}) { int a = h.t.add('X'), b = h.t.add('Z'); h.t.cx(a, b); h.q[c] = b; }
                    if (k_.mode == PipelineMode::EDPC) route_of(x, h); else idle(*h.control, {"P20"}), idle(*h.target, {"P20"});
                }
                if (k_.mode == PipelineMode::EDPC && v.size() == 4 && v[2].size() && v[0].size() && h.done.empty()) seen.two_phase++;
                progress(h, v, r); size_t all = 0, done = 0, next = v.size(); for (size_t j = 0; j < v.size(); ++j) { all += v[j].size(); done += r[j].second; if (r[j].second < v[j].size()) next = std::min(next, j); }
                if (all == done) { seen.bells++; seen.longest_route = std::max<int>(seen.longest_route, all + 1); finished(x); } else if (k_.mode != PipelineMode::EDPC) stuck(v[next].at(r[next].second));
            }
            else throw Unmodelled{};
        }, in.operation);
    }
    static std::string text(const std::optional<DensePatch>& p) {
        if (!p) return "free"; std::string t = pbt::str(static_cast<const Patch&>(*p)) + (p->operation_id ? " op " + std::to_string(*p->operation_id) : "") + " sides";
        for (int d = 0; d < 4; ++d) { static const char* n[]{"none", "conn", "rough", "smooth", "res1", "res2"}; auto b = side(p->boundaries, d); t += std::string(" ") + n[int(b.boundary_type)] + (b.is_active ? "*" : ""); } return t;
    }
    void compare(bool pure_wait) {
        what_ = "";
        if (int(s_->cells.size()) != R_) bad({"P08", "P15"}, "the slice has another number of rows than the layout"); std::map<PatchId, Cell> ids;
        for (int i = 0; i < R_; ++i) { if (int(s_->cells[i].size()) != C_) bad({"P08", "P15"}, "a row of the slice has another length than the layout's"); for (int j = 0; j < C_; ++j) {
            Cell c{i, j}; auto& o = obs(c); auto& w = at(c); if (o && o->id && !ids.insert({*o->id, c}).second) bad({"P08"}, "patch " + std::to_string(*o->id) + " is on two cells");
            bool same = bool(o) == bool(w); if (same && o) same = o->type == w->type && o->activity == w->activity && o->id == w->id && o->operation_id == w->operation_id && (o->boundaries == w->boundaries || (marked(o) && marked(w)));
            if (same) continue;
            std::set<std::string> about; auto has = [&](auto f) { return (o && f(*o)) || (w && f(*w)); };
            if (has([](auto& p) { return p.type == PatchType::PreparedState || p.type == PatchType::Distillation; })) about.insert("P11");
            if (has([](auto& p) { return p.activity == PatchActivity::Rotation || p.activity == PatchActivity::Unitary; })) about.insert("P12");
            if (has([](auto& p) { return p.activity == PatchActivity::MultiPatchMeasurement; })) about.insert("P10");
            if (o && w && o->type == PatchType::Qubit && w->type == PatchType::Qubit) for (int d = 0; d < 4; ++d) { auto a = side(o->boundaries, d), b = side(w->boundaries, d); if (a.boundary_type != b.boundary_type) { about.insert("P12"); if (k_.local) about.insert(tag()); } if (a.is_active != b.is_active) { about.insert("P10"); if (k_.local) about.insert(tag()); } }
            if (o && w && o->operation_id != w->operation_id) about.insert("P10");
            if (bool(o) != bool(w) || o->id != w->id || o->type != w->type) { about.insert("P08"); if (k_.local) about.insert(tag()); if (ycells_.count(c)) about.insert("P11"); }
            if (about.empty()) about = {"P08", "P12"};
            if (pure_wait) about.insert("P24");
            bad(about, "cell " + show(c) + " is " + text(o) + ", expected " + text(w));
        } }
        if (s_->magic_states != magic_) bad({"P11"}, "the set of ready magic states is not the one on the lattice");
        for (size_t i = 0; i < timer_.size(); ++i) { bool waiting = !lay_.magic_states_reserved() || at(lay_.reserved_for_magic_states()[i])->type == PatchType::Distillation; if (waiting && s_->time_to_next_magic_state(i) != timer_[i]) bad({"P11", "P15"}, "time to the next magic state of region " + std::to_string(i) + " is " + std::to_string(s_->time_to_next_magic_state(i)) + ", expected " + std::to_string(timer_[i])); }
    }
    struct Turning { Cell cell, next; DensePatch patch; int since; };
    const Comp& k_; const Layout& lay_; int R_, C_; std::vector<std::optional<DensePatch>> g_; std::set<Cell> magic_, ycells_; DistillationTimeMap timer_; std::set<OpId> ops_; std::vector<Turning> turning_;
    const DenseSlice* s_ = nullptr; int n_ = 0; std::string what_;
};
// Runs the model over a recorded run. Complaints about the given property fail the case; one about another property ends it.
inline std::optional<Model> judge(pbt::Case& c, const Comp& k, const Run& r, const std::string& property) {
    Model m(k);
    Trace t(k);
    try {
        for (size_t n = 0; n < r.steps.size(); ++n) { auto& s = r.steps[n]; for (auto& i : s.applied) t.apply(i); m.step(s); m.waits(t, s, n + 1 == r.steps.size() && !r.error); }
        m.trace_events = t.events; m.trace_followups = t.followups;
        if (!r.error && !r.capped) if (auto u = t.undone()) { Complaint x{{"P09"}, "the program ended and " + *u}; if (m.unfinished()) x.about.insert(k.mode == PipelineMode::EDPC ? "P19" : "P20"); throw x; }
    }
    catch (const Complaint& x) { if (x.about.count(property)) c.fail(x.msg + "   [" + pbt::list(x.about) + "]"); c.label("stopped: complaint about " + pbt::list(x.about)); return std::nullopt; }
    catch (const Unmodelled&) { c.label("stopped: unmodelled"); m.unmodelled = true; return m; }
    return m;
}
}
