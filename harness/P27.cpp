#include "model.hpp"
using namespace vf;
// Every circuit comes to an end on every generated layout.
static void go(pbt::Src& s, pbt::Case& c, Opt o) {
    o.no_factories = true; Comp k = gen_circuit(s, c, o); bool compact = k.layout_name.find("compact") == 0, clogs = k.layout_name == "compact";
    Run r = run(k, 300 + 60 * k.prog.size()); std::map<PatchId, bool> seen; size_t rot = 0, magic = 0, y = 0; for (auto& i : k.prog) { rot += std::holds_alternative<RotateSingleCellPatch>(i.operation); magic += std::holds_alternative<MagicStateRequest>(i.operation); y += std::holds_alternative<YStateRequest>(i.operation); }
    c.nontrivial(k.prog.size() >= 6); c.label(k.layout_name); c.label(mode_name(k.mode)); c.label_if(k.local, "local"); c.label_if(!k.twists, "no twists"); c.label_if(magic, "magic states"); c.label_if(y, "Y states"); c.label_if(rot, "rotations"); c.label_if(k.prog.size() > 100, "more than 100 instructions");
    if (r.error && r.error->find("requires shortest route to be at least two tiles") != std::string::npos) return c.label("touching patches refused");
    if (!r.error && !r.capped) {
        std::map<std::string, int> left; auto key = [](const LSInstruction& i) { return std::to_string(i.operation.index()) + " " + pbt::list(i.get_operating_patches()); }; for (auto& i : k.prog) ++left[key(i)];
        auto done = [&](auto& v) { for (auto& i : v) --left[key(i)]; }; for (auto& x : r.steps) done(x.applied); done(r.rest);
        for (auto& [w, n] : left) if (n > 0) c.fail("the computation ended, but of the instructions of kind and patches " + w + " " + std::to_string(n) + " were never carried out");
        return c.label("completed");
    }
    // Known: states left waiting in the queue of the compact layout shut each other in
    if (clogs && !r.steps.empty()) { size_t waiting = 0; auto& last = r.steps.back().slice; for (auto& x : k.layout->distilled_state_locations(0)) waiting += last.patch_at(x).has_value(); if (waiting >= 2) { c.known("compact-queue-clogs"); return; } }
    c.fail(r.error ? "the program ends with an error: " + *r.error : "the program is not finished after " + std::to_string(r.steps.size()) + " slices; " + std::to_string(r.steps.size() ? r.rest.size() : 0) + " instructions in the last one");
}
static void small(pbt::Src& s, pbt::Case& c) { Opt o; o.max_qubits = 6; o.max_gates = 10; o.plain_compact = true; go(s, c, o); }
static void large(pbt::Src& s, pbt::Case& c) { Opt o; o.max_qubits = 20; o.max_gates = 60; o.plain_compact = true; go(s, c, o); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = true; o.max_qubits = 16; o.max_gates = 40; go(s, c, o); }
PBT_MAIN("P27", "six instructions or more", {{"small circuits", small, 4000, 120000}, {"large circuits", large, 300, 12000, 120}, {"edpc pipeline", edpc, 600, 20000, 120}})
