#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); Trace t(k); size_t together = 0, ended = 0;
    try {
        for (auto& s : r.steps) { size_t before = t.events - t.followups; for (auto& i : s.applied) { t.apply(i); ended += t.ends_slice; } together = std::max(together, t.events - t.followups - before); }
        for (auto& i : r.rest) { t.apply(i); ended += t.ends_slice; }
        if (!r.error && !r.capped) {
            if (auto u = t.undone()) c.fail("the program ended and " + *u);
            c.eq(r.instructions, k.mode == PipelineMode::Stream ? k.prog.size() : t.events, "the reported number of instructions");
            size_t said = k.mode == PipelineMode::Stream ? ended + 1 : r.steps.size() + 1;
            if (r.slices != r.steps.size()) { c.eq(r.slices, said, "the reported number of slices (there are " + std::to_string(r.steps.size()) + ")"); c.known("slice-count"); }
        }
    } catch (const Complaint& x) { c.fail(x.msg); }
    c.nontrivial(t.events >= 6 && (together >= 2 || t.followups)); c.label(r.capped ? "cut short" : r.error ? "ended by an error" : "completed"); c.label(mode_name(k.mode));
    c.label_if(together >= 4, "four instructions or more in one slice"); c.label_if(t.followups, "follow-ups"); c.label_if(k.local, "local");
}
static void circuits(pbt::Src& s, pbt::Case& c) { Opt o; o.max_gates = 14; go(c, gen_circuit(s, c, o), 500); }
static void raw(pbt::Src& s, pbt::Case& c) { go(c, gen_raw(s, c, Opt{}), 400); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = true; o.max_gates = 14; go(c, gen_circuit(s, c, o), 300); }
static void large(pbt::Src& s, pbt::Case& c) { Opt o; o.edpc = s.chance(1, 5); o.max_gates = 100; o.max_qubits = 24; go(c, gen_circuit(s, c, o), 1500); }
PBT_MAIN("P09", "at least six instructions applied, several in one slice or with follow-ups", {{"circuits on generated layouts", circuits, 4000, 100000}, {"instructions on drawn lattices", raw, 10000, 300000}, {"edpc circuits", edpc, 2000, 50000}, {"large circuits", large, 200, 5000, 120}})
