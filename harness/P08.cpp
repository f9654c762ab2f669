#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); auto m = judge(c, k, r, "P08"); if (!m) return; auto& s = m->seen; (void)s;
    c.nontrivial(r.steps.size() >= 3 && (s.merges || s.rotations || s.local_ops)); c.label(r.capped ? "cut short" : r.error ? "ended by an error" : "completed"); c.label(mode_name(k.mode));
    c.label_if(s.rotations, "rotations"); c.label_if(s.magic_bound, "magic states"); c.label_if(s.bells, "local operations"); c.label_if(s.merges, "merges");
}
static Opt opt() { Opt o;  return o; }
static void circuits(pbt::Src& s, pbt::Case& c) { go(c, gen_circuit(s, c, opt()), 400); }
static void raw(pbt::Src& s, pbt::Case& c) { go(c, gen_raw(s, c, opt()), 400); }
// Long histories on many qubits.
static void large(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = s.chance(1, 5); o.max_gates = 100; o.max_qubits = 24; go(c, gen_circuit(s, c, o), 1500); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = true; go(c, gen_circuit(s, c, o), 400); }
PBT_MAIN("P08", "at least three slices, with a merge, rotation or local operation", {{"circuits on generated layouts", circuits, 4000, 100000}, {"instructions on drawn lattices", raw, 10000, 300000}, {"edpc circuits", edpc, 1000, 30000}, {"large circuits", large, 150, 5000, 120}})
