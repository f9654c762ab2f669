#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); auto m = judge(c, k, r, "P11"); if (!m) return; auto& s = m->seen; (void)s;
    c.nontrivial(s.magic_made >= 2 && s.magic_bound >= 1 || s.y_bound || s.y_made); c.label(r.capped ? "cut short" : r.error ? "ended by an error" : "completed"); c.label(mode_name(k.mode));
    c.label_if(s.magic_made > s.magic_bound, "unused states"); c.label_if(s.magic_bound, "magic state bound"); c.label_if(s.y_bound, "Y state bound"); c.label_if(s.y_released, "Y state released"); c.label_if(s.y_made, "Y state prepared"); c.label(k.layout->magic_states_reserved() ? "reserved cells" : k.layout->distillation_regions().empty() ? "no magic states" : "regions");
}
static Opt opt() { Opt o; o.magic_heavy = true; return o; }
static void circuits(pbt::Src& s, pbt::Case& c) { go(c, gen_circuit(s, c, opt()), 400); }
static void raw(pbt::Src& s, pbt::Case& c) { go(c, gen_raw(s, c, opt()), 400); }
// Long histories on many qubits.
static void large(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = s.chance(1, 5); o.max_gates = 100; o.max_qubits = 24; go(c, gen_circuit(s, c, o), 1500); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = true; go(c, gen_circuit(s, c, o), 400); }
PBT_MAIN("P11", "two magic states made and one bound, or a Y state used", {{"circuits on generated layouts", circuits, 4000, 100000}, {"instructions on drawn lattices", raw, 10000, 300000}, {"edpc circuits", edpc, 1000, 30000}, {"large circuits", large, 150, 5000, 120}})
