#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); auto m = judge(c, k, r, "P10"); if (!m) return; auto& s = m->seen; (void)s;
    c.nontrivial(s.merges >= 1 && (s.merges >= 2 || s.longest >= 2)); c.label(r.capped ? "cut short" : r.error ? "ended by an error" : "completed"); c.label(mode_name(k.mode));
    c.label_if(s.touching, "touching patches"); c.label_if(s.twists, "S gate by twist"); c.label_if(s.longest >= 4, "route of four cells or more"); c.label_if(k.op_ids, "operation ids"); c.label_if(s.same_slice >= 2, "several merges in one slice");
}
static Opt opt() { Opt o; o.merge_heavy = true; o.local = false; return o; }
static void circuits(pbt::Src& s, pbt::Case& c) { go(c, gen_circuit(s, c, opt()), 400); }
static void raw(pbt::Src& s, pbt::Case& c) { go(c, gen_raw(s, c, opt()), 400); }
// Long histories on many qubits.
static void large(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = s.chance(1, 5); o.max_gates = 100; o.max_qubits = 24; go(c, gen_circuit(s, c, o), 1500); }
PBT_MAIN("P10", "at least two merges, or one by a route of two cells or more", {{"circuits on generated layouts", circuits, 4000, 100000}, {"instructions on drawn lattices", raw, 10000, 300000}, {"large circuits", large, 150, 5000, 120}})
