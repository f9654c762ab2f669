#include "model.hpp"
using namespace vf;
static void go(pbt::Case& c, const Comp& k, size_t cap) {
    Run r = run(k, cap); auto m = judge(c, k, r, "P12"); if (!m) return; auto& s = m->seen; (void)s;
    c.nontrivial(s.rotated_back || s.hadamards); c.label(r.capped ? "cut short" : r.error ? "ended by an error" : "completed"); c.label(mode_name(k.mode));
    if (s.dag_short) c.known("dag-rotation-slices"); c.label_if(s.rotated_back, "rotation"); c.label_if(s.rotated_back > 1, "several rotations"); c.label_if(s.hadamards, "H"); c.label_if(s.waits, "waiting");
}
static Opt opt() { Opt o; o.rot_heavy = true; return o; }
static void circuits(pbt::Src& s, pbt::Case& c) { go(c, gen_circuit(s, c, opt()), 400); }
static void raw(pbt::Src& s, pbt::Case& c) { go(c, gen_raw(s, c, opt()), 400); }
// Long histories on many qubits.
static void large(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = s.chance(1, 5); o.max_gates = 100; o.max_qubits = 24; go(c, gen_circuit(s, c, o), 1500); }
static void edpc(pbt::Src& s, pbt::Case& c) { Opt o = opt(); o.edpc = true; go(c, gen_circuit(s, c, o), 400); }
PBT_MAIN("P12", "a rotation seen to its end, or an H gate", {{"circuits on generated layouts", circuits, 4000, 100000}, {"instructions on drawn lattices", raw, 10000, 300000}, {"edpc circuits", edpc, 1000, 30000}, {"large circuits", large, 150, 5000, 120}})
