// The rotations' decomposition is built with a stand-in for gridsynth: it answers with words over H, S, T, X, Z (and W, a
// phase) whose distance to the rotation asked for is known, so that what is made of them can be compared to the unitary.
#define USE_GRIDSYNTH
#include <gates/gate_approximator.cpp>
#include <pipelines/slicer.cpp>
#include "channel.hpp"
#include "cli.hpp"
#include <lsqecc/gates/decompose_rotation_stream.hpp>
#include <lsqecc/gates/pi_over_2_to_the_n_rz_gate_approximations.hpp>
#include <boost/multiprecision/cpp_bin_float.hpp>
#include <boost/multiprecision/cpp_complex.hpp>
using namespace vf;
namespace {
M2 mul(const M2& a, const M2& b) { return {a[0] * b[0] + a[1] * b[2], a[0] * b[1] + a[1] * b[3], a[2] * b[0] + a[3] * b[2], a[2] * b[1] + a[3] * b[3]}; }
M2 letter(char c) { const double h = std::sqrt(0.5); switch (c) { case 'H': return {h, h, h, -h}; case 'S': return {1, 0, 0, Cx(0, 1)}; case 'T': return {1, 0, 0, std::polar(1.0, M_PI / 4)}; case 'X': return {0, 1, 1, 0}; case 'Z': return {1, 0, 0, -1}; case 'W': { auto w = std::polar(1.0, M_PI / 4); return {w, 0, 0, w}; } } abort(); }
M2 rz_matrix(double t) { return {std::polar(1.0, -t / 2), 0, 0, std::polar(1.0, t / 2)}; }
// The distance of two 2x2 unitaries in operator norm, up to a global phase.
double apart(const M2& a, const M2& b) { Cx t = 0; for (int i = 0; i < 4; ++i) t += std::conj(a[i]) * b[i]; double c = std::min(1.0, std::abs(t) / 2); return std::sqrt(std::max(0.0, 2 - 2 * c)); }
struct Word { std::string w; M2 m; };
const std::vector<Word>& words() {
    static const std::vector<Word> all = [] {
        std::vector<Word> cl; const std::vector<std::string> pre{"", "H", "SH", "HS", "SHS", "HSH"}, pauli{"", "X", "Z", "XZ"};
        auto of = [](const std::string& w) { M2 m{1, 0, 0, 1}; for (char c : w) m = mul(m, letter(c)); return Word{w, m}; };
        for (auto& p : pre) for (auto& q : pauli) cl.push_back(of(p + q));
        std::vector<Word> heads{of(""), of("T")}, r; size_t from = 0;
        for (int k = 0; k < 8; ++k) { size_t n = heads.size(); for (; from < n; ++from) for (auto y : {"HT", "SHT"}) { auto s = of(y); heads.push_back({heads[from].w + s.w, mul(heads[from].m, s.m)}); } }
        for (auto& h : heads) for (auto& k : cl) r.push_back({h.w + k.w, mul(h.m, k.m)});
        return r;
    }();
    return all;
}
struct Fake { double precision = 0; int answer = 0; bool none = false, noise = false; size_t calls = 0; double total = 0; std::set<double> asked; pbt::Src* s = nullptr; std::map<double, std::pair<std::string, double>> cache; } fake;
// A number as gridsynth reads one: sums and products of numbers and pi.
struct Reader {
    const char* p; bool ok = true;
    void skip() { while (*p == ' ') ++p; }
    double sum() { double v = product(); for (;;) { skip(); if (*p == '+') { ++p; v += product(); } else if (*p == '-') { ++p; v -= product(); } else return v; } }
    double product() { double v = unary(); for (;;) { skip(); if (*p == '*') { ++p; v *= unary(); } else if (*p == '/') { ++p; v /= unary(); } else return v; } }
    double unary() { skip(); if (*p == '-') { ++p; return -unary(); } if (*p == '+') { ++p; return unary(); } if (*p == '(') { ++p; double v = sum(); skip(); if (*p == ')') ++p; else ok = false; return v; }
        if (!strncmp(p, "pi", 2)) { p += 2; return M_PI; } if (!isdigit(*p)) { ok = false; return 0; } char* e; double v = strtod(p, &e); p = e; return v; }
};
}
extern "C" void hs_init(int*, char***) {} extern "C" void hs_exit(void) {}
extern "C" int gridsynth_angle_to_seq_with_precision_hs(double precision, const char* angle, char* buffer, int size) {
    fake.calls++; if (precision != fake.precision) throw pbt::Failure("gridsynth is asked for precision " + std::to_string(precision) + " in place of " + std::to_string(fake.precision));
    Reader r{angle}; double t = r.sum(); r.skip(); if (!r.ok || *r.p) throw pbt::Failure(std::string("gridsynth cannot read the angle ") + angle);
    fake.asked.insert(t); auto it = fake.cache.find(t);
    if (it == fake.cache.end()) {
        double k = t / (M_PI / 4); std::string w; double best = 9; auto goal = rz_matrix(t);
        if (std::abs(k - std::round(k)) < 1e-9) { int m = ((int64_t(std::round(k)) % 8) + 8) % 8; const char* ex[] = {"", "T", "S", "ST", "Z", "ZT", "ZS", "SZT"}; w = ex[m]; best = 1e-9; }
        else for (auto& x : words()) { double d = apart(goal, x.m); if (d < best) best = d, w = x.w; }
        it = fake.cache.emplace(t, std::pair{w, best}).first;
    }
    auto w = it->second.first; if (fake.none) w = ""; else fake.total += it->second.second;
    if (fake.noise) { std::string v; for (char c : w) { if (fake.s->chance(1, 6)) v += 'W'; if (fake.s->chance(1, 9)) v += fake.s->chance(1, 2) ? "HH" : "XX"; v += c; } if (fake.s->chance(1, 2)) v += "W"; w = v; }
    if (int(w.size()) + 1 > size) return 7; memset(buffer, 0, size); memcpy(buffer, w.data(), w.size()); return fake.answer;
}
namespace {
using gates::Gate; using T = gates::BasicSingleQubitGate::Type;
std::string text(const std::vector<Gate>& v) { std::string s; for (auto& g : v) s += canon(g) + "\n"; return s; }
bool same(const Gate& a, const Gate& b) { return canon(a) == canon(b); }
Fraction gen_angle(pbt::Src& s) {
    static const std::vector<int64_t> nice{1, 2, 4, 8, 16, 3, 5, 6, 7, 12, 100, 1 << 20, int64_t(1) << 40, int64_t(1) << 61};
    switch (s.below(3)) { case 0: return {1, int64_t(1) << s.below(6), s.chance(1, 3)}; case 1: return {1 + int64_t(s.below(15)), s.pick(nice), s.chance(1, 3)}; default: return {1 + int64_t(s.below(40)), 1 + int64_t(s.below(40)), s.chance(1, 3)}; }
}
Gate gen_gate(pbt::Src& s, uint32_t n) {
    auto g = gen_any_gate(s, n);
    if (auto* z = std::get_if<gates::RZ>(&g)) z->pi_fraction = gen_angle(s);
    if (auto* k = std::get_if<gates::ControlledGate>(&g)) { if (s.chance(1, 3)) k->target_gate = gates::RZ{target_of(k->target_gate), gen_angle(s)}; if (auto* z = std::get_if<gates::RZ>(&k->target_gate)) if (s.chance(3, 4)) z->pi_fraction = gen_angle(s); }
    return g;
}
bool rotation(const Gate& g) { if (std::holds_alternative<gates::RZ>(g)) return true; auto* k = std::get_if<gates::ControlledGate>(&g); return k && std::holds_alternative<gates::RZ>(k->target_gate); }
// The rotation g as one matrix; up to three qubits.
void apply(Op& o, const Gate& g) {
    if (auto* b = std::get_if<gates::BasicSingleQubitGate>(&g)) left(o, mat(*b), b->target_qubit); else if (auto* z = std::get_if<gates::RZ>(&g)) left(o, mat(*z), z->target_qubit);
    else { auto& k = std::get<gates::ControlledGate>(g); auto m = mat(k.target_gate); if (auto* z = std::get_if<gates::RZ>(&k.target_gate)) { auto p = std::conj(m[0]); for (auto& x : m) x *= p; } left(o, m, target_of(k.target_gate), k.control_qubit); } // RZ's own phase counts here: it is exp(i*pi*fraction), on |1>
}
Op unit(int n) { Op o(n); for (size_t i = 0; i < o.d; ++i) o.at(i, i) = 1; return o; }
void check_decomposition(pbt::Case& c, const Gate& g, const std::vector<Gate>& v, int n, double allowed) {
    auto on = acts_on(g);
    for (auto& x : v) {
        if (!gates::is_decomposed(x) || rotation(x)) c.fail("the decomposition contains " + canon(x) + ", which is itself to be decomposed:\n" + text(v));
        for (auto q : acts_on(x)) if (!on.count(q)) c.fail("the decomposition acts on qubit " + std::to_string(q) + ":\n" + text(v));
        if (std::holds_alternative<gates::Reset>(x)) c.fail("the decomposition resets a qubit:\n" + text(v));
        if (auto* k = std::get_if<gates::ControlledGate>(&x)) { auto& o = std::get<gates::ControlledGate>(g); c.check(k->cnot_type == o.cnot_type && k->cnot_ancilla_placement == o.cnot_ancilla_placement, "a controlled gate of the decomposition is not to be done in the way the gate asks for:\n" + text(v)); }
    }
    Op a = unit(n), b = unit(n); apply(a, g); for (auto& x : v) apply(b, x); Cx t = 0; for (size_t i = 0; i < a.m.size(); ++i) t += std::conj(a.m[i]) * b.m[i];
    double got = std::abs(t) / a.d, want = 1 - allowed * allowed / 2 - 1e-9; if (got < want) c.fail("the decomposition is another unitary (overlap " + std::to_string(got) + ", at least " + std::to_string(want) + " expected):\n" + text(v));
}
void setup(pbt::Src& s, pbt::Case& c) { fake.precision = double(1 + s.below(400)) / 8; fake.answer = 0; fake.none = false; fake.noise = s.chance(1, 3); fake.calls = 0; fake.total = 0; fake.asked.clear(); fake.s = &s; c.desc << "precision " << fake.precision << "\n"; }
void one_gate(pbt::Src& s, pbt::Case& c) {
    setup(s, c); int n = 1 + s.below(3); auto g = gen_gate(s, n); c.desc << canon(g) << "\n"; c.check(gates::is_decomposed(g) == !rotation(g), std::string("is said to be ") + (rotation(g) ? "decomposed" : "in need of decomposition"));
    bool refuse = s.chance(1, 12); if (refuse) fake.answer = 1 + s.below(5); std::vector<Gate> v; auto e = pbt::thrown([&] { v = gates::decompose(g, fake.precision); });
    if (refuse && fake.calls) { c.check(e.has_value(), "gridsynth reported an error, and the gate was decomposed all the same:\n" + text(v)); c.label("gridsynth failed"); return; }
    c.check(!e.has_value(), [&] { return "refused: " + *e; });
    if (!rotation(g)) { c.check(v.size() == 1 && same(v[0], g), "a gate that needs no decomposition became\n" + text(v)); c.check(!fake.calls, "gridsynth was asked"); c.label("needs none"); return; }
    check_decomposition(c, g, v, n, fake.total); c.nontrivial(); c.label(std::holds_alternative<gates::RZ>(g) ? "rz" : "crz"); c.label_if(fake.total < 1e-7, "exactly representable"); c.label_if(fake.noise, "with phases and cancelling pairs");
}
struct Gates : GateStream { std::vector<Gate> v; size_t i = 0; Qreg reg{"q", 3}; Gate get_next_gate() override { return v.at(i++); } bool has_next_gate() const override { return i < v.size(); } const Qreg& get_qreg() const override { return reg; } };
void streams(pbt::Src& s, pbt::Case& c) {
    setup(s, c); fake.noise = false; fake.none = s.chance(1, 4); int n = 1 + s.below(3), len = s.below(9); auto in = std::make_unique<Gates>(); in->reg = Qreg{s.chance(1, 2) ? "q" : "reg", uint32_t(n)}; auto reg = in->reg; std::vector<Gate> want; bool all = true; size_t rot = 0;
    while (len--) { auto g = gen_gate(s, n); in->v.push_back(g); c.desc << canon(g) << "\n"; rot += rotation(g); for (auto& x : gates::decompose(g, fake.precision)) want.push_back(x); }
    c.label_if(fake.none, "rotations that need no gates"); c.nontrivial(rot >= 1 && in->v.size() >= 2);
    DecomposeRotationStream st(std::move(in), fake.precision); std::vector<Gate> got;
    while (st.has_next_gate()) { for (int k = s.below(3); k--;) c.check(st.has_next_gate(), "has_next_gate changes its mind"); got.push_back(st.get_next_gate()); c.check(got.size() <= want.size(), [&] { return "more gates than expected:\n" + text(got); }); }
    c.check(text(got) == text(want), [&] { return "the stream is\n" + text(got) + "in place of\n" + text(want); }); c.check(st.get_qreg().name == reg.name && st.get_qreg().size == reg.size, "the register is another");
    c.label_if(got.size() > 20, "more than 20 gates");
}
// The denominator cannot be doubled: refused, not wrong.
void extremes(pbt::Src& s, pbt::Case& c) {
    setup(s, c); fake.noise = false; fake.none = false; int64_t den = std::numeric_limits<int64_t>::max() - int64_t(s.below(1000)); if (s.chance(1, 2)) den = den / 2 - 3 + int64_t(s.below(7)); if (s.chance(1, 4)) den = (int64_t(1) << 62) - int64_t(s.below(3));
    Gate g = gates::ControlledGate{0, gates::RZ{1, Fraction{1, den, s.chance(1, 2)}}, gates::ControlledGate::default_cnot_type, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET}; c.desc << canon(g) << "\n"; c.nontrivial();
    std::vector<Gate> v; auto e = pbt::thrown([&] { v = gates::decompose(g, fake.precision); }); if (e) { c.label("refused"); return; } c.label("decomposed"); check_decomposition(c, g, v, 2, fake.total); for (double t : fake.asked) if (std::abs(t) > 1e-15) c.fail("gridsynth was asked for " + std::to_string(t));
}
// The slicer built with gridsynth: a program with rotations is sliced as the one in which their sequences are written out.
void slicer_program(pbt::Src& s, pbt::Case& c) {
    setup(s, c); fake.noise = false; bool given = s.chance(3, 4); if (!given) fake.precision = 10; int n = 1 + s.below(3); std::string qasm = "OPENQASM 2.0;\nqreg q[" + std::to_string(n) + "];\n", plain = qasm; size_t rot = 0;
    auto q = [](uint32_t i) { return "q[" + std::to_string(i) + "]"; };
    for (int len = 1 + s.below(6); len--;) {
        Fraction f = gen_angle(s); if (f.num > 100 || f.den > 100) f = {1, 16, f.is_negative}; uint32_t a = s.below(n), b = s.below(n); std::string angle = std::string(f.is_negative ? "-" : "") + (f.num == 1 && s.chance(1, 2) ? "" : std::to_string(f.num) + "*") + "pi/" + std::to_string(f.den); std::vector<Gate> v;
        switch (s.below(4)) {
            case 0: { auto g = s.pick(std::vector<std::string>{"h", "x", "z", "s", "t"}) + " " + q(a) + ";\n"; qasm += g; plain += g; continue; }
            case 1: if (a != b) { f.num = 1; f.is_negative = false; angle = "pi/" + std::to_string(f.den); v = gates::decompose(gates::ControlledGate{a, gates::RZ{b, f}, gates::ControlledGate::default_cnot_type, gates::CNOTAncillaPlacement::ANCILLA_NEXT_TO_TARGET}, fake.precision); qasm += "crz(" + angle + ") " + q(a) + "," + q(b) + ";\n"; break; } [[fallthrough]];
            default: v = gates::decompose(gates::RZ{a, f}, fake.precision); qasm += "rz(" + angle + ") " + q(a) + ";\n"; break;
        }
        ++rot; static const std::map<T, std::string> nm{{T::X, "x"}, {T::Z, "z"}, {T::H, "h"}, {T::S, "s"}, {T::T, "t"}};
        for (auto& g : v) { if (auto* k = std::get_if<gates::ControlledGate>(&g)) plain += (std::get<gates::BasicSingleQubitGate>(k->target_gate).gate_type == T::Z ? "cz " : "cx ") + q(k->control_qubit) + "," + q(target_of(k->target_gate)) + ";\n"; else { auto& b = std::get<gates::BasicSingleQubitGate>(g); if (!nm.count(b.gate_type)) { c.label("a gate without a name in QASM"); c.discard(); } plain += nm.at(b.gate_type) + " " + q(b.target_qubit) + ";\n"; } }
    }
    std::ostringstream pr; pr << fake.precision; std::vector<std::string> a{"-I", "qasm", "-P", "dag"}; if (s.chance(1, 3)) a = a + std::vector<std::string>{"--local"}; if (std::count(plain.begin(), plain.end(), '\n') > 60) a.push_back("--printlli"); else a = a + s.pick(std::vector<std::vector<std::string>>{{"--printlli"}, {"--printlli"}, {"--printlli", "sliced", "-t", "1"}, {"--printdag", "processedlli"}});
    auto opt = given ? std::vector<std::string>{"--rzprecision", pr.str()} : std::vector<std::string>{}; c.desc << join(a + opt) << "\n" << qasm; fake.calls = 0; auto want = slicer(a, plain); if (want.err.find("Out of time") != std::string::npos) c.discard(); size_t before = fake.calls; auto got = slicer(s.chance(1, 2) ? a + opt : opt + a, qasm); c.nontrivial(rot >= 2); c.label(given ? "--rzprecision" : "default precision"); if (got.err.find("Out of time") != std::string::npos) c.discard();
    c.eq(before, size_t(0), "gridsynth asked for a program without rotations"); c.eq(got.code, want.code, "exit code (" + got.err + ")"); if (got.out != want.out) c.fail("the program gives\n" + got.out.substr(0, 1500) + "in place of, with the sequences written out,\n" + want.out.substr(0, 1500)); c.label(got.code ? "refused" : "compared"); c.label_if(fake.calls > 0, "gridsynth asked");
}
// Row n of the table of rz(pi/2^n), with 100 digits.
void table(pbt::Src& s, pbt::Case& c) {
    using R = boost::multiprecision::cpp_bin_float_100; using C = boost::multiprecision::cpp_complex_100; auto& t = get_pi_over_2_to_the_n_rz_gate; size_t n = s.below(135); c.desc << "row " << n << "\n"; c.check(n < t.size(), "there is no such row"); auto w = t[n]; c.nontrivial();
    R h = sqrt(R(1) / 2); C i(0, 1), p(h, h), m[4] = {1, 0, 0, 1};
    for (char x : w) { // m := m * letter
        if (x == 'H') for (int r : {0, 2}) { C a = m[r], b = m[r + 1]; m[r] = (a + b) * h; m[r + 1] = (a - b) * h; }
        else if (x == 'X') for (int r : {0, 2}) std::swap(m[r], m[r + 1]); else { C f = x == 'S' ? i : x == 'T' ? p : x == 'Z' ? C(-1) : x == 'W' ? C(1) : C(0); c.check(f != C(0), std::string("contains ") + x); m[1] *= f; m[3] *= f; } }
    R a = boost::math::constants::pi<R>() / pow(R(2), int(n)) / 2; C tr = C(cos(a), sin(a)) * m[0] + C(cos(a), -sin(a)) * m[3]; R cs = sqrt(tr.real() * tr.real() + tr.imag() * tr.imag()) / 2, d = 2 * (1 - cs); d = d > 0 ? sqrt(d) : R(0);
    if (d > R("1e-41")) c.fail("the sequence is off by " + d.str(3)); c.label_if(n > 100, "above 100");
}
}
PBT_MAIN("P25", "the gate is a rotation (in a stream: one of several gates is); every table row and extreme counts", {
    {"one gate", one_gate, 12000, 300000}, {"streams", streams, 6000, 150000}, {"slicer", slicer_program, 600, 20000}, {"extreme denominators", extremes, 300, 5000}, {"table", table, 1200, 2000}})
