// Stabilizer groups modulo signs (that is, modulo Pauli corrections), for deciding whether instructions implement a circuit.
#pragma once
#include <cstdint>
#include <vector>
#include <algorithm>
#include <map>
namespace vf {
struct Tableau {     // at most 64 qubits; full rank
    struct Row { uint64_t x = 0, z = 0; bool operator<(const Row& o) const { return x != o.x ? x < o.x : z < o.z; } bool operator==(const Row&) const = default; };
    std::vector<Row> rows; int n = 0;
    int add(char basis) { int q = n++; uint64_t b = 1ull << q; rows.push_back(basis == 'Z' ? Row{0, b} : basis == 'X' ? Row{b, 0} : Row{b, b}); return q; }
    void h(int q) { uint64_t b = 1ull << q; for (auto& r : rows) { uint64_t x = r.x & b, z = r.z & b; r.x = (r.x & ~b) | z; r.z = (r.z & ~b) | x; } }
    void s(int q) { uint64_t b = 1ull << q; for (auto& r : rows) if (r.x & b) r.z ^= b; }
    void cx(int c, int t) { uint64_t bc = 1ull << c, bt = 1ull << t; for (auto& r : rows) { if (r.x & bc) r.x ^= bt; if (r.z & bt) r.z ^= bc; } }
    static bool anti(const Row& a, const Row& b) { return (__builtin_popcountll(a.x & b.z) + __builtin_popcountll(a.z & b.x)) & 1; }
    void measure(Row p) {
        int g = -1;
        for (size_t i = 0; i < rows.size(); ++i) if (anti(rows[i], p)) { if (g < 0) g = int(i); else { rows[i].x ^= rows[g].x; rows[i].z ^= rows[g].z; } }
        if (g >= 0) rows[g] = p;
    }
    void measure1(int q, char b) { uint64_t m = 1ull << q; measure(Row{b != 'Z' ? m : 0, b != 'X' ? m : 0}); }
    void reset(int q) { measure1(q, 'Z'); }   // up to a Pauli
    // The subgroup supported on the qubits in keep, in a canonical form.
    std::vector<Row> on(uint64_t keep) const {
        auto v = rows; size_t r = 0;
        auto reduce = [&](bool xbit, int q) {
            uint64_t b = 1ull << q; auto has = [&](const Row& w) { return (xbit ? w.x : w.z) & b; };
            size_t p = r; while (p < v.size() && !has(v[p])) ++p; if (p == v.size()) return;
            std::swap(v[r], v[p]);
            for (size_t i = 0; i < v.size(); ++i) if (i != r && has(v[i])) { v[i].x ^= v[r].x; v[i].z ^= v[r].z; }
            ++r;
        };
        for (int q = 0; q < n; ++q) if (!(keep >> q & 1)) { reduce(true, q); reduce(false, q); }
        for (int q = 0; q < n; ++q) if (keep >> q & 1) { reduce(true, q); reduce(false, q); }
        std::vector<Row> out; for (auto& w : v) if (!((w.x | w.z) & ~keep) && (w.x | w.z)) out.push_back(w);
        std::sort(out.begin(), out.end()); return out;
    }
};
}
