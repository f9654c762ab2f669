#pragma once
#include "pbt.hpp"
namespace vf {
// Damages a text: bytes, tokens and lines; from a light touch to soup.
inline std::string mutate(pbt::Src& s, std::string t, const std::vector<std::string>& dict) {
    int n = s.chance(1, 3) ? 1 + s.below(8) : 1;
    for (int k = 0; k < n; ++k) {
        size_t at = t.empty() ? 0 : s.below(t.size() + 1);
        switch (s.below(10)) {
            case 0: if (at < t.size()) t.erase(at, 1); break;
            case 1: if (at < t.size()) t[at] = static_cast<char>(s.below(256)); break;
            case 2: t.insert(at, 1, " ;,:[]()/*-+%\n\t|0>9pXq\r"[s.below(24)]); break;
            case 3: t.insert(at, s.pick(dict)); break;
            case 4: if (at < t.size()) t.erase(at, 1 + s.below(12)); break;
            case 5: { if (t.empty()) break; size_t b = s.below(t.size()), l = 1 + s.below(30); t.insert(at, t.substr(b, l)); break; }
            case 6: t = t.substr(0, at); break;
            case 7: { size_t e = t.find('\n', at); if (e != std::string::npos) t.erase(at, e - at); break; }
            case 8: { size_t d = t.find_first_of("0123456789", at); if (d != std::string::npos) t.replace(d, 1, s.pick(std::vector<std::string>{"-1", "", "99999999999999999999999", "4294967296", "2147483648", "0x1", "1e3", "00", "+1", " 1", "1 "})); break; }
            // a token much longer than any in use
            case 9: { if (t.empty()) break; at %= t.size(); t.insert(at, size_t(1) << (4 + s.below(10)), t[at]); break; }
        }
    }
    return t;
}
inline std::string soup(pbt::Src& s, const std::vector<std::string>& dict) {
    std::string t; int n = s.below(40);
    for (int i = 0; i < n; ++i) { if (s.chance(1, 5)) t += static_cast<char>(s.below(256)); else t += s.pick(dict); if (s.chance(1, 3)) t += " "; if (s.chance(1, 5)) t += "\n"; }
    return t;
}
inline std::string quoted(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; } return o; }
}
