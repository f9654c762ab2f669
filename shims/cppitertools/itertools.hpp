// Stand-in for the cppitertools submodule, which is empty in this sandbox. liblsqecc uses only iter::enumerate.
#ifndef VERIF_SHIM_ITERTOOLS
#define VERIF_SHIM_ITERTOOLS
#include <cstddef>
#include <iterator>
#include <utility>
namespace iter {
template<class C> class Enumerated {
    C c_;
    using It = decltype(std::begin(std::declval<C&>()));
public:
    explicit Enumerated(C&& c) : c_(std::forward<C>(c)) {}
    struct Iterator {
        std::size_t i; It it;
        using R = decltype(*std::declval<It&>());
        std::pair<std::size_t, R> operator*() { return {i, *it}; }
        Iterator& operator++() { ++i; ++it; return *this; }
        bool operator!=(const Iterator& o) const { return it != o.it; }
    };
    Iterator begin() { return {0, std::begin(c_)}; }
    Iterator end() { return {0, std::end(c_)}; }
};
template<class C> Enumerated<C> enumerate(C&& c) { return Enumerated<C>(std::forward<C>(c)); }
}
#endif
