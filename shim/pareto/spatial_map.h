// Minimal stand-in for pareto::spatial_map (the submodule is empty here): a
// list of (point, value) pairs in insertion order; find_intersection returns
// the first inserted point inside the closed box.
#pragma once
#include <array>
#include <cstddef>
#include <initializer_list>
#include <utility>
#include <vector>

namespace pareto
{
template<typename T, size_t N>
struct point
{
    std::array<T, N> v{};
    point() = default;
    point(std::initializer_list<T> l)
    {
        size_t i = 0;
        for (auto &x : l)
            if (i < N)
                v[i++] = x;
    }
    const T &operator[](size_t i) const { return v[i]; }
    T &operator[](size_t i) { return v[i]; }
};

template<typename T, size_t N, typename V>
class spatial_map
{
    std::vector<std::pair<point<T, N>, V>> items;

public:
    using iterator = typename std::vector<std::pair<point<T, N>, V>>::iterator;
    iterator begin() { return items.begin(); }
    iterator end() { return items.end(); }
    size_t size() const { return items.size(); }
    bool empty() const { return items.empty(); }
    void clear() { items.clear(); }
    template<typename P>
    std::pair<iterator, bool> emplace(P &&p, V v)
    {
        items.emplace_back(std::forward<P>(p), std::move(v));
        return {items.end() - 1, true};
    }
    iterator find_intersection(const point<T, N> &lo, const point<T, N> &hi)
    {
        for (auto it = items.begin(); it != items.end(); ++it) {
            bool in = true;
            for (size_t k = 0; k < N && in; ++k)
                in = it->first[k] >= lo[k] && it->first[k] <= hi[k];
            if (in)
                return it;
        }
        return items.end();
    }
};
} // namespace pareto
