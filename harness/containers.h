// Custom containers providing the interface of standard containers.
#ifndef CONTAINERS_H
#define CONTAINERS_H
#include <algorithm>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <list>
#include <utility>
#include <vector>

namespace custom {

// sorted array of pairs; equal keys are kept in insertion order
template <typename K, typename V, bool Multi> class FlatMap {
public:
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<K, V>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = value_type &;
    using const_reference = const value_type &;
    using iterator = typename std::vector<value_type>::iterator;
    using const_iterator = typename std::vector<value_type>::const_iterator;

    iterator begin() { return m_data.begin(); }
    iterator end() { return m_data.end(); }
    const_iterator begin() const { return m_data.begin(); }
    const_iterator end() const { return m_data.end(); }
    const_iterator cbegin() const { return m_data.begin(); }
    const_iterator cend() const { return m_data.end(); }
    std::size_t size() const { return m_data.size(); }
    bool empty() const { return m_data.empty(); }
    void clear() { m_data.clear(); }
    void reserve(std::size_t n) { m_data.reserve(n); }
    template <typename... A> auto emplace(A &&...args)
    {
        auto v = value_type(std::forward<A>(args)...);
        if constexpr (Multi) {
            return m_data.insert(upper_bound(v.first), std::move(v));
        } else {
            auto i = lower_bound(v.first);
            if (i != end() && i->first == v.first) {
                return std::pair<iterator, bool>(i, false);
            }
            return std::pair<iterator, bool>(m_data.insert(i, std::move(v)), true);
        }
    }
    template <typename... A> iterator emplace_hint(const_iterator, A &&...args)
    {
        if constexpr (Multi) {
            return emplace(std::forward<A>(args)...);
        } else {
            return emplace(std::forward<A>(args)...).first;
        }
    }
    template <typename... A> auto try_emplace(const K &k, A &&...args)
    {
        auto i = lower_bound(k);
        if (i != end() && i->first == k) {
            return std::pair<iterator, bool>(i, false);
        }
        return std::pair<iterator, bool>(m_data.insert(i, value_type(k, V(std::forward<A>(args)...))), true);
    }
    template <typename M> auto insert_or_assign(const K &k, M &&m)
    {
        auto r = try_emplace(k);
        r.first->second = std::forward<M>(m);
        return r;
    }
    auto insert(value_type &&v) { return emplace(std::move(v)); }
    auto insert(const value_type &v) { return emplace(v); }
    iterator insert(const_iterator, value_type &&v) { return emplace_hint(cend(), std::move(v)); }
    V &operator[](const K &k) { return try_emplace(k).first->second; }
    V &at(const K &k) { return find(k)->second; }
    const V &at(const K &k) const { return find(k)->second; }
    iterator find(const K &k)
    {
        auto i = lower_bound(k);
        return i != end() && i->first == k ? i : end();
    }
    const_iterator find(const K &k) const { return const_cast<FlatMap *>(this)->find(k); }
    std::size_t count(const K &k) const
    {
        auto r = equal_range(k);
        return static_cast<std::size_t>(r.second - r.first);
    }
    iterator lower_bound(const K &k)
    {
        return std::lower_bound(begin(), end(), k, [](const value_type &a, const K &b) { return a.first < b; });
    }
    iterator upper_bound(const K &k)
    {
        return std::upper_bound(begin(), end(), k, [](const K &a, const value_type &b) { return a < b.first; });
    }
    const_iterator lower_bound(const K &k) const { return const_cast<FlatMap *>(this)->lower_bound(k); }
    const_iterator upper_bound(const K &k) const { return const_cast<FlatMap *>(this)->upper_bound(k); }
    std::pair<const_iterator, const_iterator> equal_range(const K &k) const { return { lower_bound(k), upper_bound(k) }; }
    std::pair<iterator, iterator> equal_range(const K &k) { return { lower_bound(k), upper_bound(k) }; }
    iterator erase(const_iterator i) { return m_data.erase(i); }

private:
    std::vector<value_type> m_data;
};

// pairs in the order of insertion, hence elements with equal keys are not necessarily adjacent
template <typename K, typename V> class ListMultiMap {
public:
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<const K, V>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = value_type &;
    using const_reference = const value_type &;
    using iterator = typename std::list<value_type>::iterator;
    using const_iterator = typename std::list<value_type>::const_iterator;

    iterator begin() { return m_data.begin(); }
    iterator end() { return m_data.end(); }
    const_iterator begin() const { return m_data.begin(); }
    const_iterator end() const { return m_data.end(); }
    const_iterator cbegin() const { return m_data.begin(); }
    const_iterator cend() const { return m_data.end(); }
    std::size_t size() const { return m_data.size(); }
    bool empty() const { return m_data.empty(); }
    void clear() { m_data.clear(); }
    template <typename... A> iterator emplace(A &&...args)
    {
        m_data.emplace_back(std::forward<A>(args)...);
        return std::prev(m_data.end());
    }
    template <typename... A> iterator emplace_hint(const_iterator, A &&...args) { return emplace(std::forward<A>(args)...); }
    iterator insert(value_type &&v) { return emplace(std::move(v)); }
    iterator insert(const value_type &v) { return emplace(v); }
    iterator insert(const_iterator, value_type &&v) { return emplace(std::move(v)); }
    iterator find(const K &k)
    {
        return std::find_if(begin(), end(), [&k](const value_type &v) { return v.first == k; });
    }
    const_iterator find(const K &k) const { return const_cast<ListMultiMap *>(this)->find(k); }
    std::size_t count(const K &k) const
    {
        return static_cast<std::size_t>(std::count_if(begin(), end(), [&k](const value_type &v) { return v.first == k; }));
    }

private:
    std::list<value_type> m_data;
};

// sorted array
template <typename E, bool Multi> class FlatSet {
public:
    using key_type = E;
    using value_type = E;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = const E &;
    using const_reference = const E &;
    using iterator = typename std::vector<E>::const_iterator;
    using const_iterator = iterator;

    iterator begin() const { return m_data.begin(); }
    iterator end() const { return m_data.end(); }
    iterator cbegin() const { return m_data.begin(); }
    iterator cend() const { return m_data.end(); }
    std::size_t size() const { return m_data.size(); }
    bool empty() const { return m_data.empty(); }
    void clear() { m_data.clear(); }
    template <typename... A> auto emplace(A &&...args)
    {
        auto v = E(std::forward<A>(args)...);
        if constexpr (Multi) {
            return iterator(m_data.insert(std::upper_bound(m_data.begin(), m_data.end(), v), std::move(v)));
        } else {
            auto i = std::lower_bound(m_data.begin(), m_data.end(), v);
            if (i != m_data.end() && !(v < *i)) {
                return std::pair<iterator, bool>(i, false);
            }
            return std::pair<iterator, bool>(m_data.insert(i, std::move(v)), true);
        }
    }
    template <typename... A> iterator emplace_hint(const_iterator, A &&...args)
    {
        if constexpr (Multi) {
            return emplace(std::forward<A>(args)...);
        } else {
            return emplace(std::forward<A>(args)...).first;
        }
    }
    auto insert(E &&v) { return emplace(std::move(v)); }
    auto insert(const E &v) { return emplace(v); }
    iterator insert(const_iterator, E &&v) { return emplace_hint(cend(), std::move(v)); }
    iterator find(const E &v) const
    {
        auto i = std::lower_bound(m_data.begin(), m_data.end(), v);
        return i != m_data.end() && !(v < *i) ? i : end();
    }
    std::size_t count(const E &v) const
    {
        return static_cast<std::size_t>(std::upper_bound(m_data.begin(), m_data.end(), v) - std::lower_bound(m_data.begin(), m_data.end(), v));
    }

private:
    std::vector<E> m_data;
};

// linked list which can not be reserved and has no random access
template <typename E> class Chain {
public:
    using value_type = E;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = E &;
    using const_reference = const E &;
    using iterator = typename std::list<E>::iterator;
    using const_iterator = typename std::list<E>::const_iterator;

    iterator begin() { return m_data.begin(); }
    iterator end() { return m_data.end(); }
    const_iterator begin() const { return m_data.begin(); }
    const_iterator end() const { return m_data.end(); }
    const_iterator cbegin() const { return m_data.begin(); }
    const_iterator cend() const { return m_data.end(); }
    std::size_t size() const { return m_data.size(); }
    bool empty() const { return m_data.empty(); }
    void clear() { m_data.clear(); }
    void resize(std::size_t n) { m_data.resize(n); }
    template <typename... A> E &emplace_back(A &&...args) { return m_data.emplace_back(std::forward<A>(args)...); }
    void push_back(const E &e) { m_data.push_back(e); }
    void push_back(E &&e) { m_data.push_back(std::move(e)); }
    E &back() { return m_data.back(); }
    E &front() { return m_data.front(); }
    const E &back() const { return m_data.back(); }
    const E &front() const { return m_data.front(); }

private:
    std::list<E> m_data;
};

// found via argument-dependent lookup as required by the traits of the C++ utilities library
template <typename K, typename V, bool M> auto begin(FlatMap<K, V, M> &c) { return c.begin(); }
template <typename K, typename V, bool M> auto begin(const FlatMap<K, V, M> &c) { return c.begin(); }
template <typename K, typename V, bool M> auto end(FlatMap<K, V, M> &c) { return c.end(); }
template <typename K, typename V, bool M> auto end(const FlatMap<K, V, M> &c) { return c.end(); }
template <typename K, typename V> auto begin(ListMultiMap<K, V> &c) { return c.begin(); }
template <typename K, typename V> auto begin(const ListMultiMap<K, V> &c) { return c.begin(); }
template <typename K, typename V> auto end(ListMultiMap<K, V> &c) { return c.end(); }
template <typename K, typename V> auto end(const ListMultiMap<K, V> &c) { return c.end(); }
template <typename E, bool M> auto begin(FlatSet<E, M> &c) { return c.begin(); }
template <typename E, bool M> auto begin(const FlatSet<E, M> &c) { return c.begin(); }
template <typename E, bool M> auto end(FlatSet<E, M> &c) { return c.end(); }
template <typename E, bool M> auto end(const FlatSet<E, M> &c) { return c.end(); }
template <typename E> auto begin(Chain<E> &c) { return c.begin(); }
template <typename E> auto begin(const Chain<E> &c) { return c.begin(); }
template <typename E> auto end(Chain<E> &c) { return c.end(); }
template <typename E> auto end(const Chain<E> &c) { return c.end(); }

} // namespace custom

#endif
