// Bounded stand-ins for std::vector and std::unordered_map, used by the symbolic run only (the native
// replay uses the real containers): fixed capacity, no heap, same observable behaviour up to the
// capacity; exceeding it ends the path as unsupported.
#pragma once
#ifdef VX_SYMBOLIC
#include <vector>
#include <unordered_map>
#include <map>
#include <deque>
#include <list>
#include <set>
#include <string>
#include <utility>
#include <memory>
#include <algorithm>
#include <iterator>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <sstream>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <chrono>
#include <system_error>
#ifndef VX_CAP
#define VX_CAP 4
#endif
extern "C" void __vx_unsupported(const char*);
namespace std {
template <class T> class vx_vector {
  size_t n_; T d_[VX_CAP];
  void room() { if (n_ >= VX_CAP) __vx_unsupported("bounded vector is full"); }
public:
  typedef T value_type; typedef size_t size_type; typedef ptrdiff_t difference_type; typedef T& reference; typedef const T& const_reference;
  template <class U> struct it {
    typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef ptrdiff_t difference_type; typedef U* pointer; typedef U& reference;
    U* p; it(U* q = nullptr) : p(q) {} operator it<const U>() const { return it<const U>(p); }
    U& operator*() const { return *p; } U* operator->() const { return p; } it& operator++() { ++p; return *this; } it operator++(int) { it r(p); ++p; return r; }
    it& operator--() { --p; return *this; } it operator+(ptrdiff_t k) const { return it(p + k); } it operator-(ptrdiff_t k) const { return it(p - k); } it& operator+=(ptrdiff_t k) { p += k; return *this; }
    ptrdiff_t operator-(const it& o) const { return p - o.p; } U& operator[](ptrdiff_t k) const { return p[k]; }
    bool operator==(const it& o) const { return p == o.p; } bool operator!=(const it& o) const { return p != o.p; } bool operator<(const it& o) const { return p < o.p; }
  };
  typedef it<T> iterator; typedef it<const T> const_iterator;
  vx_vector() : n_(0) {} vx_vector(std::initializer_list<T> l) : n_(0) { for (auto& x : l) push_back(x); }
  explicit vx_vector(size_t n, const T& v = T()) : n_(0) { for (size_t i = 0; i < n; i++) push_back(v); }
  template <class I, class = typename std::iterator_traits<I>::iterator_category> vx_vector(I a, I b) : n_(0) { for (; a != b; ++a) push_back(*a); }
  iterator begin() { return iterator(d_); } iterator end() { return iterator(d_ + n_); } const_iterator begin() const { return const_iterator(d_); } const_iterator end() const { return const_iterator(d_ + n_); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  size_t size() const { return n_; } bool empty() const { return n_ == 0; } void clear() { n_ = 0; } void reserve(size_t) {} size_t capacity() const { return VX_CAP; } void shrink_to_fit() {}
  T& operator[](size_t i) { return d_[i]; } const T& operator[](size_t i) const { return d_[i]; } T& at(size_t i) { if (i >= n_) throw std::out_of_range("at"); return d_[i]; }
  T& front() { return d_[0]; } const T& front() const { return d_[0]; } T& back() { return d_[n_ - 1]; } const T& back() const { return d_[n_ - 1]; } T* data() { return d_; } const T* data() const { return d_; }
  void push_back(const T& v) { room(); d_[n_++] = v; } template <class... A> void emplace_back(A&&... a) { room(); d_[n_++] = T(std::forward<A>(a)...); } void pop_back() { n_--; }
  void resize(size_t n) { while (n_ < n) push_back(T()); n_ = n; }
  iterator erase(const_iterator f, const_iterator l) { T *a = d_ + (f.p - d_), *b = d_ + (l.p - d_), *e = d_ + n_, *r = a; while (b != e) *a++ = *b++; n_ = a - d_; return iterator(r); }
  iterator erase(const_iterator f) { return erase(f, f + 1); }
  iterator insert(const_iterator p, const T& v) { room(); size_t k = p.p - d_; for (size_t i = n_; i > k; i--) d_[i] = d_[i - 1]; d_[k] = v; n_++; return iterator(d_ + k); }
  void swap(vx_vector& o) { std::swap(*this, o); }
  bool operator==(const vx_vector& o) const { if (n_ != o.n_) return false; for (size_t i = 0; i < n_; i++) if (!(d_[i] == o.d_[i])) return false; return true; }
};
template <class K, class V, class H = void, class Q = void> class vx_unordered_map {
public:
  typedef std::pair<const K, V> value_type; typedef K key_type; typedef V mapped_type;
private:
  typename std::aligned_storage<sizeof(value_type), alignof(value_type)>::type s_[VX_CAP]; bool u_[VX_CAP];
  value_type* at_(size_t i) const { return (value_type*)&s_[i]; }
public:
  template <class U> struct it {
    typedef std::forward_iterator_tag iterator_category; typedef U value_type; typedef ptrdiff_t difference_type; typedef U* pointer; typedef U& reference;
    const vx_unordered_map* m; size_t i; it(const vx_unordered_map* a = nullptr, size_t k = 0) : m(a), i(k) {} operator it<const U>() const { return it<const U>(m, i); }
    U& operator*() const { return *m->at_(i); } U* operator->() const { return m->at_(i); } it& operator++() { ++i; while (i < VX_CAP && !m->u_[i]) ++i; return *this; } it operator++(int) { it r = *this; ++*this; return r; }
    bool operator==(const it& o) const { return i == o.i; } bool operator!=(const it& o) const { return i != o.i; }
  };
  typedef it<value_type> iterator; typedef it<const value_type> const_iterator;
  vx_unordered_map() { for (size_t i = 0; i < VX_CAP; i++) u_[i] = false; }
  ~vx_unordered_map() { clear(); }
  iterator begin() { size_t i = 0; while (i < VX_CAP && !u_[i]) ++i; return iterator(this, i); } iterator end() { return iterator(this, VX_CAP); }
  const_iterator begin() const { size_t i = 0; while (i < VX_CAP && !u_[i]) ++i; return const_iterator(this, i); } const_iterator end() const { return const_iterator(this, VX_CAP); }
  const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
  iterator find(const K& k) { for (size_t i = 0; i < VX_CAP; i++) if (u_[i] && at_(i)->first == k) return iterator(this, i); return end(); }
  const_iterator find(const K& k) const { for (size_t i = 0; i < VX_CAP; i++) if (u_[i] && at_(i)->first == k) return const_iterator(this, i); return end(); }
  size_t count(const K& k) const { return find(k) != end(); } bool contains(const K& k) const { return count(k); }
  size_t size() const { size_t n = 0; for (size_t i = 0; i < VX_CAP; i++) n += u_[i]; return n; } bool empty() const { return size() == 0; }
  template <class... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) { iterator f = find(k); if (f != end()) return {f, false}; for (size_t i = 0; i < VX_CAP; i++) if (!u_[i]) { u_[i] = true; ::new ((void*)&s_[i]) value_type(k, V{std::forward<A>(a)...}); return {iterator(this, i), true}; } __vx_unsupported("bounded map is full"); return {end(), false}; }
  template <class P> std::pair<iterator, bool> emplace(const K& k, P&& v) { return try_emplace(k, std::forward<P>(v)); }
  std::pair<iterator, bool> insert(const value_type& v) { return try_emplace(v.first, v.second); }
  V& operator[](const K& k) { return try_emplace(k).first->second; } V& at(const K& k) { iterator f = find(k); if (f == end()) throw std::out_of_range("at"); return f->second; }
  const V& at(const K& k) const { const_iterator f = find(k); if (f == end()) throw std::out_of_range("at"); return f->second; }
  size_t erase(const K& k) { iterator f = find(k); if (f == end()) return 0; erase(f); return 1; }
  iterator erase(const_iterator f) { at_(f.i)->~value_type(); u_[f.i] = false; iterator r(this, f.i); return ++r; }
  iterator erase(iterator f) { return erase(const_iterator(f)); }
  void clear() { for (size_t i = 0; i < VX_CAP; i++) if (u_[i]) { at_(i)->~value_type(); u_[i] = false; } }
};
}
#define vector vx_vector
#define unordered_map vx_unordered_map
#endif
