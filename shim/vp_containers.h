// Proof-only stand-ins for library containers whose implementation lies in the
// C++ runtime (red-black trees, prime rehashing) or whose heap order is not
// observable. They implement the documented behaviour over a plain node list.
// Iteration order: sorted for integer keys, insertion order otherwise. The
// native replay build uses the real containers.
#pragma once
namespace std {
template <class T> struct vp_node { T v; vp_node* n; template <class... A> explicit vp_node(A&&... a) : v(std::forward<A>(a)...), n(nullptr) {} };
template <class T, class V> struct vp_iter {
  vp_node<T>* p;
  typedef V value_type; typedef V& reference; typedef V* pointer; typedef std::ptrdiff_t difference_type; typedef std::forward_iterator_tag iterator_category;
  vp_iter(vp_node<T>* q = nullptr) : p(q) {}
  template <class W> vp_iter(const vp_iter<T, W>& o) : p(o.p) {}
  V& operator*() const { return p->v; }
  V* operator->() const { return &p->v; }
  vp_iter& operator++() { p = p->n; return *this; }
  vp_iter operator++(int) { vp_iter r = *this; p = p->n; return r; }
  template <class W> bool operator==(const vp_iter<T, W>& o) const { return p == o.p; }
  template <class W> bool operator!=(const vp_iter<T, W>& o) const { return p != o.p; }
};
template <class K> inline bool vp_before(const K& a, const K& b) { if constexpr (std::is_integral<K>::value || std::is_enum<K>::value) return a < b; else return false; }
template <class K, class T, class Key> struct vp_assoc {
  typedef vp_node<T> N;
  typedef T value_type; typedef K key_type; typedef size_t size_type;
  N* h = nullptr; size_t c = 0;
  vp_assoc() {}
  ~vp_assoc() { clear(); }
  vp_assoc(const vp_assoc& o) { copy(o); }
  vp_assoc(vp_assoc&& o) : h(o.h), c(o.c) { o.h = nullptr; o.c = 0; }
  vp_assoc& operator=(const vp_assoc& o) { if (this != &o) { clear(); copy(o); } return *this; }
  vp_assoc& operator=(vp_assoc&& o) { if (this != &o) { clear(); h = o.h; c = o.c; o.h = nullptr; o.c = 0; } return *this; }
  void copy(const vp_assoc& o) { N** e = &h; for (N* p = o.h; p; p = p->n) { *e = new N(p->v); e = &(*e)->n; c++; } }
  void clear() { N* p = h; h = nullptr; c = 0; while (p) { N* q = p->n; delete p; p = q; } }
  size_t size() const { return c; }
  bool empty() const { return h == nullptr; }
  N* lookup(const K& k) const { for (N* p = h; p; p = p->n) if (Key::of(p->v) == k) return p; return nullptr; }
  size_t count(const K& k) const { return lookup(k) ? 1 : 0; }
  void link(N* x) {
    N** e = &h;
    while (*e && !vp_before<K>(Key::of(x->v), Key::of((*e)->v))) e = &(*e)->n;
    x->n = *e; *e = x; c++;
  }
  size_t erase(const K& k) {
    for (N** e = &h; *e; e = &(*e)->n)
      if (Key::of((*e)->v) == k) { N* q = *e; *e = q->n; delete q; c--; return 1; }
    return 0;
  }
  N* erasenode(N* x) {
    for (N** e = &h; *e; e = &(*e)->n)
      if (*e == x) { *e = x->n; N* r = x->n; delete x; c--; return r; }
    return nullptr;
  }
  void reserve(size_t) {}
};
template <class T> struct vp_key_self { static const T& of(const T& t) { return t; } };
template <class K, class V> struct vp_key_first { static const K& of(const std::pair<const K, V>& t) { return t.first; } };
template <class K, class V, class... R> struct vp_map : vp_assoc<K, std::pair<const K, V>, vp_key_first<K, V>> {
  typedef std::pair<const K, V> T; typedef vp_assoc<K, T, vp_key_first<K, V>> A; typedef vp_node<T> N;
  typedef vp_iter<T, T> iterator; typedef vp_iter<T, const T> const_iterator; typedef V mapped_type;
  vp_map() {}
  vp_map(std::initializer_list<T> l) { for (auto& x : l) insert(x); }
  iterator begin() { return iterator(this->h); }
  iterator end() { return iterator(); }
  const_iterator begin() const { return const_iterator(this->h); }
  const_iterator end() const { return const_iterator(); }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  iterator find(const K& k) { return iterator(this->lookup(k)); }
  const_iterator find(const K& k) const { return const_iterator(this->lookup(k)); }
  V& operator[](const K& k) { N* p = this->lookup(k); if (!p) { p = new N(std::piecewise_construct, std::tuple<const K&>(k), std::tuple<>()); this->link(p); } return p->v.second; }
  V& at(const K& k) { N* p = this->lookup(k); if (!p) __throw_out_of_range("at"); return p->v.second; }
  const V& at(const K& k) const { N* p = this->lookup(k); if (!p) __throw_out_of_range("at"); return p->v.second; }
  template <class P> std::pair<iterator, bool> insert(P&& x) {
    N* p = this->lookup(x.first);
    if (p) return std::pair<iterator, bool>(iterator(p), false);
    p = new N(std::forward<P>(x)); this->link(p);
    return std::pair<iterator, bool>(iterator(p), true);
  }
  template <class A1, class A2> std::pair<iterator, bool> emplace(A1&& a, A2&& b) {
    N* x = new N(std::forward<A1>(a), std::forward<A2>(b));
    N* p = this->lookup(x->v.first);
    if (p) { delete x; return std::pair<iterator, bool>(iterator(p), false); }
    this->link(x);
    return std::pair<iterator, bool>(iterator(x), true);
  }
  size_t erase(const K& k) { return A::erase(k); }
  iterator erase(iterator i) { return iterator(this->erasenode(i.p)); }
  iterator erase(const_iterator i) { return iterator(this->erasenode(i.p)); }
};
template <class K, class V, class... R> struct vp_unordered_map : vp_map<K, V> { using vp_map<K, V>::vp_map; };
template <class K, class... R> struct vp_set : vp_assoc<K, K, vp_key_self<K>> {
  typedef vp_assoc<K, K, vp_key_self<K>> A; typedef vp_node<K> N; typedef vp_iter<K, const K> iterator; typedef vp_iter<K, const K> const_iterator;
  vp_set() {}
  vp_set(std::initializer_list<K> l) { for (auto& x : l) insert(x); }
  iterator begin() const { return iterator(this->h); }
  iterator end() const { return iterator(); }
  iterator find(const K& k) const { return iterator(this->lookup(k)); }
  template <class P> std::pair<iterator, bool> insert(P&& x) {
    N* p = this->lookup(x);
    if (p) return std::pair<iterator, bool>(iterator(p), false);
    p = new N(std::forward<P>(x)); this->link(p);
    return std::pair<iterator, bool>(iterator(p), true);
  }
  template <class P> std::pair<iterator, bool> emplace(P&& x) { return insert(K(std::forward<P>(x))); }
  size_t erase(const K& k) { return A::erase(k); }
  iterator erase(iterator i) { return iterator(this->erasenode(i.p)); }
};
template <class K, class... R> struct vp_unordered_set : vp_set<K> { using vp_set<K>::vp_set; };
// the greatest element is on top; equivalent elements in any order (here: oldest first)
extern "C" { extern int vp_pq_ghost; extern int vp_pq_count; void vp_pq_hook(void*); }
template <class P> inline void* vp_pq_release(P& p) { return p.release(); }
template <class T, class C = std::vector<T>, class L = std::less<T>> struct vp_priority_queue {
  typedef vp_node<T> N;
  N* h = nullptr; size_t c = 0;
  vp_priority_queue() {}
  ~vp_priority_queue() { while (h) { N* q = h->n; delete h; h = q; } }
  void push(T&& x) {
    if (vp_pq_ghost) { vp_pq_hook(vp_pq_release(x)); vp_pq_count++; return; }
    N** e = &h; while (*e) e = &(*e)->n; *e = new N(std::move(x)); c++;
  }
  template <class... A> void emplace(A&&... a) { push(T(std::forward<A>(a)...)); }
  N** best() const { L less; N** b = const_cast<N**>(&h); for (N** e = &(*b)->n; *e; e = &(*e)->n) if (less((*b)->v, (*e)->v)) b = e; return b; }
  N** last = nullptr;
  const T& top() const { const_cast<vp_priority_queue*>(this)->last = best(); return (*last)->v; }
  void pop() { N** b = last ? last : best(); last = nullptr; N* q = *b; *b = q->n; delete q; c--; }
  bool empty() const { return h == nullptr; }
  size_t size() const { return c; }
};
template <class T> struct vp_deque {
  typedef vp_node<T> N; typedef vp_iter<T, T> iterator; typedef vp_iter<T, const T> const_iterator;
  N* h = nullptr; N* t = nullptr; size_t c = 0;
  vp_deque() {}
  ~vp_deque() { clear(); }
  vp_deque(const vp_deque&) = delete;
  void clear() { while (h) { N* q = h->n; delete h; h = q; } t = nullptr; c = 0; }
  void app(N* x) { if (t) t->n = x; else h = x; t = x; c++; }
  void push_back(const T& x) { app(new N(x)); }
  void push_back(T&& x) { app(new N(std::move(x))); }
  void push_front(const T& x) { N* n = new N(x); n->n = h; h = n; if (!t) t = n; c++; }
  void push_front(T&& x) { N* n = new N(std::move(x)); n->n = h; h = n; if (!t) t = n; c++; }
  template <class... A> T& emplace_back(A&&... a) { app(new N(std::forward<A>(a)...)); return t->v; }
  T& front() { return h->v; }
  T& back() { return t->v; }
  void pop_front() { N* q = h; h = q->n; if (!h) t = nullptr; delete q; c--; }
  bool empty() const { return h == nullptr; }
  size_t size() const { return c; }
  iterator begin() { return iterator(h); }
  iterator end() { return iterator(); }
};
template <class T> struct vp_queue : vp_deque<T> { void push(const T& x) { this->push_back(x); } void push(T&& x) { this->push_back(std::move(x)); } void pop() { this->pop_front(); } };
}  // namespace std
#define map vp_map
#define unordered_map vp_unordered_map
#define set vp_set
#define unordered_set vp_unordered_set
#define priority_queue vp_priority_queue
#define deque vp_deque
