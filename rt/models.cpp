// Models of the library functions that live in libstdc++/libc rather than in headers.  Linked into the bitcode only.
#include <cstddef>
#include <cstdint>
#include <list>
#include <map>
#include <unordered_map>
#include <cmath>
#include <string>
template class std::basic_string<char>;
extern "C" {
int memcmp(const void* a, const void* b, size_t n)
{
  auto x = static_cast<const unsigned char*>(a), y = static_cast<const unsigned char*>(b);
  for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* a, int c, size_t n)
{
  auto x = static_cast<const unsigned char*>(a);
  for (size_t i = 0; i < n; ++i) if (x[i] == (unsigned char)c) return const_cast<unsigned char*>(x + i);
  return nullptr;
}
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n)
{
  for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char)*a - (unsigned char)*b; if (!*a) return 0; }
  return 0;
}
}
namespace std
{
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = _M_next; _List_node_base* const p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
  if (this != last)
  {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
    _List_node_base* const tmp = _M_prev;
    _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept
{
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
  if (x._M_next != &x)
  {
    if (y._M_next != &y)
    {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  }
  else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
// The growth policy decides only bucket counts (never observable through the container's contract except iteration order).
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731, 236897, 480881};
  if (n == 0) return 1;
  for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)((double)p * _M_max_load_factor); return p; }
  _M_next_resize = ~size_t(0);
  return 480881;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const
{
  if (n_elt + n_ins > _M_next_resize)
  {
    double min_bkts = (n_elt + (n_ins > (_M_next_resize ? 0 : 11) ? n_ins : (_M_next_resize ? n_ins : 11))) / (double)_M_max_load_factor;
    if (min_bkts >= n_bkt)
    {
      size_t want = (size_t)min_bkts + 1;
      if (want < n_bkt * 2) want = n_bkt * 2;
      return {true, _M_next_bkt(want)};
    }
    _M_next_resize = (size_t)(n_bkt * (double)_M_max_load_factor);
    return {false, 0};
  }
  return {false, 0};
}
}
// An unbalanced search tree has the same observable contract as a balanced one.
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x)
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x)
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left)
  {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  }
  else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
  auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v)
  {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else
  {
    auto y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  else
  {
    auto a = h._M_parent; while (a->_M_left) a = a->_M_left; h._M_left = a;
    auto b = h._M_parent; while (b->_M_right) b = b->_M_right; h._M_right = b;
  }
  return z;
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
  auto b = static_cast<const unsigned char*>(p);
  size_t h = seed ^ n;
  for (size_t i = 0; i < n; ++i) h = h * 131 + b[i];
  return h;
}
}
