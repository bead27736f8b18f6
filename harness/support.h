// libstdc++ functions that live in the shared library, given to the symbolic executor as source.
#pragma once
#include <map>
#include <string>
#include <unordered_map>
template class std::basic_string<char>;
namespace std {
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  // plain (unbalanced) insertion: same ordering, no rotation
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_parent->_M_color = _S_black; }
  size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h = seed ^ 1469598103934665603ull; for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull; return h; }
  namespace __detail {
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = n < 2 ? 2 : n; for (;; p++) { bool ok = true; for (size_t d = 2; d * d <= p; d++) if (p % d == 0) { ok = false; break; } if (ok) break; } _M_next_resize = p; return p; }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > nb) { size_t want = ne + ni + 1; if (want < nb * 2) want = nb * 2; return {true, _M_next_bkt(want)}; } return {false, 0}; }
  }
}
