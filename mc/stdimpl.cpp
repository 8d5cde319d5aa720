// Instrumented replacements of the out-of-line parts of libstdc++'s std::list and std::map, so that
// the accesses they make are visible to the engine. (The tree is kept unbalanced: the ordering
// contract of std::map does not depend on balance.)
#include <list>
#include <map>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
  this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
  _List_node_base* const n = this->_M_next; _List_node_base* const q = this->_M_prev;
  q->_M_next = n; n->_M_prev = q;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
}
static inline _Rb_tree_node_base* rb_inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else {
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
  }
  return x;
}
static inline _Rb_tree_node_base* rb_dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return rb_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return rb_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
                                   _Rb_tree_node_base& header) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  // leftmost / rightmost first
  if (header._M_left == z) {
    if (z->_M_right == 0) header._M_left = z->_M_parent;
    else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; header._M_left = y; }
  }
  if (header._M_right == z) {
    if (z->_M_left == 0) header._M_right = z->_M_parent;
    else { _Rb_tree_node_base* y = z->_M_left; while (y->_M_right) y = y->_M_right; header._M_right = y; }
  }
  auto put = [&](_Rb_tree_node_base* n) {   // n takes z's place under z's parent
    if (header._M_parent == z) header._M_parent = n;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = n;
    else z->_M_parent->_M_right = n;
    if (n) n->_M_parent = z->_M_parent;
  };
  if (z->_M_left == 0) put(z->_M_right);
  else if (z->_M_right == 0) put(z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y != z->_M_right) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right; y->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    put(y);
  }
  return z;
}
}
