// The parts of libstdc++ that live in its shared library, for the executor only (the native replay uses the real ones).
#pragma once
#ifndef KS_NATIVE
#include <list>
#include <map>
namespace std {
namespace __detail {
  void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
  void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
  void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
    if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; _M_prev->_M_next = first;
      _List_node_base* const tmp = _M_prev; _M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp; } }
  void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
  void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
    if (x._M_next != &x) {
      if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
      else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
  }
}
  typedef _Rb_tree_node_base* RbP;
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { RbP y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
  }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<RbP>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { RbP y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { RbP y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
  }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<RbP>(x)); }
  static void rbLeft(RbP x, RbP& root) { RbP y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
  static void rbRight(RbP x, RbP& root) { RbP y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
  void _Rb_tree_insert_and_rebalance(const bool left, RbP x, RbP p, _Rb_tree_node_base& h) throw() {
    RbP& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
      RbP const g = x->_M_parent->_M_parent;
      if (x->_M_parent == g->_M_left) {
        RbP const y = g->_M_right;
        if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
        else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rbLeft(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rbRight(g, root); }
      } else {
        RbP const y = g->_M_left;
        if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
        else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rbRight(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rbLeft(g, root); }
      }
    }
    root->_M_color = _S_black;
  }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(RbP const z, _Rb_tree_node_base& h) throw() {
    RbP& root = h._M_parent; RbP& leftmost = h._M_left; RbP& rightmost = h._M_right; RbP y = z; RbP x = 0; RbP xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
      z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
      if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
      if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
      y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
      xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
      if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
      if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { RbP m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
      if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { RbP m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    if (y->_M_color != _S_red) {
      while (x != root && (!x || x->_M_color == _S_black))
        if (x == xp->_M_left) {
          RbP w = xp->_M_right;
          if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rbLeft(xp, root); w = xp->_M_right; }
          if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
          else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rbRight(w, root); w = xp->_M_right; }
            w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rbLeft(xp, root); break; }
        } else {
          RbP w = xp->_M_left;
          if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rbRight(xp, root); w = xp->_M_left; }
          if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
          else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rbLeft(w, root); w = xp->_M_left; }
            w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rbRight(xp, root); break; }
        }
      if (x) x->_M_color = _S_black;
    }
    return y;
  }
}
#endif
