// contracts of the libstdc++ tree primitives behind std::set and std::map: a
// search tree in the same order (the balancing, which only affects speed, is left out)
#pragma once
#include <map>
#include <set>
#ifndef VC_NATIVE
typedef std::_Rb_tree_node_base RbNode;
REP void replace___ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, RbNode *x, RbNode *p, RbNode &h) {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = std::_S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
static inline RbNode *rb_next(RbNode *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  RbNode *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x;
}
static inline RbNode *rb_prev(RbNode *x) {
  if (x->_M_color == std::_S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  RbNode *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
REP RbNode *replace___ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(RbNode *x) { return rb_next(x); }
REP const RbNode *replace___ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const RbNode *x) { return rb_next((RbNode *)x); }
REP RbNode *replace___ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(RbNode *x) { return rb_prev(x); }
REP const RbNode *replace___ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(const RbNode *x) { return rb_prev((RbNode *)x); }
#endif
