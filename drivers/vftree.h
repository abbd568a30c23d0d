#ifndef VFTREE_H
#define VFTREE_H
#include <set>
/// The red-black trees of the standard library without balancing.
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *X) noexcept {
  if (X->_M_right) {
    X = X->_M_right;
    while (X->_M_left)
      X = X->_M_left;
    return X;
  }
  _Rb_tree_node_base *Y = X->_M_parent;
  while (X == Y->_M_right) {
    X = Y;
    Y = Y->_M_parent;
  }
  return X->_M_right != Y ? Y : X;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *X) noexcept {
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(X));
}
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *X) noexcept {
  if (X->_M_color == _S_red && X->_M_parent->_M_parent == X)
    return X->_M_right;
  if (X->_M_left) {
    X = X->_M_left;
    while (X->_M_right)
      X = X->_M_right;
    return X;
  }
  _Rb_tree_node_base *Y = X->_M_parent;
  while (X == Y->_M_left) {
    X = Y;
    Y = Y->_M_parent;
  }
  return Y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *X) noexcept {
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(X));
}
void _Rb_tree_insert_and_rebalance(const bool Left, _Rb_tree_node_base *X, _Rb_tree_node_base *P,
    _Rb_tree_node_base &H) noexcept {
  X->_M_parent = P;
  X->_M_left = X->_M_right = nullptr;
  X->_M_color = _S_black;
  if (Left) {
    P->_M_left = X;
    if (P == &H) {
      H._M_parent = X;
      H._M_right = X;
    } else if (P == H._M_left) {
      H._M_left = X;
    }
  } else {
    P->_M_right = X;
    if (P == H._M_right)
      H._M_right = X;
  }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const Z, _Rb_tree_node_base &H) noexcept {
  _Rb_tree_node_base *C, *Next = nullptr;
  if (Z->_M_left && Z->_M_right) {
    // the successor takes the place of Z
    Next = Z->_M_right;
    while (Next->_M_left)
      Next = Next->_M_left;
    if (Next != Z->_M_right) {
      Next->_M_parent->_M_left = Next->_M_right;
      if (Next->_M_right)
        Next->_M_right->_M_parent = Next->_M_parent;
      Next->_M_right = Z->_M_right;
      Z->_M_right->_M_parent = Next;
    }
    Next->_M_left = Z->_M_left;
    Z->_M_left->_M_parent = Next;
    C = Next;
  } else {
    C = Z->_M_left ? Z->_M_left : Z->_M_right;
    if (H._M_left == Z) {
      _Rb_tree_node_base *M = C;
      while (M && M->_M_left)
        M = M->_M_left;
      H._M_left = M ? M : Z->_M_parent;
    }
    if (H._M_right == Z) {
      _Rb_tree_node_base *M = C;
      while (M && M->_M_right)
        M = M->_M_right;
      H._M_right = M ? M : Z->_M_parent;
    }
  }
  if (C)
    C->_M_parent = Z->_M_parent;
  if (H._M_parent == Z)
    H._M_parent = C;
  else if (Z->_M_parent->_M_left == Z)
    Z->_M_parent->_M_left = C;
  else
    Z->_M_parent->_M_right = C;
  return Z;
}
}
#endif
