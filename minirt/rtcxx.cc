// The part of the C++ library that is not in headers (see rt.cc).
#include <stdlib.h>
#include <set>
#include <string>
namespace std {
void __throw_bad_alloc() { abort(); }
void __throw_bad_array_new_length() { abort(); }
void __throw_logic_error(const char*) { abort(); }
void __throw_length_error(const char*) { abort(); }
void __throw_bad_function_call() { abort(); }
void __throw_invalid_argument(const char*) { abort(); }
void __throw_out_of_range(const char*) { abort(); }
void __throw_out_of_range_fmt(const char*, ...) { abort(); }
template class basic_string<char>;
// the tree of std::set and std::map, without balancing
typedef _Rb_tree_node_base N;
static N* inc(N* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
N* _Rb_tree_increment(N* x) throw() { return inc(x); }
const N* _Rb_tree_increment(const N* x) throw() { return inc((N*)x); }
N* _Rb_tree_decrement(N* x) throw() {
  if (x->_M_color == _S_red) return x->_M_right;  // only the header is red
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  N* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const N* _Rb_tree_decrement(const N* x) throw() { return _Rb_tree_decrement((N*)x); }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
}  // namespace std
