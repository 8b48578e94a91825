// Stand-ins for the out-of-line parts of libstdc++/libfmt, compiled to LLVM IR and executed with the units under verification.
#define FMT_HEADER_ONLY 1
#include <fmt/format.h>
#include <list>
#include <map>
#include <new>
#include <string>
#include <cstdlib>
extern "C" void *h_fmt_anchor(const char *f, int n, fmt::format_args::format_arg *) { return 0; }
std::string rt_use(fmt::string_view f, fmt::format_args a) { return fmt::vformat(f, a); }
#include "codon/cir/analyze/module/side_effect.h"
#include "codon/cir/transform/pass.h"
// the pass manager is not part of the verified unit: a pass asking for the side-effect analysis gets this result
static codon::ir::analyze::module::SideEffectResult *seResult;
namespace codon { namespace ir { namespace transform { analyze::Result *Pass::doGetAnalysis(const std::string &) { return seResult; } } } }
extern "C" void h_seresult(codon::ir::Value *v, int st) {
  seResult = new codon::ir::analyze::module::SideEffectResult({});
  if (st >= 0) seResult->result[v->getId()] = (codon::ir::util::SideEffectStatus)st;
}
extern "C" void h_seadd(codon::ir::Value *v, int st) { seResult->result[v->getId()] = (codon::ir::util::SideEffectStatus)st; }
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = this->_M_next; auto *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept {
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    auto *t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
  }
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      auto *a = x._M_next; x._M_next = y._M_next; y._M_next = a; a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a;
      x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y;
  }
}
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  auto *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { auto *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  auto *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// unbalanced insertion: the order of the elements, all that a client can observe, is the same
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
}
