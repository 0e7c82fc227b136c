// Bitcode runtime for the engine: definitions of the C and C++ library functions that live in shared libraries. Written to be
// exact in behaviour; where it matters branch free, so that comparisons stay symbolic.
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <system_error>
#include <map>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <functional>
#include <memory_resource>
#include <string>
// the library's own std::string, instantiated from its header
template class std::__cxx11::basic_string<char>;
template void std::__cxx11::basic_string<char>::_M_construct<char *>(char *, char *, std::forward_iterator_tag);
template void std::__cxx11::basic_string<char>::_M_construct<char const *>(char const *, char const *, std::forward_iterator_tag);
// ---- libstdc++ red-black tree (algorithm as in the library: red/black insertion with parent links, keeps order) ----
namespace std {
typedef _Rb_tree_node_base N;
static N *rb_inc(N *x)
{
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
  } else {
    N *y = x->_M_parent;
    while (x == y->_M_right) {
      x = y;
      y = y->_M_parent;
    }
    if (x->_M_right != y)
      x = y;
  }
  return x;
}
static N *rb_dec(N *x)
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    x = x->_M_right;
  else if (x->_M_left) {
    N *y = x->_M_left;
    while (y->_M_right)
      y = y->_M_right;
    x = y;
  } else {
    N *y = x->_M_parent;
    while (x == y->_M_left) {
      x = y;
      y = y->_M_parent;
    }
    x = y;
  }
  return x;
}
N *_Rb_tree_increment(N *x) throw() { return rb_inc(x); }
const N *_Rb_tree_increment(const N *x) throw() { return rb_inc(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { return rb_dec(x); }
const N *_Rb_tree_decrement(const N *x) throw() { return rb_dec(const_cast<N *>(x)); }
static void rotl(N *x, N *&root)
{
  N *y        = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left)
    y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_left)
    x->_M_parent->_M_left = y;
  else
    x->_M_parent->_M_right = y;
  y->_M_left   = x;
  x->_M_parent = y;
}
static void rotr(N *x, N *&root)
{
  N *y       = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right)
    y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root)
    root = y;
  else if (x == x->_M_parent->_M_right)
    x->_M_parent->_M_right = y;
  else
    x->_M_parent->_M_left = y;
  y->_M_right  = x;
  x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw()
{
  N *&root     = h._M_parent;
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color              = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right  = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N *const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      N *const y = xpp->_M_right;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color            = _S_black;
        xpp->_M_color          = _S_red;
        x                      = xpp;
      } else {
        if (x == x->_M_parent->_M_right) {
          x = x->_M_parent;
          rotl(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color          = _S_red;
        rotr(xpp, root);
      }
    } else {
      N *const y = xpp->_M_left;
      if (y && y->_M_color == _S_red) {
        x->_M_parent->_M_color = _S_black;
        y->_M_color            = _S_black;
        xpp->_M_color          = _S_red;
        x                      = xpp;
      } else {
        if (x == x->_M_parent->_M_left) {
          x = x->_M_parent;
          rotr(x, root);
        }
        x->_M_parent->_M_color = _S_black;
        xpp->_M_color          = _S_red;
        rotl(xpp, root);
      }
    }
  }
  root->_M_color = _S_black;
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw()
{
  N *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
  N *y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left)
    x = y->_M_right;
  else if (!y->_M_right)
    x = y->_M_left;
  else {
    y = y->_M_right;
    while (y->_M_left)
      y = y->_M_left;
    x = y->_M_right;
  }
  if (y != z) { // y replaces z
    z->_M_left->_M_parent = y;
    y->_M_left            = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x)
        x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left  = x;
      y->_M_right            = z->_M_right;
      z->_M_right->_M_parent = y;
    } else
      xp = y;
    if (root == z)
      root = y;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = y;
    else
      z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c       = y->_M_color;
    y->_M_color  = z->_M_color;
    z->_M_color  = c;
    y            = z;
  } else {
    xp = y->_M_parent;
    if (x)
      x->_M_parent = y->_M_parent;
    if (root == z)
      root = x;
    else if (z->_M_parent->_M_left == z)
      z->_M_parent->_M_left = x;
    else
      z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right)
        leftmost = z->_M_parent;
      else {
        leftmost = x;
        while (leftmost->_M_left)
          leftmost = leftmost->_M_left;
      }
    }
    if (rightmost == z) {
      if (!z->_M_left)
        rightmost = z->_M_parent;
      else {
        rightmost = x;
        while (rightmost->_M_right)
          rightmost = rightmost->_M_right;
      }
    }
  }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      bool left = x == xp->_M_left;
      auto near = [left](N *n) -> N *& { return left ? n->_M_left : n->_M_right; };
      auto far  = [left](N *n) -> N *& { return left ? n->_M_right : n->_M_left; };
      auto to   = [&](N *n) { left ? rotl(n, root) : rotr(n, root); };
      auto back = [&](N *n) { left ? rotr(n, root) : rotl(n, root); };
      N *w      = far(xp);
      if (w->_M_color == _S_red) {
        w->_M_color  = _S_black;
        xp->_M_color = _S_red;
        to(xp);
        w = far(xp);
      }
      if ((!near(w) || near(w)->_M_color == _S_black) && (!far(w) || far(w)->_M_color == _S_black)) {
        w->_M_color = _S_red;
        x           = xp;
        xp          = xp->_M_parent;
      } else {
        if (!far(w) || far(w)->_M_color == _S_black) {
          near(w)->_M_color = _S_black;
          w->_M_color       = _S_red;
          back(w);
          w = far(xp);
        }
        w->_M_color  = xp->_M_color;
        xp->_M_color = _S_black;
        if (far(w))
          far(w)->_M_color = _S_black;
        to(xp);
        break;
      }
    }
    if (x)
      x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
  if (this != last) {
    last->_M_prev->_M_next  = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next  = first;
    auto tmp                = this->_M_prev;
    this->_M_prev           = last->_M_prev;
    last->_M_prev           = first->_M_prev;
    first->_M_prev          = tmp;
  }
}
void _List_node_base::_M_reverse() noexcept
{
  auto x = this;
  do {
    auto n     = x->_M_next;
    x->_M_next = x->_M_prev;
    x->_M_prev = n;
    x          = n;
  } while (x != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
  bool ex = x._M_next == &x, ey = y._M_next == &y;
  _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
  if (ey)
    x._M_next = x._M_prev = &x;
  else {
    x._M_next  = yn;
    x._M_prev  = yp;
    yn->_M_prev = yp->_M_next = &x;
  }
  if (ex)
    y._M_next = y._M_prev = &y;
  else {
    y._M_next  = xn;
    y._M_prev  = xp;
    xn->_M_prev = xp->_M_next = &y;
  }
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
  this->_M_next       = p;
  this->_M_prev       = p->_M_prev;
  p->_M_prev->_M_next = this;
  p->_M_prev          = this;
}
void _List_node_base::_M_unhook() noexcept
{
  _M_prev->_M_next = _M_next;
  _M_next->_M_prev = _M_prev;
}
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149,
                                157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
  for (size_t p : primes)
    if (p >= n) {
      _M_next_resize = p;
      return p;
    }
  __builtin_trap();
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
  if (ne + ni > _M_next_resize) {
    size_t mb = ne + ni;
    if (_M_next_resize == 0 && mb < 11)
      mb = 11;
    if (mb >= nb) {
      size_t want = mb + 1 > nb * 2 ? mb + 1 : nb * 2;
      return {true, _M_next_bkt(want)};
    }
    _M_next_resize = nb;
  }
  return {false, 0};
}
} // namespace __detail
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
  // any deterministic function of the bytes is a valid model of the library hash
  auto c   = (const unsigned char *)p;
  size_t h = seed;
  for (size_t i = 0; i < n; i++)
    h = (h ^ c[i]) * 1099511628211ull;
  return h;
}
namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { __builtin_trap(); }
struct vf_cat : public error_category {
  const char *nm;
  explicit vf_cat(const char *n) : nm(n) {}
  const char *name() const noexcept override { return nm; }
  std::string message(int) const override { return std::string("error text"); }
  __cow_string _M_message(int) const override { __builtin_trap(); }
};
static vf_cat vf_sys("system"), vf_gen("generic");
const error_category &system_category() noexcept { return vf_sys; }
const error_category &generic_category() noexcept { return vf_gen; }
} // namespace _V2
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
} // namespace std

std::pmr::memory_resource::~memory_resource() = default;
