// Definitions of the few functions of libstdc++.so and libc that templates of the standard library call.
// They only stand in for the library binary, in case the code under analysis starts to use these parts of it.
#pragma once
#include <bits/stl_tree.h>
#include <bits/hashtable_policy.h>
#include <mutex>
#include <string>
#define VX_W __attribute__((weak))

namespace std {
VX_W _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
VX_W const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
VX_W _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_parent && x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    return x->_M_right; // the header
  if (x->_M_left) {
    x = x->_M_left;
    while (x->_M_right)
      x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
VX_W const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// the balance of the tree is not observable; all nodes are black
VX_W void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p;
  x->_M_left = x->_M_right = 0;
  x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) {
      h._M_parent = x;
      h._M_right = x;
    } else if (p == h._M_left)
      h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
}
VX_W _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *r;
  if (!z->_M_left || !z->_M_right) {
    r = z->_M_left ? z->_M_left : z->_M_right;
    if (r)
      r->_M_parent = z->_M_parent;
  } else {
    r = z->_M_right;
    while (r->_M_left)
      r = r->_M_left;
    if (r != z->_M_right) {
      r->_M_parent->_M_left = r->_M_right;
      if (r->_M_right)
        r->_M_right->_M_parent = r->_M_parent;
      r->_M_right = z->_M_right;
      z->_M_right->_M_parent = r;
    }
    r->_M_left = z->_M_left;
    z->_M_left->_M_parent = r;
    r->_M_parent = z->_M_parent;
  }
  if (h._M_parent == z)
    h._M_parent = r;
  else if (z->_M_parent->_M_left == z)
    z->_M_parent->_M_left = r;
  else
    z->_M_parent->_M_right = r;
  _Rb_tree_node_base *m = h._M_parent ? h._M_parent : &h;
  while (m != &h && m->_M_left)
    m = m->_M_left;
  h._M_left = m;
  m = h._M_parent ? h._M_parent : &h;
  while (m != &h && m->_M_right)
    m = m->_M_right;
  h._M_right = m;
  return z;
}
namespace __detail {
VX_W size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : n | 1; }
VX_W pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
  return e + i > b ? pair<bool, size_t>(true, _M_next_bkt(2 * (e + i))) : pair<bool, size_t>(false, 0);
}
} // namespace __detail
VX_W size_t _Hash_bytes(const void *, size_t n, size_t) { return n; }
__thread void *__once_callable;
__thread void (*__once_call)();
} // namespace std
template class std::basic_string<char>;
extern "C" {
VX_W void __once_proxy() { std::__once_call(); }
VX_W int pthread_once(pthread_once_t *o, void (*f)()) {
  if (__atomic_load_n(o, __ATOMIC_ACQUIRE) != 2) {
    f();
    __atomic_store_n(o, 2, __ATOMIC_RELEASE);
  }
  return 0;
}
VX_W int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return pthread_mutex_lock((pthread_mutex_t *)l); }
VX_W int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return pthread_mutex_lock((pthread_mutex_t *)l); }
VX_W int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return pthread_mutex_trylock((pthread_mutex_t *)l); }
VX_W int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return pthread_mutex_trylock((pthread_mutex_t *)l); }
VX_W int pthread_rwlock_unlock(pthread_rwlock_t *l) { return pthread_mutex_unlock((pthread_mutex_t *)l); }
}
