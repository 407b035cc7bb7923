// latch: all roles interrupted by all others
#include "vx.h"
using namespace vx;
using pc::latch;

static void dn1(void *p) {
  vx_ev("down", 1);
  static_cast<latch *>(p)->count_down();
}
static void dn2(void *p) {
  vx_ev("down", 2);
  static_cast<latch *>(p)->count_down(2);
}
static void wt(void *p) {
  static_cast<latch *>(p)->wait();
  vx_ev("released");
}
static void dnw(void *p) {
  vx_ev("down", 1);
  static_cast<latch *>(p)->count_down_and_wait();
  vx_ev("released");
}
static void peek(void *p) { vx_ev("is_ready", static_cast<latch *>(p)->is_ready() ? 1 : 0); }

static const int ANY = AT_SYNC | AT_WAIT | AT_EVENT;

// ---- waiting thread is analysed
ENTRY(wait_1) {
  latch l(1);
  vx_rely("d", dn1, &l, ANY);
  wt(&l);
  vx_join();
}
ENTRY(wait_2) {
  latch l(2);
  vx_budget(2);
  vx_rely("d", dn1, &l, ANY);
  vx_rely("d'", dn1, &l, ANY);
  wt(&l);
  vx_join();
}
ENTRY(wait_n) {
  latch l(2);
  vx_rely("d", dn2, &l, ANY);
  wt(&l);
  vx_join();
}
ENTRY(wait_zero) {
  latch l(0);
  vx_ev("down", 0);
  vx_ev("is_ready", l.is_ready() ? 1 : 0);
  wt(&l);
}
ENTRY(wait_with_waiter) {
  latch l(1);
  vx_budget(3);
  vx_rely("w", wt, &l, ANY);
  vx_rely("d", dn1, &l, ANY);
  wt(&l);
  vx_rest(0);
  vx_join();
}
ENTRY(dnw_2) {
  latch l(2);
  vx_rely("d", dn1, &l, ANY);
  dnw(&l);
  vx_rest(0);
  vx_join();
}
ENTRY(dnw_meet) {
  latch l(2);
  vx_budget(2);
  vx_rely("d", dnw, &l, ANY);
  dnw(&l);
  vx_rest(0);
  vx_join();
}
ENTRY(dnw_meet3) {
  latch l(3);
  vx_budget(3);
  vx_rely("d", dnw, &l, ANY);
  vx_rely("d'", dnw, &l, ANY);
  dnw(&l);
  vx_rest(0);
  vx_join();
}
ENTRY(dnw_waiter) {
  latch l(1);
  vx_budget(3);
  vx_rely("w", wt, &l, ANY);
  vx_rely("w'", wt, &l, ANY);
  dnw(&l);
  vx_rest(0);
  vx_join();
}
// ---- counting thread is analysed
ENTRY(down_waiters) {
  latch l(1);
  vx_budget(4);
  vx_rely("w", wt, &l, ANY);
  vx_rely("w'", wt, &l, ANY);
  dn1(&l);
  vx_ev("returned");
  vx_rest(0);
  vx_join();
}
ENTRY(down_n_waiters) {
  latch l(3);
  vx_budget(4);
  vx_rely("w", wt, &l, ANY);
  vx_rely("w'", wt, &l, ANY);
  dn1(&l);
  dn2(&l);
  vx_rest(0);
  vx_join();
}
ENTRY(down_partial) {
  latch l(3);
  vx_budget(3);
  vx_rely("w", wt, &l, ANY);
  vx_rely("p", peek, &l, ANY);
  dn2(&l);
  vx_rest(1);
  vx_end();
}
ENTRY(down_ready) {
  latch l(2);
  vx_budget(2);
  vx_rely("p", peek, &l, ANY);
  dn1(&l);
  dn1(&l);
  vx_rest(0);
  peek(&l);
  vx_join();
}
// ---- the latch is destroyed as early as allowed
struct cell {
  latch *l;
};
static void wait_destroy(void *p) {
  auto *l = static_cast<cell *>(p)->l;
  l->wait();
  vx_ev("released");
  delete l;
}
static void down_cell(void *p) {
  auto *l = static_cast<cell *>(p)->l;
  vx_ev("down", 1);
  l->count_down();
}
ENTRY(destroy_by_waiter) {
  latch *l = new latch(1);
  cell c{l};
  vx_budget(4);
  vx_rely("w", wait_destroy, &c, ANY);
  vx_ev("down", 1);
  l->count_down();
  vx_ev("returned");
  vx_rest(0);
  vx_join();
}
ENTRY(destroy_by_waiter_main) {
  latch *l = new latch(1);
  cell c{l};
  vx_rely("d", down_cell, &c, ANY);
  l->wait();
  vx_ev("released");
  delete l;
  vx_join();
}
ENTRY(destroy_after_down) {
  {
    latch l(1);
    vx_budget(4);
    vx_rely("w", wt, &l, ANY);
    vx_rely("w'", wt, &l, AT_SYNC | AT_EVENT);
    vx_rest(0); // both are inside
    dn1(&l);
  }
  vx_ev("destroyed");
  vx_rest(0);
}
ENTRY(destroy_after_dnw) {
  {
    latch l(2);
    vx_budget(4);
    vx_rely("w", wt, &l, ANY);
    vx_rely("d", dnw, &l, ANY);
    vx_rest(0); // both are inside
    dnw(&l);
  }
  vx_ev("destroyed");
  vx_rest(0);
}
