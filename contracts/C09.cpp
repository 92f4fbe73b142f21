// C09: the ring buffer is a bounded double-ended queue: every operation, in every state (head position, length,
// contents), does what it does on a sequence, and constructs and destroys every element exactly once.
#include "vc.h"
#include <new>
#include <utility>
#include <cstdint>
#include "common/circular_buffer.h"
using namespace mc;
// An element that knows whether its slot of the buffer holds a live object.
struct E;
static E* g_base; static uint8_t g_live[100]; static bool g_track; static int g_bad;
struct E {
  int id;
  void born() { if (g_track) { long i = this - g_base; if (g_live[i] != 0) ++g_bad; g_live[i] = 1; } }
  E() : id(0) { born(); }
  explicit E(int i) : id(i) { born(); }
  E(int i, int j) : id(i + j) { born(); }
  E(const E& o) : id(o.id) { born(); }
  E& operator=(const E& o) { if (g_track && g_live[this - g_base] != 1) ++g_bad; id = o.id; return *this; }
  ~E() { if (g_track) { long i = this - g_base; if (g_live[i] != 1) ++g_bad; g_live[i] = 0; } }
};
// any valid state of a buffer
template <int N> struct Any {
  typedef CircularBuffer<E, N> Buf;
  alignas(Buf) unsigned char raw[sizeof(Buf)];
  Buf& b() { return *reinterpret_cast<Buf*>(raw); }
  int h, n, id[N];
  void make() {
    g_track = false; g_bad = 0;
    new (raw) Buf();
    h = vc::in32("head", 0, N - 1); n = vc::in32("length", 0, N - 1);
    E* p = b().data();
    g_base = p;
    for (int i = 0; i < N; ++i) {
      id[i] = vc::any<int>("id"); p[i].id = id[i];
      int r = i - h; if (r < 0) r += N;
      g_live[i] = r < n;
    }
    b().head_.val = p + h;
    int t = h + n; if (t >= N) t -= N;
    b().tail_.val = p + t;
  }
  int at(int k) const { int i = h + k; if (i >= N) i -= N; return id[i]; }   // element k of the sequence
  // the sequence is now: `skip` elements dropped at the front, `len` long, `pre` pushed before it and `post` behind it
  void check(int skip, int keep, int npre, int pre, int npost, int post) {
    Buf& B = b();
    int len = npre + keep + npost;
    ENSURES((int)B.size() == len, "length");
    ENSURES(B.empty() == (len == 0) && B.full() == (len == N - 1), "empty and full tell the length");
    int k = vc::in32("k", 0, N - 1);
    if (k < len) {
      int want = k < npre ? pre : k < npre + keep ? at(skip + k - npre) : post;
      ENSURES(B[k].id == want && B.at(k).id == want, "elements keep their order and value");
      ENSURES(static_cast<const Buf&>(B)[k].id == want && static_cast<const Buf&>(B).at(k).id == want, "elements seen through a constant buffer");
      if (k == 0) ENSURES(B.front().id == want && static_cast<const Buf&>(B).front().id == want, "front is the first element");
      if (k == len - 1) ENSURES(B.back().id == want && static_cast<const Buf&>(B).back().id == want, "back is the last element");
    }
    life(len);
  }
  void life(int len) {
    Buf& B = b();
    ENSURES(g_bad == 0, "every element is constructed and destroyed once");
    long f = B.head_.val - B.data();
    ENSURES(f >= 0 && f < N && B.tail_.val - B.data() >= 0 && B.tail_.val - B.data() < N, "head and tail stay inside");
    int j = vc::in32("slot", 0, N - 1);
    int r = j - (int)f; if (r < 0) r += N;
    ENSURES((g_live[j] != 0) == (r < len), "exactly the elements of the sequence are alive");
    g_track = false;
  }
};
template <int N> static Any<N>& any() { static Any<N> a; a.make(); g_track = true; return a; }
template <int N> void push_back_() {
  Any<N>& a = any<N>(); g_track = false; E e(vc::any<int>("e")); g_track = true;
  a.b().push_back(e);
  int full = a.n == N - 1;
  a.check(full, a.n - full, 0, 0, 1, e.id);
}
template <int N> void push_front_() {
  Any<N>& a = any<N>(); g_track = false; E e(vc::any<int>("e")); g_track = true;
  a.b().push_front(e);
  int full = a.n == N - 1;
  a.check(0, a.n - full, 1, e.id, 0, 0);
}
template <int N> void emplace_back_() {
  Any<N>& a = any<N>(); int x = vc::in32("x", 0, 1000), y = vc::in32("y", 0, 1000);
  a.b().emplace_back(x, y);
  int full = a.n == N - 1;
  a.check(full, a.n - full, 0, 0, 1, x + y);
}
template <int N> void emplace_front_() {
  Any<N>& a = any<N>(); int x = vc::in32("x", 0, 1000), y = vc::in32("y", 0, 1000);
  a.b().emplace_front(x, y);
  int full = a.n == N - 1;
  a.check(0, a.n - full, 1, x + y, 0, 0);
}
// an element of the buffer may itself be pushed, even when that drops it
template <int N> void push_own_() {
  Any<N>& a = any<N>(); REQUIRES(a.n > 0);
  int k = vc::in32("which", 0, N - 1); REQUIRES(k < a.n);
  int full = a.n == N - 1, id = a.at(k);
  if (vc::any<bool>("back")) { a.b().push_back(a.b()[k]); a.check(full, a.n - full, 0, 0, 1, id); }
  else { a.b().push_front(a.b()[k]); a.check(0, a.n - full, 1, id, 0, 0); }
}
template <int N> void pop_front_() { Any<N>& a = any<N>(); REQUIRES(a.n > 0); a.b().pop_front(); a.check(1, a.n - 1, 0, 0, 0, 0); }
template <int N> void pop_back_() { Any<N>& a = any<N>(); REQUIRES(a.n > 0); a.b().pop_back(); a.check(0, a.n - 1, 0, 0, 0, 0); }
template <int N> void access_() { Any<N>& a = any<N>(); a.check(0, a.n, 0, 0, 0, 0); }
template <int N> void clear_() { Any<N>& a = any<N>(); a.b().clear(); a.check(0, 0, 0, 0, 0, 0); }
template <int N> void destroy_() {
  Any<N>& a = any<N>();
  a.b().~CircularBuffer<E, N>();
  g_track = false;
  ENSURES(g_bad == 0, "every element is destroyed once");
  int j = vc::in32("slot", 0, N - 1);
  ENSURES(g_live[j] == 0, "no element outlives the buffer");
}
// iterators: position i of the sequence, i = length being the end
template <int N> void iterators_() {
  Any<N>& a = any<N>(); g_track = false;
  typedef CircularBuffer<E, N> Buf;
  Buf& B = a.b(); const Buf& C = B;
  int i = vc::in32("i", 0, N - 1), j = vc::in32("j", 0, N - 1);
  REQUIRES(i <= a.n && j <= a.n);
  typename Buf::iterator p = B.begin() + i, q = B.begin() + j;
  typename Buf::const_iterator cp = C.begin() + i, cq = C.begin() + j;
  ENSURES((p == B.end()) == (i == a.n) && (cp == C.end()) == (i == a.n), "the end is one past the last element");
  ENSURES((p == q) == (i == j) && (p != q) == (i != j), "iterators are equal at the same position");
  ENSURES((cp < cq) == (i < j) && (cp > cq) == (i > j) && (cp <= cq) == (i <= j) && (cp >= cq) == (i >= j), "iterators are ordered by position");
  ENSURES(cp - cq == i - j && p - q == i - j, "the distance of iterators is that of their positions");
  ENSURES((p - (size_t)i) == B.begin() && (cp - (size_t)i) == C.begin(), "stepping back undoes stepping forward");
  if (i < a.n) {
    ENSURES((*p).id == a.at(i) && p->id == a.at(i) && (*cp).id == a.at(i) && cp->id == a.at(i), "an iterator refers to the element at its position");
    typename Buf::const_iterator r = cp; ++r;
    ENSURES(r - cp == 1 && (r == C.end()) == (i + 1 == a.n), "incrementing moves to the next element");
    typename Buf::const_iterator s = cp, t = s++;
    ENSURES(s == r && t == cp, "post-increment yields the old position");
    --r;
    ENSURES(r == cp, "decrementing undoes incrementing");
    typename Buf::const_iterator u = s, v = u--;
    ENSURES(u == cp && v == s, "post-decrement yields the old position");
  }
  if (j >= i) {
    typename Buf::const_iterator r = cp; r += (size_t)(j - i);
    ENSURES(r == cq, "adding moves forward");
    r -= (size_t)(j - i);
    ENSURES(r == cp, "subtracting moves back");
  }
}
template <int N> void walk_() {
  Any<N>& a = any<N>(); g_track = false;
  int n = 0; bool same = true;
  for (const E& e : a.b()) { if (n < a.n && e.id != a.at(n)) same = false; ++n; if (n > N) break; }
  ENSURES(n == a.n && same, "a loop over the buffer visits every element in order");
  n = 0;
  const CircularBuffer<E, N>& C = a.b();
  for (const E& e : C) { if (n < a.n && e.id != a.at(n)) same = false; ++n; if (n > N) break; }
  ENSURES(n == a.n && same, "a loop over a constant buffer visits every element in order");
}
template <int N> void copy_() {
  Any<N>& a = any<N>(); g_track = false;
  CircularBuffer<E, N> c(a.b());
  ENSURES((int)c.size() == a.n, "a copy is as long");
  int k = vc::in32("k", 0, N - 1);
  if (k < a.n) {
    ENSURES(c[k].id == a.at(k), "a copy has the same elements");
    c[k].id = 77;
    ENSURES(a.b()[k].id == a.at(k), "a copy does not share elements");
    ENSURES(&*(c.begin() + k) != &*(a.b().begin() + k), "a copy has its own elements");
  }
  g_track = true; a.life(a.n);
}
template <int N> void assign_() {
  Any<N>& a = any<N>(); g_track = false;
  CircularBuffer<E, N> c;
  int m = vc::in32("m", 0, N - 1);
  for (int i = 0; i < N - 1; ++i) if (i < m) c.push_back(E(1000 + i));
  g_track = true;
  bool self = vc::any<bool>("self");
  if (self) { a.b() = a.b(); a.check(0, a.n, 0, 0, 0, 0); return; }
  a.b() = c;
  ENSURES((int)a.b().size() == m, "an assigned buffer is as long");
  int k = vc::in32("k", 0, N - 1);
  if (k < m) ENSURES(a.b()[k].id == 1000 + k && c[k].id == 1000 + k, "an assigned buffer has the same elements");
  a.life(m);
}
#define OP(op, N) CONTRACT(op##N, "") { op##_<N>(); }
#define ALL(N) OP(push_back, N) OP(push_front, N) OP(emplace_back, N) OP(emplace_front, N) OP(push_own, N) OP(pop_front, N) OP(pop_back, N) OP(access, N) OP(clear, N) OP(destroy, N) OP(iterators, N) OP(walk, N) OP(copy, N)
#define STEP(N) OP(push_back, N) OP(push_front, N) OP(emplace_back, N) OP(emplace_front, N) OP(pop_front, N) OP(pop_back, N) OP(access, N) OP(iterators, N)
ALL(2)
ALL(5)
OP(assign, 2)
OP(assign, 3)
STEP(8)
OP(push_own, 8)
STEP(30)
#define OPT(op, N) CONTRACT(op##N, "tier=thorough") { op##_<N>(); }
OPT(push_back, 100) OPT(push_front, 100) OPT(emplace_back, 100) OPT(emplace_front, 100) OPT(pop_front, 100) OPT(pop_back, 100) OPT(access, 100) OPT(iterators, 100)
OP(clear, 8)
OP(destroy, 8)
