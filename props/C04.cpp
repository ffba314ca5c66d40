// Trees: any history of edits leaves the nodes, the items and the ranges between them which the edits describe.
// A history is made at compile time from a seed, together with the tree it should give (Model: plain arrays of indices);
// the data of nodes and items are symbolic.
#include "w.h"
#include <geomc/Tree.h>
namespace std { namespace __detail { // the list primitives of the C++ library (compiled code elsewhere)
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
} }
struct Item { double v; int t; Item(double v=0, int t=-1) : v(v), t(t) {} bool operator==(const Item& o) const { return t == o.t; } bool operator!=(const Item& o) const { return t != o.t; } };
typedef Item ND; // node data, too
typedef Tree<ND,Item> TR; typedef Subtree<ND,Item> SU; typedef ConstSubtree<ND,Item> CSU;
enum { CHILD, CHILDREN, ITEM, ITEMS, XITEM, XCHILD, CLEAR, FLATTEN, ADOPT, NOPS };
struct Op { int k = 0, n = 0, x = 0, m = 0, v = 0; int path[8] = {}, depth = 0, mpath[8] = {}, mdepth = 0; };
struct Model {
  struct N { int data = 0, parent = -1, nk = 0, ni = 0, kid[10] = {}, it[14] = {}; bool live = false; } n[40]; int nn = 1, fresh = 1;
  constexpr Model() { n[0].live = true; }
  constexpr int child(int p, int x, int data) { int c = nn++; n[c].live = true; n[c].data = data; n[c].parent = p; N& P = n[p]; if (!P.nk) { for (int i = 0; i < P.ni; ++i) n[c].it[i] = P.it[i]; n[c].ni = P.ni; P.ni = 0; } for (int i = P.nk; i > x; --i) P.kid[i] = P.kid[i-1]; P.kid[x] = c; P.nk++; return c; }
  constexpr void item(int p, int x, int v) { N& P = n[p]; for (int i = P.ni; i > x; --i) P.it[i] = P.it[i-1]; P.it[x] = v; P.ni++; }
  constexpr void collect(int p, int* o, int& k) const { if (!n[p].nk) for (int i = 0; i < n[p].ni; ++i) o[k++] = n[p].it[i]; for (int i = 0; i < n[p].nk; ++i) collect(n[p].kid[i], o, k); }
  constexpr int count(int p) const { int o[60] = {}, k = 0; collect(p, o, k); return k; }
  constexpr void kill(int p) { for (int i = 0; i < n[p].nk; ++i) { kill(n[p].kid[i]); n[n[p].kid[i]].live = false; } n[p].nk = 0; }
  constexpr void copy(const Model& s, int from, int to) { int k = n[to].ni; for (int i = 0; i < s.n[from].ni; ++i) n[to].it[k++] = s.n[from].it[i]; n[to].ni = k; for (int i = 0; i < s.n[from].nk; ++i) { int c = nn++; n[c].live = true; n[c].data = s.n[s.n[from].kid[i]].data; n[c].parent = to; n[to].kid[n[to].nk++] = c; copy(s, s.n[from].kid[i], c); } }
  constexpr int path(int p, int* out) const { int d = 0, r[8] = {}; while (n[p].parent >= 0) { int q = n[p].parent, i = 0; while (n[q].kid[i] != p) ++i; r[d++] = i; p = q; } for (int i = 0; i < d; ++i) out[i] = r[d-1-i]; return d; }
  constexpr bool apply(Op& o) { N& P = n[o.n]; o.depth = path(o.n, o.path); o.v = fresh;
    if (nn > 30 || fresh > 40) return false;
    switch (o.k) {
      case CHILD: if (P.nk > 3 || o.depth > 3) return false; o.x %= P.nk + 1; child(o.n, o.x, fresh++); return true;
      case CHILDREN: if (P.nk > 3 || o.depth > 3) return false; o.x %= P.nk + 1; child(o.n, o.x, fresh); child(o.n, o.x + 1, fresh + 1); fresh += 2; return true;
      case ITEM: if (P.nk || P.ni > 4) return false; o.x %= P.ni + 1; item(o.n, o.x, fresh++); return true;
      case ITEMS: if (P.nk || P.ni > 4) return false; o.x %= P.ni + 1; item(o.n, o.x, fresh); item(o.n, o.x + 1, fresh + 1); fresh += 2; return true;
      case XITEM: if (P.nk || !P.ni) return false; o.x %= P.ni; for (int i = o.x; i + 1 < P.ni; ++i) P.it[i] = P.it[i+1]; P.ni--; return true;
      case XCHILD: { if (!P.nk) return false; o.x %= P.nk; int c = P.kid[o.x]; kill(c); n[c].live = false; for (int i = o.x; i + 1 < P.nk; ++i) P.kid[i] = P.kid[i+1]; P.nk--; return true; }
      case CLEAR: kill(o.n); P.ni = 0; return true;
      case FLATTEN: { if (!P.nk) return false; int r[60] = {}, k = 0; collect(o.n, r, k); if (k > 10) return false; kill(o.n); P.ni = k; for (int i = 0; i < k; ++i) P.it[i] = r[i]; return true; }
      case ADOPT: { if (!n[o.m].live || P.nk > 3 || o.depth > 2 || count(o.m) > 6 || (!P.nk && P.ni)) return false; o.mdepth = path(o.m, o.mpath); Model s = *this; o.x %= P.nk + 1; int c = child(o.n, o.x, n[o.m].data); copy(s, o.m, c); return true; }
    } return false; } };
template <unsigned SEED, int LEN> struct Hist { Op op[LEN]; Model m[LEN + 1]; constexpr Hist() { unsigned s = SEED * 2654435761u + 12345u; auto rnd = [&](int n) { s = s * 1664525u + 1013904223u; return (int)((s >> 10) % n); };
  const int mix[] = {CHILD,CHILD,CHILD,CHILDREN,ITEM,ITEM,ITEM,ITEMS,ITEMS,XITEM,XITEM,XCHILD,XCHILD,CLEAR,FLATTEN,ADOPT,ADOPT,ADOPT};
  for (int i = 0; i < LEN; ++i) for (int t = 0; ; ++t) { Op o; o.k = i < 4 ? (i & 1 ? CHILD : ITEMS) : mix[rnd(18)]; if (t > 60) o.k = CLEAR; o.n = rnd(m[i].nn); o.m = rnd(m[i].nn); o.x = rnd(8); if (!m[i].n[o.n].live) continue; m[i+1] = m[i]; if (m[i+1].apply(o)) { op[i] = o; break; } } } };
template <unsigned SEED, int LEN> struct HT { static constexpr Hist<SEED,LEN> h{}; };
inline SU walk(SU s, const int* p, int d) { FOR(i,d) { s = s.begin(); FOR(k,p[i]) ++s; } return s; }
inline bool never(const ND&, const Item&) { return false; }
inline bool always(const ND&, const Item&) { return true; }
// what can be seen of a tree
template <class S> inline void see(const S& n, double*& o) { *o++ = (*n).v; *o++ = (*n).t; *o++ = n.node_count(); *o++ = n.item_count(); index_t k = 0; for (auto i = n.items_begin(); i != n.items_end() && k < 60; ++i, ++k) *o++ = (*i).v; for (auto c = n.begin(); c != n.end(); ++c) { *o++ = c.parent() == n; see(c, o); } }
inline void see(const Model& m, int p, const double* a, double*& o) { *o++ = a[m.n[p].data]; *o++ = m.n[p].data; *o++ = m.n[p].nk; int r[60], k = 0; m.collect(p, r, k); *o++ = k; FOR(i,k) *o++ = a[r[i]]; FOR(i,m.n[p].nk) { *o++ = 1; see(m, m.n[p].kid[i], a, o); } }
inline index_t nodes(const Model& m, int p) { index_t k = 1; FOR(i,m.n[p].nk) k += nodes(m, m.n[p].kid[i]); return k; }
inline void run(const Op& o, TR& t, const double* a, double*& out) { SU n = walk(t.root(), o.path, o.depth); ND nd[2] = {ND(a[o.v], o.v), ND(a[o.v+1], o.v+1)}; SU c = n.begin(); if (o.k == CHILD || o.k == CHILDREN || o.k == XCHILD || o.k == ADOPT) { if (o.x == n.node_count()) c = n.end(); else FOR(i,o.x) ++c; }
  auto it = n.items_begin(); if (o.k == ITEM || o.k == ITEMS || o.k == XITEM) FOR(i,o.x) ++it;
  switch (o.k) { case CHILD: *out++ = (*n.insert_child_node(c, nd[0])).v; break; case CHILDREN: *out++ = (*n.insert_child_nodes(c, nd, nd + 2)).v; break; case ITEM: *out++ = (*n.insert_item(it, nd[0])).v; break;
    case ITEMS: { index_t k = 9; *out++ = (*n.insert_items(it, nd, nd + 2, &k)).v; *out++ = k; break; } case XITEM: { bool ok = false; auto r = n.erase(it, &ok); *out++ = ok; *out++ = o.x == n.item_count() ? r == n.items_end() : r == std::next(n.items_begin(), o.x); break; }
    case XCHILD: { bool ok = false; auto r = n.erase(c, &ok); *out++ = ok; *out++ = o.x == n.node_count() ? r == n.end() : r == std::next(n.begin(), o.x); break; } case CLEAR: n.clear(); break; case FLATTEN: n.flatten(); break; case ADOPT: { SU r = n.adopt(CSU(walk(t.root(), o.mpath, o.mdepth)), c); *out++ = (*r).v; break; } } }
inline void ran(const Op& o, const Model& m, const Model& after, const double* a, double*& out) { switch (o.k) { case CHILD: case CHILDREN: case ITEM: *out++ = a[o.v]; break; case ITEMS: *out++ = a[o.v]; *out++ = 2; break; case XITEM: case XCHILD: *out++ = 1; *out++ = 1; break; case ADOPT: *out++ = a[m.n[o.m].data]; break; default: break; } }
template <unsigned SEED, int LEN> struct History { static constexpr const Hist<SEED,LEN>& h = HT<SEED,LEN>::h;
  static void impl(const double* a, double* o) { TR t; *t.root() = ND(a[0], 0); FOR(i,LEN) { run(h.op[i], t, a, o); see(t.root(), o); *o++ = t.size(); *o++ = t.item_count(); } }
  static void spec(const double* a, double* o) { FOR(i,LEN) { ran(h.op[i], h.m[i], h.m[i+1], a, o); see(h.m[i+1], 0, a, o); *o++ = nodes(h.m[i+1], 0); *o++ = h.m[i+1].count(0); } } };
template <unsigned SEED, int LEN> inline void make(TR& t, const double* a) { double junk[LEN*2 + 2], *j = junk; *t.root() = ND(a[0], 0); FOR(i,LEN) run(HT<SEED,LEN>::h.op[i], t, a, j); }
// copies, moves, comparison, and trees made of a subtree
template <unsigned SEED, int LEN> struct Copies { static constexpr const Hist<SEED,LEN>& h = HT<SEED,LEN>::h;
  static void impl(const double* a, double* o) { TR t; make<SEED,LEN>(t, a); const TR u(t); see(u.root(), o); *o++ = u == t; *o++ = u != t; TR v(std::move(t)); see(v.root(), o); *o++ = u == v; *o++ = t.size(); *o++ = t.item_count(); *o++ = t == v; const Op& l = h.op[LEN-1]; TR w(CSU(walk(v.root(), l.path, l.depth))); see(w.root(), o); *o++ = v.begin() == v.root(); *o++ = v.root().is_root(); *o++ = v.root().parent() == v.end();
    v.root().clear(); *o++ = v.size(); *o++ = v.item_count(); see(u.root(), o); ND x(a[50], 50); w.root().insert_child_node(x); *o++ = (*std::prev(w.root().end())).v; see(u.root(), o); }
  static void spec(const double* a, double* o) { const Model& m = h.m[LEN]; see(m, 0, a, o); *o++ = 1; *o++ = 0; see(m, 0, a, o); *o++ = 1; *o++ = 1; *o++ = 0; *o++ = 0; see(m, h.op[LEN-1].n, a, o); *o++ = 1; *o++ = 1; *o++ = 1; *o++ = 1; *o++ = 0; see(m, 0, a, o); *o++ = a[50]; see(m, 0, a, o); } };
// searches: every node once, parents before children, below any node; and the leaf that owns an item
inline void pre(const Model& m, int p, int cut, const double* a, double*& o) { *o++ = a[m.n[p].data]; if (m.n[p].data % 3 != cut) FOR(i,m.n[p].nk) pre(m, m.n[p].kid[i], cut, a, o); }
inline void leaves(const Model& m, int p, const double* a, double*& o) { if (!m.n[p].nk) *o++ = a[m.n[p].data]; FOR(i,m.n[p].nk) leaves(m, m.n[p].kid[i], a, o); }
inline void owners(const Model& m, int p, const double* a, double*& o) { if (!m.n[p].nk) FOR(i,m.n[p].ni) { *o++ = a[m.n[p].data]; *o++ = a[m.n[p].data]; *o++ = 1; *o++ = 1; } FOR(i,m.n[p].nk) owners(m, m.n[p].kid[i], a, o); }
struct Bnd { bool operator()(const SU& s, int cut) const { return (*s).t % 3 != cut; } }; struct Any { bool operator()(const SU&, int) const { return true; } }; struct Lf { bool operator()(const SU& s, int) const { return s.node_count() == 0; } };
template <unsigned SEED, int LEN> struct Searches { static constexpr const Hist<SEED,LEN>& h = HT<SEED,LEN>::h;
  static void at(const SU& s, double*& o) { FOR(cut,4) { index_t k = 0; for (auto q = s.query((int)cut, Bnd(), Any()); q != s.end() && k < 40; ++q, ++k) *o++ = (**q).v; } index_t k = 0; for (auto q = s.query(7, Any(), Lf()); q != s.end() && k < 40; ++q, ++k) *o++ = (**q).v;
    k = 0; for (auto i = s.items_begin(); i != s.items_end() && k < 60; ++i, ++k) { *o++ = (*s.find_parent(i)).v; *o++ = (*s.template find_parent<always>(i)).v; *o++ = s.template find_parent<never>(i) == s.end(); *o++ = s.tree().root().find_parent(i) == s.find_parent(i); }
    k = 0; for (auto c = s.subtree_begin(); c != s.subtree_end() && k < 40; ++c) ++k; *o++ = k; }
  static void impl(const double* a, double* o) { TR t; make<SEED,LEN>(t, a); at(t.root(), o); const Op& l = h.op[LEN-1]; at(walk(t.root(), l.path, l.depth), o); if (t.root().node_count()) at(t.root().begin(), o); }
  static void spec(const double* a, double* o) { const Model& m = h.m[LEN]; int p[3] = {0, h.op[LEN-1].n, m.n[0].kid[0]}; FOR(j,m.n[0].nk ? 3 : 2) { FOR(cut,4) pre(m, p[j], cut, a, o); leaves(m, p[j], a, o); owners(m, p[j], a, o); *o++ = nodes(m, p[j]) - 1; } } };
// splitting a leaf: items which compare below the pivot go to the new left sibling
template <int A, int B, int K, int MASK, int PIV> struct Split { static int cmp(const Item& i, int p) { return i.t - p; }
  // A, B siblings on either side with an item each; K items whose tags are 0 or 1 by MASK
  static void impl(const double* a, double* o) { TR t; SU r = t.root(); FOR(i,A) { SU c = r.insert_child_node(ND(a[20+i], 20)); c.insert_item(Item(a[24+i], 9)); } SU s = r.insert_child_node(ND(a[30], 30)); FOR(i,B) { SU c = r.insert_child_node(ND(a[31+i], 31)); c.insert_item(Item(a[35+i], 9)); } FOR(i,K) s.insert_item(Item(a[i], MASK >> i & 1));
    SU n = s.split(cmp, PIV, ND(a[40], 40)); *o++ = r.node_count(); *o++ = r.item_count(); if (K < 2) { *o++ = n == s.end(); return; } *o++ = n.parent() == r; *o++ = std::next(n) == s; *o++ = A ? std::prev(n) == std::next(r.begin(), A-1) : r.begin() == n; *o++ = (*n).v; *o++ = (*s).v; *o++ = n.item_count(); *o++ = s.item_count(); double x = 0, y = 0; index_t k = 0;
    for (auto i = n.items_begin(); i != n.items_end() && k < 30; ++i, ++k) { *o++ = (*i).t; x += (*i).v; } for (auto i = s.items_begin(); i != s.items_end() && k < 30; ++i, ++k) { *o++ = (*i).t; y += (*i).v; } *o++ = x; *o++ = y; k = 0; x = 0; for (auto i = r.items_begin(); i != r.items_end() && k < 30; ++i, ++k) x += (*i).v; *o++ = k; *o++ = x; }
  static void spec(const double* a, double* o) { *o++ = A + B + (K < 2 ? 1 : 2); *o++ = A + B + K; if (K < 2) { *o++ = 1; return; } *o++ = 1; *o++ = 1; *o++ = 1; *o++ = a[40]; *o++ = a[30]; index_t l = 0; double x = 0, y = 0; FOR(i,K) if ((MASK >> i & 1) < PIV) { ++l; x += a[i]; } else y += a[i]; *o++ = l; *o++ = K - l; FOR(p,2) FOR(i,K) { int t = MASK >> i & 1; if ((t < PIV) == (p == 0)) *o++ = PIV == 1 ? t : 77; } *o++ = x; *o++ = y; double z = x + y; FOR(i,A) z += a[24+i]; FOR(i,B) z += a[35+i]; *o++ = A + B + K; *o++ = z; } };
template <int K> struct FromItems { static void impl(const double* a, double* o) { Item b[K + 1]; FOR(i,K) b[i] = Item(a[i], i); TR t(b + 0, b + K); *t.root() = ND(a[20], 20); see(t.root(), o); *o++ = t.item_count(); *o++ = t.size(); SU c = t.root().insert_child_node(ND(a[21], 21)); c.insert_item(Item(a[22], 22)); see(t.root(), o); }
  static void spec(const double* a, double* o) { *o++ = a[20]; *o++ = 20; *o++ = 0; *o++ = K; FOR(i,K) *o++ = a[i]; *o++ = K; *o++ = 1; *o++ = a[20]; *o++ = 20; *o++ = 1; *o++ = K + 1; FOR(i,K) *o++ = a[i]; *o++ = a[22]; *o++ = 1; *o++ = a[21]; *o++ = 21; *o++ = 0; *o++ = K + 1; FOR(i,K) *o++ = a[i]; *o++ = a[22]; } };
template struct FromItems<0>; template struct FromItems<1>; template struct FromItems<3>;
// edits which are refused change nothing
struct Refused { static void impl(const double* a, double* o) { TR t; SU r = t.root(); *r = ND(a[0], 0); SU c = r.insert_child_node(ND(a[1], 1)), d = r.insert_child_node(ND(a[2], 2)), e = c.insert_child_node(ND(a[3], 3)); d.insert_item(Item(a[4], 4)); bool k = true, l = true; *o++ = r.insert_child_node(e.insert_child_node(ND(a[5], 5)), ND(a[6], 6)) == r.end(); *o++ = r.insert_child_node(r, ND(a[6], 6)) == r.end(); *o++ = r.erase(e, &k) == r.end(); *o++ = k; *o++ = r.insert_item(Item(a[7], 7)) == r.items_end();
    *o++ = e.erase(d.items_begin(), &l) == e.items_end(); *o++ = l; *o++ = d.adopt(CSU(c), d.end()) == d.end(); Item bb[2], *b = bb; index_t q = 5; *o++ = d.insert_items(d.items_end(), b, b, &q) == d.items_end(); *o++ = q; *o++ = r.insert_items(d.items_end(), b, b + 2, &q) == r.items_end(); *o++ = q; k = true; *o++ = c.erase(t.end(), &k) == c.end(); *o++ = k; *o++ = r.split(Split<0,0,1,0,0>::cmp, 1, ND(a[6], 6)) == r.end(); *o++ = c.split(Split<0,0,1,0,0>::cmp, 1, ND(a[6], 6)) == c.end(); see(r, o); }
  static void spec(const double* a, double* o) { const int v[] = {1,1,1,0,1,1,0,1,1,0,1,0,1,0,1,1}; for (int x : v) *o++ = x; *o++ = a[0]; *o++ = 0; *o++ = 2; *o++ = 1; *o++ = a[4]; *o++ = 1; *o++ = a[1]; *o++ = 1; *o++ = 1; *o++ = 0; *o++ = 1; *o++ = a[3]; *o++ = 3; *o++ = 1; *o++ = 0; *o++ = 1; *o++ = a[5]; *o++ = 5; *o++ = 0; *o++ = 0; *o++ = 1; *o++ = a[2]; *o++ = 2; *o++ = 0; *o++ = 1; *o++ = a[4]; } }; VG_KEEP(Refused)
#define SP(K,M) template struct Split<0,0,K,M,1>; template struct Split<1,2,K,M,1>; template struct Split<2,0,K,M,1>;
SP(1,0) SP(2,0) SP(2,1) SP(2,2) SP(2,3) SP(3,2) SP(3,5) SP(4,5) SP(4,9) SP(5,13) SP(5,18) SP(5,31) SP(5,0)
#define HS(n,l) template struct History<n,l>; template struct Copies<n,l>; template struct Searches<n,l>;
#define H4(n,l) HS(n,l) HS(n+1,l) HS(n+2,l) HS(n+3,l)
#define H16(n,l) H4(n,l) H4(n+4,l) H4(n+8,l) H4(n+12,l)
H4(0,5) H4(4,6) H16(8,8) H16(24,10)
#ifdef THOROUGH
H16(40,10) H16(56,10) H16(72,12) H16(88,12) H16(104,14)
#endif
