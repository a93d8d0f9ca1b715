#include "expr.hpp"
#include <z3.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <algorithm>
#include <map>

std::vector<VarInfo> vars;
Expr *E_TRUE, *E_FALSE;
SolverStats sstats;
std::function<void(const std::string&)> engine_fail;

static uint32_t nextId = 1;
static const int64_t I64MIN = INT64_MIN, I64MAX = INT64_MAX;

struct Key {
  Kind k; Sort s; uint16_t w; Expr *a, *b, *c; uint64_t cv;
  bool operator==(const Key& o) const { return k == o.k && s == o.s && w == o.w && a == o.a && b == o.b && c == o.c && cv == o.cv; }
};
struct KeyH {
  size_t operator()(const Key& k) const {
    uint64_t h = (uint64_t(k.k) << 32) ^ (uint64_t(k.w) << 8) ^ k.s;
    auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.c); mix(k.cv);
    return h ^ (h >> 29);
  }
};
static std::unordered_map<Key, Expr*, KeyH> table;

static inline uint64_t maskw(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, int w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }
static inline int64_t minw(int w) { return w >= 64 ? I64MIN : -(int64_t)(1ull << (w - 1)); }
static inline int64_t maxw(int w) { return w >= 64 ? I64MAX : (int64_t)((1ull << (w - 1)) - 1); }

static Expr* intern(Kind k, Sort s, int w, Expr* a, Expr* b, Expr* c, uint64_t cv) {
  Key key{k, s, (uint16_t)w, a, b, c, cv};
  auto it = table.find(key);
  if (it != table.end()) return it->second;
  Expr* e = (Expr*)aligned_alloc(16, (sizeof(Expr) + 15) & ~15ull);
  memset((void*)e, 0, sizeof(Expr));
  e->k = k; e->s = s; e->w = w; e->a = a; e->b = b; e->c = c; e->cv = cv; e->id = nextId++;
  e->undef = (a && a->undef) || (b && b->undef) || (c && c->undef);
  if (s == S_BV) {
    e->smin = minw(w); e->smax = maxw(w);
    auto set = [&](__int128 lo, __int128 hi) { if (lo >= minw(w) && hi <= maxw(w)) { e->smin = (int64_t)lo; e->smax = (int64_t)hi; } };
    switch (k) {
      case K_CONST: e->smin = e->smax = sx(cv, w); break;
      case K_ADD: set((__int128)a->smin + b->smin, (__int128)a->smax + b->smax); break;
      case K_SUB: set((__int128)a->smin - b->smax, (__int128)a->smax - b->smin); break;
      case K_MUL: {
        __int128 x[4] = {(__int128)a->smin * b->smin, (__int128)a->smin * b->smax, (__int128)a->smax * b->smin, (__int128)a->smax * b->smax};
        __int128 lo = x[0], hi = x[0];
        for (auto v : x) { lo = std::min(lo, v); hi = std::max(hi, v); }
        set(lo, hi); break;
      }
      case K_AND:
        if (b->smin >= 0) set(0, b->smax);
        if (a->smin >= 0) set(0, b->smin >= 0 ? std::min(a->smax, b->smax) : a->smax);
        break;
      case K_OR: case K_XOR:
        if (a->smin >= 0 && b->smin >= 0) { int64_t m = std::max(a->smax, b->smax); int bits = 64 - __builtin_clzll((uint64_t)m | 1); set(0, bits >= 63 ? (__int128)I64MAX : ((__int128)1 << bits) - 1); }
        break;
      case K_SHL:
        if (b->k == K_CONST && b->cv < 64) { set((__int128)a->smin << b->cv, (__int128)a->smax << b->cv); }
        break;
      case K_LSHR:
        if (b->k == K_CONST && b->cv < 64) { if (a->smin >= 0) set(a->smin >> b->cv, a->smax >> b->cv); else if (b->cv > 0) set(0, (__int128)(maskw(w) >> b->cv)); }
        else if (a->smin >= 0) set(0, a->smax);
        break;
      case K_ASHR:
        if (b->k == K_CONST && b->cv < 64) set(a->smin >> b->cv, a->smax >> b->cv);
        else set(std::min<int64_t>(a->smin, a->smin < 0 ? a->smin : 0), std::max<int64_t>(a->smax, a->smax > 0 ? a->smax : -1));
        break;
      case K_ZEXT:
        if (a->smin >= 0) set(a->smin, a->smax); else set(0, (__int128)maskw(a->w));
        break;
      case K_SEXT: set(a->smin, a->smax); break;
      case K_EXTRACT: if (cv == 0 && a->w <= 64) set(a->smin, a->smax); break;
      case K_ITE: set(std::min(b->smin, c->smin), std::max(b->smax, c->smax)); break;
      case K_UDIV: if (a->smin >= 0 && b->smin > 0) set(a->smin / b->smax, a->smax / b->smin); break;
      case K_SDIV: if (b->smin > 0) set(std::min(a->smin, (int64_t)0), std::max(a->smax, (int64_t)0)); break;
      case K_UREM: if (b->smin > 0) set(0, b->smax - 1); break;
      case K_SREM: if (b->smin > 0) set(a->smin < 0 ? -(b->smax - 1) : 0, a->smax > 0 ? b->smax - 1 : 0); break;
      default: break;
    }
  }
  table.emplace(key, e);
  return e;
}

void expr_init() {
  table.reserve(1 << 16);
  E_FALSE = intern(K_CONST, S_BOOL, 1, 0, 0, 0, 0);
  E_TRUE = intern(K_CONST, S_BOOL, 1, 0, 0, 0, 1);
}
Expr* mkConst(uint64_t v, int w) { if (w > 64) engine_fail("constant wider than 64 bits"); return intern(K_CONST, S_BV, w, 0, 0, 0, v & maskw(w)); }
Expr* mkBool(bool b) { return b ? E_TRUE : E_FALSE; }

static void model_extend(uint64_t def);
Expr* mkVar(const std::string& name, int w, int64_t lo, int64_t hi, bool undef) {
  Expr* e = intern(K_VAR, w == 1 ? S_BOOL : S_BV, w, 0, 0, 0, vars.size());
  e->undef = undef;
  if (w > 1) { e->smin = lo; e->smax = hi; }
  vars.push_back({e, name, e->s, w, lo, hi, undef, false});
  model_extend(w > 1 ? ((lo <= 0 && hi >= 0) ? 0 : (uint64_t)lo & maskw(w)) : 0);
  return e;
}

static inline bool isC(Expr* e) { return e->k == K_CONST; }
static bool iteConsts(Expr* e) { return e->k == K_ITE && isC(e->b) && isC(e->c); }

// ---- integer linear forms: the signed value of a bit-vector term as c + sum coef*atom (exact), or modulo 2^w (not exact)
struct Lin { std::vector<std::pair<Expr*, int64_t>> t; int64_t c = 0; bool exact = true; int64_t lo = 0, hi = 0; bool atom = false; };
static bool linRange(const Lin& L, __int128& lo, __int128& hi) {
  lo = hi = L.c;
  for (auto& x : L.t) { __int128 p = (__int128)x.second * x.first->smin, q = (__int128)x.second * x.first->smax; lo += std::min(p, q); hi += std::max(p, q); if (lo < -((__int128)1 << 100) || hi > ((__int128)1 << 100)) return false; }
  return true;
}
static bool linAdd(Lin& r, const Lin& a, const Lin& b, int64_t sb) { // r = a + sb*b
  r.t.clear(); r.exact = a.exact && b.exact; bool ov = false; int64_t m;
  auto mul = [&](int64_t x) { if (__builtin_mul_overflow(x, sb, &m)) ov = true; return (int64_t)((uint64_t)x * (uint64_t)sb); };
  auto add = [&](int64_t x, int64_t y) { if (__builtin_add_overflow(x, y, &m)) ov = true; return (int64_t)((uint64_t)x + (uint64_t)y); };
  size_t i = 0, j = 0;
  while (i < a.t.size() || j < b.t.size()) {
    if (j == b.t.size() || (i < a.t.size() && a.t[i].first->id < b.t[j].first->id)) { r.t.push_back(a.t[i++]); continue; }
    if (i == a.t.size() || b.t[j].first->id < a.t[i].first->id) { int64_t v = mul(b.t[j].second); if (v) r.t.push_back({b.t[j].first, v}); j++; continue; }
    int64_t v = add(a.t[i].second, mul(b.t[j].second)); if (v) r.t.push_back({a.t[i].first, v}); i++; j++;
  }
  r.c = add(a.c, mul(b.c)); if (ov) r.exact = false;
  return r.t.size() <= 6;
}
static const Lin& linOf(Expr* e) {
  if (e->lin) return *e->lin;
  Lin* L = new Lin; int w = e->w; bool ok = false;
  auto cst = [&](Expr* x) { return x && x->k == K_CONST; };
  switch (e->k) {
    case K_CONST: L->c = sx(e->cv, w); ok = true; break;
    case K_ADD: ok = linAdd(*L, linOf(e->a), linOf(e->b), 1); break;
    case K_SUB: ok = linAdd(*L, linOf(e->a), linOf(e->b), -1); break;
    case K_MUL: if (cst(e->b)) { Lin z; ok = linAdd(*L, z, linOf(e->a), sx(e->b->cv, w)); } break;
    case K_SHL: if (cst(e->b) && e->b->cv < 62) { Lin z; ok = linAdd(*L, z, linOf(e->a), (int64_t)1 << e->b->cv); } break;
    case K_SEXT: { const Lin& a = linOf(e->a); if (a.exact) { *L = a; ok = true; } break; }
    case K_EXTRACT: if (e->cv == 0 && e->a->w <= 64) { const Lin& a = linOf(e->a); *L = a; ok = true; } break;
    case K_ASHR: case K_LSHR: if (cst(e->b) && e->b->cv < 62 && (e->k == K_ASHR || e->a->smin >= 0)) {
      const Lin& a = linOf(e->a); int s = (int)e->b->cv; if (!a.exact) break; ok = true;
      for (auto& x : a.t) if (x.second & (((int64_t)1 << s) - 1)) ok = false;
      if (ok) { *L = a; for (auto& x : L->t) x.second >>= s; L->c >>= s; }
      break; }
    case K_AND: if (cst(e->b) && ((e->b->cv & (e->b->cv + 1)) == 0) && e->b->cv < ((uint64_t)1 << 62)) {
      const Lin& a = linOf(e->a); ok = true;
      for (auto& x : a.t) if ((uint64_t)x.second & e->b->cv) ok = false;
      if (ok) L->c = (int64_t)((uint64_t)a.c & e->b->cv);
    }
    // fall through: a mask that clears low bits only
    if (ok) break;
  case K_OR: case K_XOR: if (cst(e->b)) { // low bits are those of the constant part
      const Lin& a = linOf(e->a); uint64_t m = e->k == K_AND ? ~e->b->cv & maskw(w) : e->b->cv; int kb = 0; while (kb < 62 && (m >> kb)) kb++;
      if (kb >= 62) break;
      ok = true; for (auto& x : a.t) if ((uint64_t)x.second & ((1ull << kb) - 1)) ok = false;
      if (!ok) break;
      *L = a; uint64_t c = (uint64_t)a.c; L->c = (int64_t)(e->k == K_AND ? c & ~m : e->k == K_OR ? c | m : c ^ m);
    } break;
    default: break;
  }
  if (ok) {
    __int128 lo, hi;
    if (L->exact && (!linRange(*L, lo, hi) || lo < minw(w) || hi > maxw(w))) L->exact = false;
    if (L->exact) { L->lo = (int64_t)lo; L->hi = (int64_t)hi; }
    if (!L->exact) for (auto& x : L->t) if (x.first->w < w) { ok = false; break; } // a narrower atom stands for its sign extension only in exact forms
  }
  if (!ok) { *L = Lin(); L->t.push_back({e, 1}); L->lo = e->smin; L->hi = e->smax; L->atom = true; }
  if (L->t.empty() && !L->exact) { L->c = sx((uint64_t)L->c, w); L->exact = true; L->lo = L->hi = L->c; }
  if (L->exact && !L->atom) { if (L->lo > e->smin) e->smin = L->lo; if (L->hi < e->smax) e->smax = L->hi; }
  e->lin = L; return *L;
}
Expr* mkSExt(Expr* a, int w); Expr* mkExtract(Expr* a, int lo, int w);
static Expr* linBuild(const Lin& L, int w) { // canonical term of a linear form
  Expr* r = nullptr;
  for (int neg = 0; neg < 2; neg++)
    for (auto& x : L.t) if ((x.second < 0) == (neg == 1)) {
      uint64_t k = neg ? 0 - (uint64_t)x.second : (uint64_t)x.second;
      Expr* a = x.first->w == w ? x.first : x.first->w < w ? intern(K_SEXT, S_BV, w, x.first, 0, 0, 0) : intern(K_EXTRACT, S_BV, w, x.first, 0, 0, 0);
      k &= maskw(w); if (!k) continue;
      if (k != 1) a = (k & (k - 1)) == 0 ? intern(K_SHL, S_BV, w, a, mkConst(__builtin_ctzll(k), w), 0, 0) : intern(K_MUL, S_BV, w, a, mkConst(k, w), 0, 0);
      if (!r) r = neg ? intern(K_SUB, S_BV, w, mkConst(0, w), a, 0, 0) : a;
      else r = intern(neg ? K_SUB : K_ADD, S_BV, w, r, a, 0, 0);
    }
  if (!r) return mkConst((uint64_t)L.c, w);
  if ((uint64_t)L.c & maskw(w)) r = intern(K_ADD, S_BV, w, r, mkConst((uint64_t)L.c, w), 0, 0);
  linOf(r);
  return r;
}
#ifdef LINCHECK // debug: random evaluation of both sides of a rewriting
static void linCheck(Expr* e, Expr* r);
#else
static inline void linCheck(Expr*, Expr*) {}
#endif
static Expr* linCanon(Expr* e) {
  if (e->s != S_BV || e->w > 64 || e->w < 2 || e->k == K_CONST || e->k == K_VAR) return e;
  const Lin& L = linOf(e);
  if (L.atom || L.t.size() > 4) return e;
  Expr* r = linBuild(L, e->w); linCheck(e, r); return r;
}

Expr* mkNot(Expr* a) {
  if (isC(a)) return mkBool(!a->cv);
  if (a->k == K_NOT) return a->a;
  if (a->k == K_SLT) return mkCmp(K_SLE, a->b, a->a);
  if (a->k == K_SLE) return mkCmp(K_SLT, a->b, a->a);
  if (a->k == K_ULT) return mkCmp(K_ULE, a->b, a->a);
  if (a->k == K_ULE) return mkCmp(K_ULT, a->b, a->a);
  return intern(K_NOT, S_BOOL, 1, a, 0, 0, 0);
}
Expr* mkBBin(Kind k, Expr* a, Expr* b) {
  if (a->id > b->id) std::swap(a, b);
  if (k == K_BAND) {
    if (isC(a)) return a->cv ? b : E_FALSE;
    if (isC(b)) return b->cv ? a : E_FALSE;
    if (a == b) return a;
    if (mkNot(a) == b) return E_FALSE;
  } else if (k == K_BOR) {
    if (isC(a)) return a->cv ? E_TRUE : b;
    if (isC(b)) return b->cv ? E_TRUE : a;
    if (a == b) return a;
    if (mkNot(a) == b) return E_TRUE;
  } else {
    if (isC(a)) return a->cv ? mkNot(b) : b;
    if (isC(b)) return b->cv ? mkNot(a) : a;
    if (a == b) return E_FALSE;
    if (a->k == K_NOT && b->k == K_NOT) return mkBBin(K_BXOR, a->a, b->a);
    if (a->k == K_NOT) return mkNot(mkBBin(K_BXOR, a->a, b));
    if (b->k == K_NOT) return mkNot(mkBBin(K_BXOR, a, b->a));
  }
  return intern(k, S_BOOL, 1, a, b, 0, 0);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->cv ? a : b;
  if (a == b) return a;
  if (a->s == S_REAL) return mkRIte(c, a, b);
  if (c->k == K_NOT) return mkIte(c->a, b, a);
  if (a->s == S_BOOL) {
    if (isC(a) && isC(b)) return a->cv ? c : mkNot(c);
    if (isC(a)) return a->cv ? mkBBin(K_BOR, c, b) : mkBBin(K_BAND, mkNot(c), b);
    if (isC(b)) return b->cv ? mkBBin(K_BOR, mkNot(c), a) : mkBBin(K_BAND, c, a);
    return mkBBin(K_BOR, mkBBin(K_BAND, c, a), mkBBin(K_BAND, mkNot(c), b));
  }
  if (a->k == K_ITE && a->a == c) a = a->b;
  if (b->k == K_ITE && b->a == c) b = b->c;
  if (a == b) return a;
  return intern(K_ITE, a->s, a->w, c, a, b, 0);
}

static uint64_t foldBin(Kind k, uint64_t x, uint64_t y, int w, bool& ok) {
  uint64_t m = maskw(w); ok = true;
  switch (k) {
    case K_ADD: return (x + y) & m;
    case K_SUB: return (x - y) & m;
    case K_MUL: return (x * y) & m;
    case K_UDIV: if (!y) { ok = false; return 0; } return x / y;
    case K_UREM: if (!y) { ok = false; return 0; } return x % y;
    case K_SDIV: if (!y || (sx(x, w) == minw(w) && sx(y, w) == -1)) { ok = false; return 0; } return (uint64_t)(sx(x, w) / sx(y, w)) & m;
    case K_SREM: if (!y || (sx(x, w) == minw(w) && sx(y, w) == -1)) { ok = false; return 0; } return (uint64_t)(sx(x, w) % sx(y, w)) & m;
    case K_AND: return x & y;
    case K_OR: return x | y;
    case K_XOR: return x ^ y;
    case K_SHL: return y >= (uint64_t)w ? 0 : (x << y) & m;
    case K_LSHR: return y >= (uint64_t)w ? 0 : x >> y;
    case K_ASHR: return y >= (uint64_t)w ? (sx(x, w) < 0 ? m : 0) : (uint64_t)(sx(x, w) >> y) & m;
    default: ok = false; return 0;
  }
}

Expr* mkExtract(Expr* a, int lo, int w); Expr* mkConcat(Expr* hi, Expr* lo);
// number of low bits known to be zero
static int lowZeros(Expr* e, int depth = 0) {
  if (e->k == K_CONST) return e->cv ? __builtin_ctzll(e->cv) : e->w;
  if (depth > 6) return 0;
  if (e->k == K_SHL && e->b->k == K_CONST) return (int)std::min<uint64_t>(e->w, e->b->cv + lowZeros(e->a, depth + 1));
  if (e->k == K_ADD || e->k == K_SUB || e->k == K_OR) return std::min(lowZeros(e->a, depth + 1), lowZeros(e->b, depth + 1));
  if (e->k == K_CONCAT && e->b->s == S_BV) { int l = lowZeros(e->b, depth + 1); return l < e->b->w ? l : l + lowZeros(e->a, depth + 1); }
  return 0;
}
// e >> c modulo 2^(w-c), for a term whose c low bits are zero
static Expr* shiftDown(Expr* e, int c) {
  int w = e->w;
  if (e->k == K_CONST) return mkConst(e->cv >> c, w - c);
  if (e->k == K_SHL && e->b->k == K_CONST && e->b->cv >= (uint64_t)c) return mkBin(K_SHL, mkExtract(e->a, 0, w - c), mkConst(e->b->cv - c, w - c));
  if ((e->k == K_ADD || e->k == K_SUB) && lowZeros(e->a) >= c && lowZeros(e->b) >= c) return mkBin(e->k, shiftDown(e->a, c), shiftDown(e->b, c));
  return mkExtract(e, c, w - c);
}
Expr* mkBin(Kind k, Expr* a, Expr* b) {
  int w = a->w;
  if (a->s == S_BOOL) {
    switch (k) {
      case K_AND: case K_MUL: return mkBBin(K_BAND, a, b);
      case K_OR: return mkBBin(K_BOR, a, b);
      case K_XOR: case K_ADD: case K_SUB: return mkBBin(K_BXOR, a, b);
      case K_UDIV: case K_SDIV: return a;
      case K_SHL: case K_LSHR: return mkBBin(K_BAND, a, mkNot(b));
      case K_ASHR: return a;
      default: engine_fail("bool op");
    }
  }
  bool ok;
  if (isC(a) && isC(b)) { uint64_t r = foldBin(k, a->cv, b->cv, w, ok); if (ok) return mkConst(r, w); }
  bool comm = k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR;
  if (comm && isC(a)) std::swap(a, b);
  if (k == K_OR && w <= 64) { // disjoint halves: a concatenation
    for (int t = 0; t < 2; t++) {
      Expr *hi = t ? b : a, *lo = t ? a : b; int c = lowZeros(hi);
      if (c > 0 && c < w && lo->smin >= 0 && (unsigned __int128)lo->smax < ((unsigned __int128)1 << c) && (c == 8 || c == 16 || c >= 32)) { if (c > 32) c = 32; if ((unsigned __int128)lo->smax < ((unsigned __int128)1 << c)) return mkConcat(shiftDown(hi, c), mkExtract(lo, 0, c)); }
    }
  }
  if (isC(b)) {
    uint64_t c = b->cv;
    switch (k) {
      case K_ADD:
        if (c == 0) return a;
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->cv + c, w));
        if (a->k == K_SUB && isC(a->a)) return mkBin(K_SUB, mkConst(a->a->cv + c, w), a->b);
        break;
      case K_SUB: if (c == 0) return a; return mkBin(K_ADD, a, mkConst(-c, w));
      case K_MUL:
        if (c == 0) return b;
        if (c == 1) return a;
        if ((c & (c - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(c), w));
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_MUL, a->a, b), mkConst(a->b->cv * c, w));
        break;
      case K_UDIV:
        if (c == 1) return a;
        if (c && (c & (c - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(c), w));
        break;
      case K_SDIV: if (c == 1) return a; if (a->smin >= 0 && sx(c, w) > 0) return mkBin(K_UDIV, a, b); break;
      case K_UREM: if (c == 1) return mkConst(0, w); if (c && (c & (c - 1)) == 0) return mkBin(K_AND, a, mkConst(c - 1, w)); break;
      case K_SREM: if (c == 1) return mkConst(0, w); if (a->smin >= 0 && sx(c, w) > 0) return mkBin(K_UREM, a, b); break;
      case K_AND:
        if (c == 0) return b;
        if (c == maskw(w)) return a;
        if (a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->cv & c, w));
        if (a->smin >= 0 && ((c & (c + 1)) == 0) && (uint64_t)a->smax <= c) return a;
        break;
      case K_OR: if (c == 0) return a; if (c == maskw(w)) return b; break;
      case K_XOR:
        if (c == 0) return a;
        if (a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->cv ^ c, w));
        break;
      case K_SHL:
        if (c == 0) return a;
        if (c >= (uint64_t)w) return mkConst(0, w);
        if (a->k == K_SHL && isC(a->b)) return mkBin(K_SHL, a->a, mkConst(std::min<uint64_t>(a->b->cv + c, w), w));
        if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SHL, a->a, b), mkConst(a->b->cv << c, w));
        break;
      case K_LSHR:
        if (c == 0) return a;
        if (c >= (uint64_t)w) return mkConst(0, w);
        if (a->k == K_SHL && isC(a->b) && a->b->cv == c) { // (x<<c)>>c : x when it fits
          Expr* x = a->a; if (x->smin >= 0 && ((uint64_t)x->smax <= (maskw(w) >> c))) return x;
        }
        break;
      case K_ASHR:
        if (c == 0) return a;
        if (c >= (uint64_t)w) return mkBin(K_ASHR, a, mkConst(w - 1, w));
        if (a->k == K_SHL && isC(a->b) && a->b->cv >= c) { // (x<<d)>>c : x<<(d-c) when no overflow
          Expr* x = a->a; uint64_t d = a->b->cv;
          __int128 lo = (__int128)x->smin << d, hi = (__int128)x->smax << d;
          if (lo >= minw(w) && hi <= maxw(w)) return mkBin(K_SHL, x, mkConst(d - c, w));
        }
        if (a->k == K_ASHR && isC(a->b)) return mkBin(K_ASHR, a->a, mkConst(std::min<uint64_t>(a->b->cv + c, w - 1), w));
        break;
      default: break;
    }
    if (iteConsts(a)) {
      bool o1, o2; uint64_t r1 = foldBin(k, a->b->cv, c, w, o1), r2 = foldBin(k, a->c->cv, c, w, o2);
      if (o1 && o2) return mkIte(a->a, mkConst(r1, w), mkConst(r2, w));
    }
  }
  if (isC(a) && iteConsts(b)) {
    bool o1, o2; uint64_t r1 = foldBin(k, a->cv, b->b->cv, w, o1), r2 = foldBin(k, a->cv, b->c->cv, w, o2);
    if (o1 && o2) return mkIte(b->a, mkConst(r1, w), mkConst(r2, w));
  }
  if (a == b) {
    if (k == K_SUB || k == K_XOR) return mkConst(0, w);
    if (k == K_AND || k == K_OR) return a;
  }
  if (k == K_ADD) {
    // (x - y) + y -> x
    if (a->k == K_SUB && a->b == b) return a->a;
    if (b->k == K_SUB && b->b == a) return b->a;
    // (x+c1)+y -> (x+y)+c1
    if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_ADD, a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_ADD, a, b->a), b->b);
    if (a->k == K_SUB && isC(a->a) && a->a->cv == 0) return mkBin(K_SUB, b, a->b);
    if (b->k == K_SUB && isC(b->a) && b->a->cv == 0) return mkBin(K_SUB, a, b->b);
  }
  if (k == K_SUB) {
    if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->k == K_ADD) { if (b->a == a) return mkBin(K_SUB, mkConst(0, w), b->b); if (b->b == a) return mkBin(K_SUB, mkConst(0, w), b->a); }
    if (a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, mkBin(K_SUB, a->a, b), a->b);
    if (b->k == K_ADD && isC(b->b)) return mkBin(K_ADD, mkBin(K_SUB, a, b->a), mkConst(-b->b->cv, w));
    if (a->k == K_SUB && a->a == b) return mkBin(K_SUB, mkConst(0, w), a->b);
    if (b->k == K_SUB && b->a == a) return b->b;
    if (b->k == K_SUB && isC(b->a) && b->a->cv == 0) return mkBin(K_ADD, a, b->b);
  }
  if (comm && a->id > b->id && !isC(b)) std::swap(a, b);
  return linCanon(intern(k, S_BV, w, a, b, 0, 0));
}

static bool foldCmp(Kind k, uint64_t x, uint64_t y, int w) {
  switch (k) {
    case K_EQ: return x == y;
    case K_ULT: return x < y;
    case K_ULE: return x <= y;
    case K_SLT: return sx(x, w) < sx(y, w);
    default: return sx(x, w) <= sx(y, w);
  }
}
static bool noWrapAddConst(Expr* x, int64_t c) { // x + c does not overflow (signed) for the range of x
  __int128 lo = (__int128)x->smin + c, hi = (__int128)x->smax + c;
  return lo >= minw(x->w) && hi <= maxw(x->w);
}

static Expr* mkCmp0(Kind k, Expr* a, Expr* b);
#ifdef LINCHECK
Expr* mkCmp(Kind k, Expr* a, Expr* b) { Expr* r = mkCmp0(k, a, b); if (a->s == S_BV && a->w <= 64) linCheck(intern(k, S_BOOL, 1, a, b, 0, 0), r); return r; }
#else
Expr* mkCmp(Kind k, Expr* a, Expr* b) { return mkCmp0(k, a, b); }
#endif
static Expr* mkCmp0(Kind k, Expr* a, Expr* b) {
  if (a->s == S_BOOL) {
    switch (k) {
      case K_EQ: return mkNot(mkBBin(K_BXOR, a, b));
      case K_ULT: return mkBBin(K_BAND, mkNot(a), b);
      case K_ULE: return mkBBin(K_BOR, mkNot(a), b);
      case K_SLT: return mkBBin(K_BAND, a, mkNot(b));
      default: return mkBBin(K_BOR, a, mkNot(b));
    }
  }
  if (a->s == S_REAL) engine_fail("integer comparison of real-valued bits");
  int w = a->w;
  if (isC(a) && isC(b)) return mkBool(foldCmp(k, a->cv, b->cv, w));
  if (a == b) return mkBool(k == K_EQ || k == K_ULE || k == K_SLE);
  // unsigned -> signed when both are provably non-negative
  if ((k == K_ULT || k == K_ULE) && a->smin >= 0 && b->smin >= 0) return mkCmp(k == K_ULT ? K_SLT : K_SLE, a, b);
  if (k == K_ULT && isC(b) && b->cv == 0) return E_FALSE;
  if (k == K_ULT && isC(b) && b->cv == 1) return mkCmp(K_EQ, a, mkConst(0, w));
  if (k == K_ULE && isC(a) && a->cv == 0) return E_TRUE;
  if (k == K_ULT || k == K_ULE) {
    // a in [0,amax] known, b known negative as signed (huge unsigned)
    if (a->smin >= 0 && b->smax < 0) return E_TRUE;
    if (a->smax < 0 && b->smin >= 0) return E_FALSE;
  }
  if (w <= 64) {
    if (k == K_SLT) { if (a->smax < b->smin) return E_TRUE; if (a->smin >= b->smax) return E_FALSE; }
    if (k == K_SLE) { if (a->smax <= b->smin) return E_TRUE; if (a->smin > b->smax) return E_FALSE; }
    if (k == K_EQ && (a->smax < b->smin || a->smin > b->smax)) return E_FALSE;
  }
  if (w <= 64 && w > 1 && (k == K_EQ || k == K_SLT || k == K_SLE)) {
    const Lin &la = linOf(a), &lb = linOf(b); Lin D;
    if (linAdd(D, la, lb, -1)) {
      __int128 lo, hi;
      if (D.exact && linRange(D, lo, hi)) {
        if (k == K_SLT) { if (hi < 0) return E_TRUE; if (lo >= 0) return E_FALSE; }
        if (k == K_SLE) { if (hi <= 0) return E_TRUE; if (lo > 0) return E_FALSE; }
        if (k == K_EQ) { if (lo > 0 || hi < 0) return E_FALSE; if (lo == 0 && hi == 0) return E_TRUE; }
        if (k == K_EQ && !D.t.empty()) { int64_t g = 0; for (auto& x : D.t) g = std::__gcd(g, x.second < 0 ? -x.second : x.second); if (g > 1 && D.c % g) return E_FALSE; }
        if (D.t.size() == 1) { // coef*x + c cmp 0
          Expr* x = D.t[0].first; int64_t m = D.t[0].second, c = D.c; int wx = x->w;
          if (!((a == x && isC(b)) || (b == x && isC(a)))) {
            auto fdiv = [](int64_t p, int64_t q) { int64_t r = p / q; return (p % q != 0 && ((p < 0) != (q < 0))) ? r - 1 : r; };
            if (c > I64MIN / 2 && c < I64MAX / 2) {
              if (k == K_EQ) return mkCmp(K_EQ, x, mkConst((uint64_t)(-c / m), wx));
              int64_t cc = k == K_SLT ? c : c - 1; // m*x + cc < 0
              if (m > 0) return mkCmp(K_SLE, x, mkConst((uint64_t)fdiv(-cc - 1, m), wx)); // x <= floor((-cc-1)/m)
              return mkCmp(K_SLE, mkConst((uint64_t)(fdiv(cc, -m) + 1), wx), x);           // (-m)*x > cc
            }
          }
        }
      } else if (k == K_EQ && D.t.empty() && !D.exact) return mkBool(((uint64_t)D.c & maskw(w)) == 0);
    }
  }
  if (k == K_EQ && isC(a)) std::swap(a, b);
  if (isC(b) && iteConsts(a)) return mkIte(a->a, mkBool(foldCmp(k, a->b->cv, b->cv, w)), mkBool(foldCmp(k, a->c->cv, b->cv, w)));
  if (isC(a) && iteConsts(b)) return mkIte(b->a, mkBool(foldCmp(k, a->cv, b->b->cv, w)), mkBool(foldCmp(k, a->cv, b->c->cv, w)));
  // same-source extensions
  if ((a->k == K_SEXT || a->k == K_ZEXT) && b->k == a->k && a->a->w == b->a->w) {
    if (a->k == K_SEXT) return mkCmp(k, a->a, b->a);
    Kind kk = k == K_SLT ? K_ULT : k == K_SLE ? K_ULE : k;
    return mkCmp(kk, a->a, b->a);
  }
  if (isC(b) && (a->k == K_SEXT) ) {
    int64_t v = sx(b->cv, w); int wa = a->a->w;
    if (v >= minw(wa) && v <= maxw(wa) && (k == K_SLT || k == K_SLE || k == K_EQ)) return mkCmp(k, a->a, mkConst(v, wa));
  }
  if (isC(a) && (b->k == K_SEXT) ) {
    int64_t v = sx(a->cv, w); int wb = b->a->w;
    if (v >= minw(wb) && v <= maxw(wb) && (k == K_SLT || k == K_SLE || k == K_EQ)) return mkCmp(k, mkConst(v, wb), b->a);
  }
  if (isC(b) && a->k == K_ZEXT && b->cv <= maskw(a->a->w) && (k == K_EQ)) return mkCmp(k, a->a, mkConst(b->cv, a->a->w));
  // x + c (no wrap) cmp const
  if (k == K_EQ && a->k == K_ADD && isC(a->b) && isC(b)) return mkCmp(K_EQ, a->a, mkConst(b->cv - a->b->cv, w));
  if ((k == K_SLT || k == K_SLE) && a->k == K_ADD && isC(a->b) && isC(b) && noWrapAddConst(a->a, sx(a->b->cv, w))) {
    __int128 r = (__int128)sx(b->cv, w) - sx(a->b->cv, w);
    if (r >= minw(w) && r <= maxw(w)) return mkCmp(k, a->a, mkConst((uint64_t)(int64_t)r, w));
  }
  if ((k == K_SLT || k == K_SLE) && b->k == K_ADD && isC(b->b) && isC(a) && noWrapAddConst(b->a, sx(b->b->cv, w))) {
    __int128 r = (__int128)sx(a->cv, w) - sx(b->b->cv, w);
    if (r >= minw(w) && r <= maxw(w)) return mkCmp(k, mkConst((uint64_t)(int64_t)r, w), b->a);
  }
  // x + c1 cmp y + c2, no wraps
  if (a->k == K_ADD && isC(a->b) && b->k == K_ADD && isC(b->b)) {
    if (k == K_EQ) return mkCmp(K_EQ, mkBin(K_ADD, a->a, mkConst(a->b->cv - b->b->cv, w)), b->a);
    if ((k == K_SLT || k == K_SLE) && noWrapAddConst(a->a, sx(a->b->cv, w)) && noWrapAddConst(b->a, sx(b->b->cv, w))) {
      int64_t d = sx(a->b->cv, w) - sx(b->b->cv, w);
      if (noWrapAddConst(a->a, d)) { Expr* na = mkBin(K_ADD, a->a, mkConst(d, w)); if (!(na == a)) return mkCmp(k, na, b->a); }
    }
  }
  if (k == K_EQ && a->id > b->id && !isC(b)) std::swap(a, b);
  return intern(k, S_BOOL, 1, a, b, 0, 0);
}

Expr* mkBoolToBV(Expr* b, int w, bool sext) {
  if (w == 1) return b;
  return mkIte(b, mkConst(sext ? ~0ull : 1, w), mkConst(0, w));
}
Expr* mkExtract(Expr* a, int lo, int w) {
  if (a->s == S_REAL) { if (lo == 0 && w == 64) return a; engine_fail("partial extraction of a symbolic double"); }
  if (a->s == S_BOOL) return a;
  if (lo == 0 && w == a->w) return a;
  if (a->k == K_CONST) { Expr* c = mkConst(a->cv >> lo, w); return w == 1 ? mkBool(c->cv) : c; }
  if (a->k == K_EXTRACT) return mkExtract(a->a, lo + (int)a->cv, w);
  if (a->k == K_CONCAT) {
    int wl = a->b->w; if (a->b->s == S_REAL) wl = 64;
    if (lo + w <= wl) return mkExtract(a->b, lo, w);
    if (lo >= wl) return mkExtract(a->a, lo - wl, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - wl), mkExtract(a->b, lo, wl - lo));
  }
  if (a->k == K_ZEXT) {
    int wi = a->a->w;
    if (lo + w <= wi) return mkExtract(a->a, lo, w);
    if (lo >= wi) return w == 1 ? E_FALSE : mkConst(0, w);
    if (lo == 0) return mkZExt(a->a, w);
  }
  if (a->k == K_SEXT) {
    int wi = a->a->w;
    if (lo + w <= wi) return mkExtract(a->a, lo, w);
    if (lo == 0) return mkSExt(a->a, w);
  }
  if (a->k == K_ITE && a->w <= 64) {
    if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
  }
  if (lo == 0 && w > 1 && (a->k == K_ADD || a->k == K_SUB || a->k == K_MUL || a->k == K_AND || a->k == K_OR || a->k == K_XOR))
    return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
  if (lo == 0 && w > 1 && a->k == K_SHL && isC(a->b)) return mkBin(K_SHL, mkExtract(a->a, 0, w), mkConst(std::min<uint64_t>(a->b->cv, w), w));
  if (w == 1) { // bit test as boolean
    if (a->k == K_AND && isC(a->b)) return ((a->b->cv >> lo) & 1) ? mkExtract(a->a, lo, 1) : E_FALSE;
    return mkCmp(K_EQ, intern(K_EXTRACT, S_BV, 1, a, 0, 0, lo), intern(K_CONST, S_BV, 1, 0, 0, 0, 1));
  }
  return linCanon(intern(K_EXTRACT, S_BV, w, a, 0, 0, lo));
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  if (hi->s == S_REAL || lo->s == S_REAL || hi->s == S_BOOL || lo->s == S_BOOL) engine_fail("concatenation of a symbolic double");
  int w = hi->w + lo->w;
  if (isC(hi) && isC(lo) && w <= 64) return mkConst((hi->cv << lo->w) | lo->cv, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->cv == lo->cv + lo->w) return mkExtract(hi->a, (int)lo->cv, w);
  if (isC(hi) && hi->cv == 0 && w <= 64) return mkZExt(lo, w);
  if (w > 64) return intern(K_CONCAT, S_BV, w, hi, lo, 0, 0);
  return intern(K_CONCAT, S_BV, w, hi, lo, 0, 0);
}
Expr* mkZExt(Expr* a, int w) {
  if (a->s == S_BOOL) return mkBoolToBV(a, w, false);
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->cv, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (iteConsts(a)) return mkIte(a->a, mkConst(a->b->cv, w), mkConst(a->c->cv, w));
  if (a->smin >= 0) return mkSExt(a, w); // canonical form for non-negative values
  return intern(K_ZEXT, S_BV, w, a, 0, 0, 0);
}
Expr* mkSExt(Expr* a, int w) {
  if (a->s == S_BOOL) return mkBoolToBV(a, w, true);
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sx(a->cv, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (iteConsts(a)) return mkIte(a->a, mkConst((uint64_t)sx(a->b->cv, a->w), w), mkConst((uint64_t)sx(a->c->cv, a->w), w));
  if (a->k == K_ADD && isC(a->b) && noWrapAddConst(a->a, sx(a->b->cv, a->w)))
    return mkBin(K_ADD, mkSExt(a->a, w), mkConst((uint64_t)sx(a->b->cv, a->w), w));
  if ((a->k == K_ADD || a->k == K_SUB)) {
    Expr *x = a->a, *y = a->b; __int128 lo, hi;
    if (a->k == K_ADD) { lo = (__int128)x->smin + y->smin; hi = (__int128)x->smax + y->smax; }
    else { lo = (__int128)x->smin - y->smax; hi = (__int128)x->smax - y->smin; }
    if (lo >= minw(a->w) && hi <= maxw(a->w)) return mkBin(a->k, mkSExt(x, w), mkSExt(y, w));
  }
  if (a->k == K_SHL && isC(a->b)) {
    __int128 lo = (__int128)a->a->smin << a->b->cv, hi = (__int128)a->a->smax << a->b->cv;
    if (lo >= minw(a->w) && hi <= maxw(a->w)) return mkBin(K_SHL, mkSExt(a->a, w), mkConst(a->b->cv, w));
  }
  return linCanon(intern(K_SEXT, S_BV, w, a, 0, 0, 0));
}
Expr* mkBVToBool(Expr* a) { return a; }

// ---------------------------------------------------------------- reals
struct Mono { std::vector<Expr*> f; Expr* lit = nullptr; int q; double B; void* z = nullptr; uint32_t gen = 0; mpq_class ev; };
static std::vector<Mono> monos;
static std::map<std::vector<uint32_t>, uint32_t> monoTab;
struct AtomInfo { int q; double B; };
static std::unordered_map<Expr*, AtomInfo> atomInfo;
static std::unordered_map<std::string, std::vector<Expr*>> polyTab;
static std::map<std::string, uint32_t> ufNames; static std::vector<std::string> ufNameList;
static const int QBAD = -100000;

static uint32_t monoOf(std::vector<Expr*> f) {
  if (monos.empty()) { Mono m; m.q = 0; m.B = 1; monos.push_back(m); monoTab[{}] = 0; }
  std::sort(f.begin(), f.end(), [](Expr* x, Expr* y) { return x->id < y->id; });
  std::vector<uint32_t> key; for (auto x : f) key.push_back(x->id);
  auto it = monoTab.find(key); if (it != monoTab.end()) return it->second;
  Mono m; m.f = f; m.q = 0; m.B = 1;
  for (auto x : f) { auto& ai = atomInfo[x]; if (ai.q == QBAD || m.q == QBAD) m.q = QBAD; else m.q += ai.q; m.B *= ai.B; }
  monos.push_back(m); monoTab[key] = monos.size() - 1; return monos.size() - 1;
}
static Expr* mkPoly(Poly&& p) {
  std::string key; 
  for (auto& t : p.t) { key += std::to_string(t.first); key += ':'; key += t.second.get_str(16); key += ';'; }
  auto& v = polyTab[key];
  if (!v.empty()) return v[0];
  Expr* e = (Expr*)aligned_alloc(16, (sizeof(Expr) + 15) & ~15ull);
  memset((void*)e, 0, sizeof(Expr));
  e->k = K_POLY; e->s = S_REAL; e->w = 64; e->id = nextId++; e->p = new Poly(std::move(p));
  for (auto& t : e->p->t) for (auto f : monos[t.first].f) e->undef |= f->undef;
  v.push_back(e); return e;
}
static Expr* atomPoly(Expr* atom) { Poly p; p.t.push_back({monoOf({atom}), mpq_class(1)}); return mkPoly(std::move(p)); }
static Expr* mkAtom(Kind k, Expr* a, Expr* b, Expr* c, uint64_t cv, int q, double B) {
  Expr* e = intern(k, S_REAL, 64, a, b, c, cv);
  if (!atomInfo.count(e)) atomInfo[e] = {q, B};
  return atomPoly(e);
}
Expr* mkRealConstQ(const mpq_class& q) { monoOf({}); Poly p; if (q != 0) p.t.push_back({0, q}); return mkPoly(std::move(p)); }
Expr* mkRealConst(double d) { if (!std::isfinite(d)) engine_fail("non-finite double combined with a symbolic value"); return mkRealConstQ(mpq_class(d)); }
Expr* mkRealVar(const std::string& name, int bits) {
  Expr* e = intern(K_RVAR, S_REAL, 64, 0, 0, 0, vars.size());
  atomInfo[e] = {0, std::ldexp(1.0, bits)};
  vars.push_back({e, name, S_REAL, 64, -(int64_t)(1ll << bits), (int64_t)(1ll << bits), false, true});
  model_extend(0);
  Expr* r = atomPoly(e);
  return r;
}
static Expr* lin(Expr* a, Expr* b, int sgn) {
  Poly p; auto &x = a->p->t, &y = b->p->t; size_t i = 0, j = 0; p.t.reserve(x.size() + y.size());
  while (i < x.size() || j < y.size()) {
    if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) p.t.push_back(x[i++]);
    else if (i >= x.size() || y[j].first < x[i].first) { p.t.push_back({y[j].first, sgn > 0 ? y[j].second : mpq_class(-y[j].second)}); j++; }
    else { mpq_class s = sgn > 0 ? mpq_class(x[i].second + y[j].second) : mpq_class(x[i].second - y[j].second); if (s != 0) p.t.push_back({x[i].first, s}); i++; j++; }
  }
  return mkPoly(std::move(p));
}
Expr* mkRAdd(Expr* a, Expr* b) { return lin(a, b, 1); }
Expr* mkRSub(Expr* a, Expr* b) { return lin(a, b, -1); }
Expr* mkRNeg(Expr* a) { Poly p; for (auto& t : a->p->t) p.t.push_back({t.first, -t.second}); return mkPoly(std::move(p)); }
static Expr* scale(Expr* a, const mpq_class& q) { Poly p; if (q != 0) for (auto& t : a->p->t) p.t.push_back({t.first, t.second * q}); return mkPoly(std::move(p)); }
bool realConstQ(Expr* e, mpq_class& q) {
  if (e->s != S_REAL || e->k != K_POLY) return false;
  if (e->p->t.empty()) { q = 0; return true; }
  if (e->p->t.size() == 1 && e->p->t[0].first == 0) { q = e->p->t[0].second; return true; }
  return false;
}
bool realConst(Expr* e, double& d) { mpq_class q; if (!realConstQ(e, q)) return false; d = q.get_d(); return mpq_class(d) == q; }
Expr* mkRMul(Expr* a, Expr* b) {
  mpq_class q;
  if (realConstQ(a, q)) return scale(b, q);
  if (realConstQ(b, q)) return scale(a, q);
  std::map<uint32_t, mpq_class> m;
  if (a->p->t.size() * b->p->t.size() > 20000) engine_fail("polynomial too large");
  for (auto& x : a->p->t) for (auto& y : b->p->t) {
    std::vector<Expr*> f = monos[x.first].f; f.insert(f.end(), monos[y.first].f.begin(), monos[y.first].f.end());
    if (f.size() > 24) engine_fail("polynomial degree too large");
    m[monoOf(f)] += x.second * y.second;
  }
  Poly p; for (auto& t : m) if (t.second != 0) p.t.push_back(t);
  return mkPoly(std::move(p));
}
Expr* mkRDiv(Expr* a, Expr* b) {
  mpq_class q;
  if (realConstQ(b, q)) { if (q == 0) engine_fail("division of a symbolic double by zero"); return scale(a, 1 / q); }
  if (a == b) return mkRealConstQ(1);
  return mkAtom(K_RDIV, a, b, 0, 0, QBAD, 1e300);
}
static int expo2(const mpq_class& q) { // q = odd * 2^e for dyadic q, else QBAD
  mpz_class d = q.get_den(); 
  if (mpz_popcount(d.get_mpz_t()) != 1) return QBAD;
  long e = -(long)(mpz_sizeinbase(d.get_mpz_t(), 2) - 1);
  mpz_class n = q.get_num(); if (n == 0) return 0;
  e += (long)mpz_scan1(n.get_mpz_t(), 0); return (int)e;
}
static void polyQB(Expr* e, int& q, double& B) {
  q = 100000; B = 0;
  for (auto& t : e->p->t) {
    int c = expo2(t.second); auto& m = monos[t.first];
    if (c == QBAD || m.q == QBAD) q = QBAD; else if (q != QBAD) q = std::min(q, c + m.q);
    B += std::fabs(t.second.get_d()) * m.B;
  }
  if (q == 100000) q = 0;
}
double realBound(Expr* e) { int q; double B; polyQB(e, q, B); return B; }
bool realExact(Expr* e) { int q; double B; polyQB(e, q, B); if (q == QBAD || q < -1000) return false; return B * (1 + 1e-9) <= std::ldexp(1.0, 53 + q); }
Expr* mkRIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->cv ? a : b;
  if (a == b) return a;
  int q1, q2; double B1, B2; polyQB(a, q1, B1); polyQB(b, q2, B2);
  return mkAtom(K_RITE, c, a, b, 0, (q1 == QBAD || q2 == QBAD) ? QBAD : std::min(q1, q2), std::max(B1, B2));
}
Expr* mkRCmp(Kind k, Expr* a, Expr* b) {
  Expr* d = mkRSub(a, b); mpq_class q;
  if (realConstQ(d, q)) return mkBool(k == K_RLT0 ? q < 0 : k == K_RLE0 ? q <= 0 : q == 0);
  // normalise the leading coefficient to +-1 (keeps the atom set small)
  mpq_class l = d->p->t.back().second; if (l < 0 && k != K_REQ0) l = -l;
  d = scale(d, 1 / l);
  // range decision
  double B = 0; mpq_class c0 = 0;
  for (auto& t : d->p->t) { if (t.first == 0) c0 = t.second; else B += std::fabs(t.second.get_d()) * monos[t.first].B; }
  B *= 1 + 1e-9; double c = c0.get_d();
  if (c > B * (1 + 1e-9) && B < 1e200) return E_FALSE;
  if (c < -B * (1 + 1e-9) && B < 1e200) return mkBool(k != K_REQ0);
  return intern(k, S_BOOL, 1, d, 0, 0, 0);
}
Expr* mkRFromInt(Expr* bv, bool sgn) {
  if (bv->s == S_BOOL) bv = mkBoolToBV(bv, 32, sgn);
  if (!sgn) bv = mkZExt(bv, 64);
  if (isC(bv)) return mkRealConstQ(mpq_class((long)sx(bv->cv, bv->w)));
  // push linear structure through when it cannot wrap
  if (bv->k == K_ADD || bv->k == K_SUB) {
    Expr *x = bv->a, *y = bv->b; __int128 lo, hi;
    if (bv->k == K_ADD) { lo = (__int128)x->smin + y->smin; hi = (__int128)x->smax + y->smax; } else { lo = (__int128)x->smin - y->smax; hi = (__int128)x->smax - y->smin; }
    if (lo >= minw(bv->w) && hi <= maxw(bv->w)) return lin(mkRFromInt(x, true), mkRFromInt(y, true), bv->k == K_ADD ? 1 : -1);
  }
  if (bv->k == K_SHL && isC(bv->b)) {
    __int128 lo = (__int128)bv->a->smin << bv->b->cv, hi = (__int128)bv->a->smax << bv->b->cv;
    if (lo >= minw(bv->w) && hi <= maxw(bv->w)) return scale(mkRFromInt(bv->a, true), mpq_class(mpz_class(1) << bv->b->cv));
  }
  if (bv->k == K_MUL && isC(bv->b)) {
    __int128 f = sx(bv->b->cv, bv->w), l1 = (__int128)bv->a->smin * f, h1 = (__int128)bv->a->smax * f; if (l1 > h1) std::swap(l1, h1);
    if (l1 >= minw(bv->w) && h1 <= maxw(bv->w)) return scale(mkRFromInt(bv->a, true), mpq_class((long)sx(bv->b->cv, bv->w)));
  }
  if (bv->k == K_SEXT) return mkRFromInt(bv->a, true);
  if (bv->k == K_ITE) return mkRIte(bv->a, mkRFromInt(bv->b, true), mkRFromInt(bv->c, true));
  double B = std::max(std::fabs((double)bv->smin), std::fabs((double)bv->smax));
  return mkAtom(K_RFROMINT, bv, 0, 0, 0, 0, B);
}
Expr* mkRFloor(Expr* r) {
  int q; double B; polyQB(r, q, B);
  if (q != QBAD && q >= 0) return r;
  return mkAtom(K_RFLOOR, r, 0, 0, 0, 0, B + 1);
}
Expr* mkRToInt(Expr* r, int w) {
  if (r->k == K_POLY && r->p->t.size() == 1 && r->p->t[0].second == 1 && monos[r->p->t[0].first].f.size() == 1) {
    Expr* at = monos[r->p->t[0].first].f[0];
    if (at->k == K_RFROMINT) { Expr* b = at->a; if (b->w == w) return b; if (b->w < w) return mkSExt(b, w); return mkExtract(b, 0, w); }
  }
  Expr* e = intern(K_RTOINT, S_BV, w, r, 0, 0, 0);
  double B = realBound(r) + 1; if (B < 4e18) { int64_t b = (int64_t)B; if (-b >= minw(w) && b <= maxw(w)) { e->smin = -b; e->smax = b; } }
  return e;
}
extern bool anyUF;
Expr* mkRUF(const std::string& name, Expr* a, Expr* b) {
  anyUF = true;
  auto it = ufNames.find(name); uint32_t id;
  if (it == ufNames.end()) { id = ufNameList.size(); ufNames[name] = id; ufNameList.push_back(name); } else id = it->second;
  return mkAtom(K_RUF, a, b, 0, id, QBAD, 1e300);
}

// ---------------------------------------------------------------- z3
static Z3_context ctx; static Z3_solver slv; static bool z3up = false;
static Z3_sort sInt, sReal;
static std::vector<std::pair<Expr*, std::vector<uint64_t>>> dummy;
static std::unordered_map<Expr*, int> knownMap;
static void z3err(Z3_context c, Z3_error_code e) { engine_fail(std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
static void z3init() {
  if (z3up) return; z3up = true;
  if (const char* zp = getenv("SYMIR_Z3P")) { std::string q = zp; size_t i = 0; while (i < q.size()) { size_t j = q.find(',', i); if (j == std::string::npos) j = q.size(); std::string kv = q.substr(i, j - i); size_t e = kv.find('='); Z3_global_param_set(kv.substr(0, e).c_str(), kv.substr(e + 1).c_str()); i = j + 1; } }
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg); Z3_del_config(cfg); Z3_set_error_handler(ctx, z3err);
  sInt = Z3_mk_int_sort(ctx); sReal = Z3_mk_real_sort(ctx);
  slv = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, slv);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  const char* rl = getenv("SYMIR_RLIMIT");
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rl ? atoi(rl) : 6000000);
  Z3_solver_set_params(ctx, slv, p);
}
struct NeedBV {};
static bool intMode = true; static uint32_t zgen = 1; static std::vector<Expr*> pend; static std::vector<Expr*> pcList;
uint64_t bvFallbacks = 0, escalations = 0;
static Z3_ast tz(Expr* e);
static Z3_ast ratz(const mpq_class& q) { return Z3_mk_numeral(ctx, q.get_str().c_str(), sReal); }
static Z3_ast monoz(uint32_t id) {
  Mono& m = monos[id]; if (m.z && m.gen == zgen) return (Z3_ast)m.z;
  std::vector<Z3_ast> v; for (auto f : monos[id].f) v.push_back(tz(f));
  Z3_ast r = v.size() == 1 ? v[0] : Z3_mk_mul(ctx, v.size(), v.data());
  monos[id].z = r; monos[id].gen = zgen; return r;
}
// Integer encoding of a bit-vector term: used only when the range analysis shows the machine operation cannot wrap,
// in which case the mathematical and the machine value coincide. Otherwise NeedBV switches the whole path to bit-vectors.
static Z3_ast inum(int64_t v) { return Z3_mk_int64(ctx, v, sInt); }
static Z3_ast ibig(__int128 v) { // numerals beyond 64 bits
  if (v >= INT64_MIN && v <= INT64_MAX) return inum((int64_t)v);
  bool neg = v < 0; unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v; std::string d; while (u) { d.insert(d.begin(), char('0' + (int)(u % 10))); u /= 10; }
  return Z3_mk_numeral(ctx, ((neg ? "-" : "") + d).c_str(), sInt);
}
// signed w-bit value of the mathematical integer x known to lie in [lo,hi]
static Z3_ast iwrap(Z3_ast x, __int128 lo, __int128 hi, int w) {
  __int128 mn = minw(w), mx = maxw(w), m = (__int128)1 << w;
  if (lo >= mn && hi <= mx) return x;
  if (lo >= mn - m && hi <= mx + m) {
    Z3_ast r = x;
    if (hi > mx) { Z3_ast t[2] = {x, ibig(m)}; r = Z3_mk_ite(ctx, Z3_mk_gt(ctx, x, ibig(mx)), Z3_mk_sub(ctx, 2, t), r); }
    if (lo < mn) { Z3_ast t[2] = {x, ibig(m)}; r = Z3_mk_ite(ctx, Z3_mk_lt(ctx, x, ibig(mn)), Z3_mk_add(ctx, 2, t), r); }
    return r;
  }
  Z3_ast t[2] = {x, ibig(-mn)}; Z3_ast q = Z3_mk_mod(ctx, Z3_mk_add(ctx, 2, t), ibig(m)); Z3_ast u[2] = {q, ibig(-mn)};
  return Z3_mk_sub(ctx, 2, u);
}
// unsigned value of a term given its signed value
static Z3_ast iuns(Expr* a) {
  Z3_ast x = tz(a); if (a->smin >= 0) return x;
  Z3_ast t[2] = {x, ibig((__int128)1 << a->w)}; Z3_ast y = Z3_mk_add(ctx, 2, t);
  if (a->smax < 0) return y;
  return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, inum(0)), x, y);
}
static const char* bvWhy = ""; 
static NeedBV needBV(const char* why, Expr* e) { bvWhy = why; if (getenv("SYMIR_BVTRACE")) fprintf(stderr, "NEEDBV %s kind=%d w=%d\n", why, (int)e->k, e->w); return NeedBV{}; }
static Z3_ast tzi(Expr* e) {
  Expr *a = e->a, *b = e->b; int w = e->w;
  if (w > 64) throw needBV("wide", e);
  switch (e->k) {
    case K_CONST: return inum(sx(e->cv, w));
    case K_VAR: { pend.push_back(e); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->cv)).c_str()), sInt); }
    case K_ADD: { Z3_ast x[2] = {tz(a), tz(b)}; return iwrap(Z3_mk_add(ctx, 2, x), (__int128)a->smin + b->smin, (__int128)a->smax + b->smax, w); }
    case K_SUB: { Z3_ast x[2] = {tz(a), tz(b)}; return iwrap(Z3_mk_sub(ctx, 2, x), (__int128)a->smin - b->smax, (__int128)a->smax - b->smin, w); }
    case K_MUL: {
      if (!isC(b)) {
        if (isC(a)) std::swap(a, b);
        else { __int128 p[4] = {(__int128)a->smin * b->smin, (__int128)a->smin * b->smax, (__int128)a->smax * b->smin, (__int128)a->smax * b->smax};
          __int128 l = *std::min_element(p, p + 4), h = *std::max_element(p, p + 4); if (l < minw(w) || h > maxw(w)) throw needBV("mul", e);
          Z3_ast x[2] = {tz(a), tz(b)}; return Z3_mk_mul(ctx, 2, x); }
      }
      __int128 f = sx(b->cv, w), l = a->smin * f, h = a->smax * f; if (l > h) std::swap(l, h);
      Z3_ast x[2] = {tz(a), inum((int64_t)f)}; return iwrap(Z3_mk_mul(ctx, 2, x), l, h, w); }
    case K_SHL: {
      if (!isC(b) || b->cv >= 62) throw needBV("shl", e);
      Z3_ast x[2] = {tz(a), inum(1ll << b->cv)}; return iwrap(Z3_mk_mul(ctx, 2, x), (__int128)a->smin << b->cv, (__int128)a->smax << b->cv, w); }
    case K_LSHR: if (!isC(b) || b->cv >= 62) throw needBV("lshr", e); { Z3_ast q = Z3_mk_div(ctx, iuns(a), inum(1ll << b->cv)); return b->cv ? q : tz(a); }
    case K_ASHR: if (!isC(b) || b->cv >= 62) throw needBV("ashr", e); return Z3_mk_div(ctx, tz(a), inum(1ll << b->cv));
    case K_AND:
      if (isC(b) && !(b->cv & (b->cv + 1)) && b->cv <= (1ull << 61)) return Z3_mk_mod(ctx, tz(a), inum((int64_t)b->cv + 1));
      if (isC(b)) { uint64_t c = ~b->cv & maskw(w); if (!(c & (c + 1)) && c < (1ull << 61)) { Z3_ast x = tz(a); Z3_ast t[2] = {x, Z3_mk_mod(ctx, x, inum((int64_t)c + 1))}; return Z3_mk_sub(ctx, 2, t); } } // clears the low bits
      if (isC(b) && b->cv && !(b->cv & (b->cv - 1)) && b->cv < (1ull << 61)) { int64_t p = (int64_t)b->cv; Z3_ast x = Z3_mk_mod(ctx, tz(a), inum(2 * p)); return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, inum(p)), inum(p), inum(0)); } // one bit
      if (a->smin >= 0 && a->smax <= 1 && b->smin >= 0 && b->smax <= 1) { Z3_ast c = Z3_mk_eq(ctx, tz(a), inum(1)); return Z3_mk_ite(ctx, c, tz(b), inum(0)); }
      throw needBV("and", e);
    case K_OR:
      if (a->smin >= 0 && a->smax <= 1 && b->smin >= 0 && b->smax <= 1) { Z3_ast c = Z3_mk_eq(ctx, tz(a), inum(1)); return Z3_mk_ite(ctx, c, inum(1), tz(b)); }
      if (isC(b) && b->cv && !(b->cv & (b->cv - 1)) && b->cv < (1ull << 61)) { int64_t p = (int64_t)b->cv; Z3_ast y = tz(a); Z3_ast x = Z3_mk_mod(ctx, y, inum(2 * p)); Z3_ast t[2] = {y, inum(p)}; return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, inum(p)), y, Z3_mk_add(ctx, 2, t)); }
      throw needBV("or", e);
    case K_XOR: if (isC(b) && b->cv == maskw(w)) { Z3_ast x[2] = {inum(-1), tz(a)}; return Z3_mk_sub(ctx, 2, x); }
      if (isC(b) && b->cv == 1 && w > 1) { Z3_ast y = tz(a); Z3_ast t[2] = {y, inum(1)}; return Z3_mk_ite(ctx, Z3_mk_eq(ctx, Z3_mk_mod(ctx, y, inum(2)), inum(0)), Z3_mk_add(ctx, 2, t), Z3_mk_sub(ctx, 2, t)); }
      throw needBV("xor", e);
    case K_UDIV: if (!isC(b) || b->smin <= 0) throw needBV("udiv", e); return b->cv == 1 ? tz(a) : Z3_mk_div(ctx, iuns(a), tz(b));
    case K_UREM: if (!isC(b) || b->smin <= 0) throw needBV("urem", e); return Z3_mk_mod(ctx, iuns(a), tz(b));
    case K_SDIV: {
      if (!isC(b) || b->smin <= 0) throw needBV("sdiv", e);
      Z3_ast x = tz(a), n = Z3_mk_unary_minus(ctx, x);
      return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, inum(0)), Z3_mk_div(ctx, x, tz(b)), Z3_mk_unary_minus(ctx, Z3_mk_div(ctx, n, tz(b)))); }
    case K_SREM: {
      if (!isC(b) || b->smin <= 0) throw needBV("srem", e);
      Z3_ast x = tz(a), n = Z3_mk_unary_minus(ctx, x);
      return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, inum(0)), Z3_mk_mod(ctx, x, tz(b)), Z3_mk_unary_minus(ctx, Z3_mk_mod(ctx, n, tz(b)))); }
    case K_SEXT: return tz(a);
    case K_ZEXT: return iuns(a);
    case K_EXTRACT: {
      if (a->w > 64) throw needBV("extract", e);
      if (e->cv == 0) return iwrap(tz(a), a->smin, a->smax, w);
      if (e->cv >= 62) throw needBV("extract", e);
      Z3_ast q = Z3_mk_div(ctx, tz(a), inum(1ll << e->cv)); return iwrap(q, a->smin >> e->cv, a->smax >> e->cv, w); }
    case K_CONCAT: { if (a->s != S_BV || b->s != S_BV) throw needBV("concat", e); Z3_ast m[2] = {tz(a), ibig((__int128)1 << b->w)}; Z3_ast t[2] = {Z3_mk_mul(ctx, 2, m), iuns(b)}; return Z3_mk_add(ctx, 2, t); }
    case K_ITE: return Z3_mk_ite(ctx, tz(a), tz(b), tz(e->c));
    case K_RTOINT: {
      double B = realBound(a) + 1; if (!(B < 4e18)) throw needBV("rtoint", e); if (-(__int128)B < minw(w) || (__int128)B > maxw(w)) throw needBV("rtoint", e);
      Z3_ast x = tz(a), neg = Z3_mk_unary_minus(ctx, x);
      return Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, ratz(0)), Z3_mk_real2int(ctx, x), Z3_mk_unary_minus(ctx, Z3_mk_real2int(ctx, neg))); }
    default: throw needBV("other", e);
  }
}
static Z3_ast tz(Expr* e) {
  if (e->z && e->zg == zgen) return (Z3_ast)e->z;
  z3init(); Z3_ast r = nullptr;
  if (intMode && e->s == S_BV) { r = tzi(e); e->z = r; e->zg = zgen; return r; }
  if (intMode) {
    bool done = true;
    switch (e->k) {
      case K_ULT: case K_ULE: {
        Expr *a = e->a, *b = e->b;
        if (b->smin < 0) { Z3_ast x = iuns(a), y = iuns(b); r = e->k == K_ULT ? Z3_mk_lt(ctx, x, y) : Z3_mk_le(ctx, x, y); break; }
        Z3_ast x = tz(a), y = tz(b); Z3_ast c = e->k == K_ULT ? Z3_mk_lt(ctx, x, y) : Z3_mk_le(ctx, x, y); Z3_ast n[2] = {Z3_mk_ge(ctx, x, inum(0)), c}; r = Z3_mk_and(ctx, 2, n); break; }
      case K_SLT: r = Z3_mk_lt(ctx, tz(e->a), tz(e->b)); break;
      case K_SLE: r = Z3_mk_le(ctx, tz(e->a), tz(e->b)); break;
      case K_RFROMINT: r = Z3_mk_int2real(ctx, tz(e->a)); break;
      default: done = false;
    }
    if (done) { e->z = r; e->zg = zgen; return r; }
  }
  auto A = [&]() { return tz(e->a); }; auto B = [&]() { return tz(e->b); }; auto C = [&]() { return tz(e->c); };
  switch (e->k) {
    case K_CONST:
      if (e->s == S_BOOL) r = e->cv ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      else r = Z3_mk_unsigned_int64(ctx, e->cv, Z3_mk_bv_sort(ctx, e->w));
      break;
    case K_VAR: {
      std::string n = "v" + std::to_string(e->cv);
      if (e->s != S_BOOL) pend.push_back(e);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), e->s == S_BOOL ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break;
    }
    case K_RVAR: { pend.push_back(e); std::string n = "r" + std::to_string(e->cv); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), sReal); break; }
    case K_ADD: r = Z3_mk_bvadd(ctx, A(), B()); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, A(), B()); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, A(), B()); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, A(), B()); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, A(), B()); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, A(), B()); break;
    case K_AND: r = Z3_mk_bvand(ctx, A(), B()); break;
    case K_OR: r = Z3_mk_bvor(ctx, A(), B()); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, A(), B()); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, A(), B()); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, A(), B()); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, A(), B()); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, A(), B()); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)e->cv + e->w - 1, (unsigned)e->cv, A()); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, A()); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, A()); break;
    case K_ITE: r = Z3_mk_ite(ctx, A(), B(), C()); break;
    case K_RITE: r = Z3_mk_ite(ctx, A(), B(), C()); break;
    case K_EQ: r = Z3_mk_eq(ctx, A(), B()); break;
    case K_ULT: r = Z3_mk_bvult(ctx, A(), B()); break;
    case K_ULE: r = Z3_mk_bvule(ctx, A(), B()); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, A(), B()); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, A(), B()); break;
    case K_NOT: r = Z3_mk_not(ctx, A()); break;
    case K_BAND: { Z3_ast x[2] = {A(), B()}; r = Z3_mk_and(ctx, 2, x); break; }
    case K_BOR: { Z3_ast x[2] = {A(), B()}; r = Z3_mk_or(ctx, 2, x); break; }
    case K_BXOR: r = Z3_mk_xor(ctx, A(), B()); break;
    case K_RLT0: r = Z3_mk_lt(ctx, A(), ratz(0)); break;
    case K_RLE0: r = Z3_mk_le(ctx, A(), ratz(0)); break;
    case K_REQ0: r = Z3_mk_eq(ctx, A(), ratz(0)); break;
    case K_POLY: {
      std::vector<Z3_ast> v;
      for (auto& t : e->p->t) { if (t.first == 0) v.push_back(ratz(t.second)); else if (t.second == 1) v.push_back(monoz(t.first)); else { Z3_ast x[2] = {ratz(t.second), monoz(t.first)}; v.push_back(Z3_mk_mul(ctx, 2, x)); } }
      r = v.empty() ? ratz(0) : v.size() == 1 ? v[0] : Z3_mk_add(ctx, v.size(), v.data()); break;
    }
    case K_RFROMINT: r = Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, A(), true)); break;
    case K_RDIV: r = Z3_mk_div(ctx, A(), B()); break;
    case K_RFLOOR: r = Z3_mk_int2real(ctx, Z3_mk_real2int(ctx, A())); break;
    case K_RTOINT: {
      Z3_ast x = A(); Z3_ast neg = Z3_mk_unary_minus(ctx, x);
      Z3_ast t = Z3_mk_ite(ctx, Z3_mk_ge(ctx, x, ratz(0)), Z3_mk_real2int(ctx, x), Z3_mk_unary_minus(ctx, Z3_mk_real2int(ctx, neg)));
      r = Z3_mk_int2bv(ctx, e->w, t); break;
    }
    case K_RUF: {
      Z3_sort d[2] = {sReal, sReal}; unsigned n = e->b ? 2 : 1;
      Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("uf_" + ufNameList[e->cv]).c_str()), n, d, sReal);
      Z3_ast x[2] = {A(), e->b ? B() : nullptr}; r = Z3_mk_app(ctx, f, n, x); break;
    }
  }
  e->z = r; e->zg = zgen; return r;
}

static std::vector<uint64_t> mval; static std::vector<mpq_class> mreal; static uint32_t mgen = 1; static bool mvalid = true;
static void model_extend(uint64_t def) { if (mval.size() + 1 == vars.size()) { mval.push_back(def); mreal.push_back(mpq_class(0)); } else if (mval.size() < vars.size()) mvalid = false; }
static Z3_model zmodel = nullptr;
static bool pcHasUF = false;
bool model_valid() { return mvalid; }

static void flushRanges() {
  for (size_t k = 0; k < pend.size(); k++) {
    Expr* e = pend[k]; VarInfo& v = vars[e->cv];
    if (e->s == S_REAL) { Z3_solver_assert(ctx, slv, Z3_mk_le(ctx, tz(e), ratz(mpq_class((long)v.hi)))); Z3_solver_assert(ctx, slv, Z3_mk_ge(ctx, tz(e), ratz(mpq_class((long)v.lo)))); }
    else if (intMode) { Z3_solver_assert(ctx, slv, Z3_mk_le(ctx, inum(v.lo), tz(e))); Z3_solver_assert(ctx, slv, Z3_mk_le(ctx, tz(e), inum(v.hi))); }
    else if (v.lo != minw(e->w) || v.hi != maxw(e->w)) {
      Z3_sort so = Z3_mk_bv_sort(ctx, e->w);
      Z3_solver_assert(ctx, slv, Z3_mk_bvsle(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)v.lo & maskw(e->w), so), tz(e)));
      Z3_solver_assert(ctx, slv, Z3_mk_bvsle(ctx, tz(e), Z3_mk_unsigned_int64(ctx, (uint64_t)v.hi & maskw(e->w), so)));
    }
  }
  pend.clear();
}
static void assertRange(Z3_solver S, Expr* e) {
  VarInfo& v = vars[e->cv];
  if (e->s == S_REAL) { Z3_solver_assert(ctx, S, Z3_mk_le(ctx, tz(e), ratz(mpq_class((long)v.hi)))); Z3_solver_assert(ctx, S, Z3_mk_ge(ctx, tz(e), ratz(mpq_class((long)v.lo)))); }
  else if (e->s != S_BV) return;
  else if (intMode) { Z3_solver_assert(ctx, S, Z3_mk_le(ctx, inum(v.lo), tz(e))); Z3_solver_assert(ctx, S, Z3_mk_le(ctx, tz(e), inum(v.hi))); }
  else if (v.lo != minw(e->w) || v.hi != maxw(e->w)) {
    Z3_sort so = Z3_mk_bv_sort(ctx, e->w);
    Z3_solver_assert(ctx, S, Z3_mk_bvsle(ctx, Z3_mk_unsigned_int64(ctx, (uint64_t)v.lo & maskw(e->w), so), tz(e)));
    Z3_solver_assert(ctx, S, Z3_mk_bvsle(ctx, tz(e), Z3_mk_unsigned_int64(ctx, (uint64_t)v.hi & maskw(e->w), so)));
  }
}
static void assertAll(Z3_solver S) { // the whole path condition, with the ranges of the variables in use
  for (auto c : pcList) Z3_solver_assert(ctx, S, tz(c));
  for (auto& v : vars) if (v.e->z && v.e->zg == zgen) assertRange(S, v.e);
}
static void toBV() {
  intMode = false; zgen++; pend.clear(); bvFallbacks++; Z3_solver_reset(ctx, slv);
  for (auto c : pcList) { Z3_ast a = tz(c); flushRanges(); Z3_solver_assert(ctx, slv, a); }
}
static Z3_ast tzTop(Expr* c) { // translate and assert pending variable ranges
  try { Z3_ast a = tz(c); flushRanges(); return a; } catch (NeedBV&) { }
  toBV(); Z3_ast a = tz(c); flushRanges(); return a;
}
static void addKnown(Expr* c) {
  knownMap[c] = 1;
  if (c->k == K_NOT) knownMap[c->a] = 0; else knownMap[mkNot(c)] = 0;
  if (c->k == K_BAND) { addKnown(c->a); addKnown(c->b); }
  if (c->k == K_NOT && c->a->k == K_BOR) { addKnown(mkNot(c->a->a)); addKnown(mkNot(c->a->b)); }
  if (c->k == K_SLT) { knownMap[mkCmp(K_SLE, c->a, c->b)] = 1; knownMap[mkCmp(K_EQ, c->a, c->b)] = 0; knownMap[mkCmp(K_SLT, c->b, c->a)] = 0; }
}
void solver_add(Expr* c) {
  if (c == E_TRUE) return;
  z3init();
  Z3_ast za = tzTop(c); Z3_solver_assert(ctx, slv, za); pcList.push_back(c);
  addKnown(c);
  if (mvalid) { if (vars.size() > mval.size() || !evalBool(c)) mvalid = false; }
}
int known(Expr* c) { auto it = knownMap.find(c); return it == knownMap.end() ? -1 : it->second; }

static void takeModel(Z3_solver S) {
  Z3_model m = Z3_solver_get_model(ctx, S);
  mval.assign(vars.size(), 0); mreal.assign(vars.size(), mpq_class(0)); mgen++;
  for (size_t i = 0; i < vars.size(); i++) {
    if (!vars[i].e->z || vars[i].e->zg != zgen) { if (vars[i].s != S_REAL && vars[i].w > 1) mval[i] = (vars[i].lo <= 0 && vars[i].hi >= 0) ? 0 : (uint64_t)vars[i].lo & maskw(vars[i].w); continue; }
    Z3_ast v = nullptr;
    if (!Z3_model_eval(ctx, m, (Z3_ast)vars[i].e->z, true, &v)) engine_fail("model eval");
    if (vars[i].s == S_BOOL) mval[i] = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
    else if (vars[i].s == S_BV && intMode) { int64_t x = 0; if (!Z3_get_numeral_int64(ctx, v, &x)) engine_fail("numeral"); mval[i] = (uint64_t)x & maskw(vars[i].w); }
    else if (vars[i].s == S_BV) { uint64_t x = 0; if (!Z3_get_numeral_uint64(ctx, v, &x)) engine_fail("numeral"); mval[i] = x; }
    else {
      if (Z3_is_algebraic_number(ctx, v)) v = Z3_get_algebraic_number_lower(ctx, v, 20);
      mpq_class q(Z3_get_numeral_string(ctx, v)); q.canonicalize(); mreal[i] = q;
    }
  }
  zmodel = m; mvalid = true;
}
static uint64_t ev(Expr* e);
// ---- model guessing: recent models and local search, verified by evaluating the whole path condition ----
struct PoolModel { std::vector<uint64_t> v; std::vector<mpq_class> r; size_t checked; };
static std::vector<PoolModel> pool; static std::vector<uint64_t> altVal; static std::vector<mpq_class> altReal; static bool altValid = false;
bool anyUF = false; uint64_t guessHits = 0, guessTries = 0;
static uint64_t grng = 88172645463325252ull;
static uint32_t rnd(uint32_t n) { grng ^= grng << 13; grng ^= grng >> 7; grng ^= grng << 17; return (uint32_t)((grng >> 20) % n); }
static void poolAdd() { if (mval.size() != vars.size()) return; for (auto& m : pool) if (m.v == mval && m.r == mreal) return; if (pool.size() >= 24) pool.erase(pool.begin() + rnd(12)); pool.push_back({mval, mreal, 0}); }
static void support(Expr* e, std::vector<uint32_t>& out, std::unordered_map<Expr*, char>& seen, int& budget) {
  if (!e || budget <= 0 || e->k == K_CONST || seen.count(e)) return; seen[e] = 1; budget--;
  if (e->k == K_VAR) { out.push_back(e->cv); return; }
  if (e->p) { for (auto& t : e->p->t) if (t.first) for (auto f : monos[t.first].f) support(f, out, seen, budget); return; }
  support(e->a, out, seen, budget); support(e->b, out, seen, budget); support(e->c, out, seen, budget);
}
static bool setVar(uint32_t v, int64_t x) { auto& I = vars[v]; if (I.s == S_REAL) return false; if (I.s == S_BOOL || I.w == 1) { mval[v] = x & 1; return true; } if (x < I.lo || x > I.hi) return false; mval[v] = (uint64_t)x & maskw(I.w); return true; }
static int64_t getVar(uint32_t v) { return sx(mval[v], vars[v].w); }
static void atoms(Expr* e, std::vector<Expr*>& out, int depth) {
  if (depth <= 0 || e->s != S_BOOL) return;
  switch (e->k) {
    case K_SLT: case K_SLE: case K_ULT: case K_ULE: out.push_back(e); break;
    case K_EQ: if (e->a->s == S_BV) out.push_back(e); else { atoms(e->a, out, depth - 1); atoms(e->b, out, depth - 1); } break;
    case K_NOT: atoms(e->a, out, depth - 1); break;
    case K_BAND: case K_BOR: case K_BXOR: atoms(e->a, out, depth - 1); atoms(e->b, out, depth - 1); break;
    case K_ITE: atoms(e->a, out, depth - 1); atoms(e->b, out, depth - 1); atoms(e->c, out, depth - 1); break;
    default: break;
  }
}
static bool mutate(const std::vector<uint32_t>& sup, Expr* goal) {
  if (rnd(3)) { // move one variable by the distance of one comparison
    std::vector<Expr*> at; atoms(goal, at, 6);
    if (!at.empty()) {
      Expr* a = at[rnd(at.size())]; if (a->a->w <= 64) {
        int64_t d = sx(ev(a->b), a->a->w) - sx(ev(a->a), a->a->w);
        static const int sc[] = {1, 1, 1, 2, 4}; int k = sc[rnd(5)]; if (rnd(3) == 0) d = d / k; else d = d * k;
        if (rnd(2)) d = -d; d += (int64_t)rnd(3) - 1;
        uint32_t v = sup[rnd(sup.size())]; if (vars[v].s == S_BV && vars[v].w > 1 && d < (1ll << 40) && d > -(1ll << 40)) return setVar(v, getVar(v) + d);
      }
    }
  }
  uint32_t v = sup[rnd(sup.size())]; if (vars[v].s == S_BOOL || vars[v].w == 1) return setVar(v, !mval[v]);
  int64_t x = getVar(v); uint32_t o; int64_t d = (int64_t)rnd(5) - 2;
  switch (rnd(6)) {
    case 0: return setVar(v, x + (rnd(2) ? 1 : -1));
    case 1: return setVar(v, x + (rnd(2) ? 1 : -1) * (int64_t)(2 + rnd(6)));
    case 2: o = sup[rnd(sup.size())]; if (vars[o].s != S_BV) return false; return setVar(v, getVar(o) + d);
    case 3: o = sup[rnd(sup.size())]; if (vars[o].s != S_BV) return false; return setVar(v, 2 * getVar(o) + d);
    case 4: o = sup[rnd(sup.size())]; if (vars[o].s != S_BV) return false; return setVar(v, (getVar(o) >> 1) + d);
    default: return setVar(v, x + (rnd(2) ? 1 : -1) * (int64_t)(1ll << rnd(12)));
  }
}
static int firstBad(size_t from) { for (size_t i = pcList.size(); i-- > from;) if (!ev(pcList[i])) return (int)i; return -1; }
static bool guess(Expr* extra, int tries) { // on success mval/mreal satisfy PC && extra
  auto sv = mval; auto sr = mreal; bool base = mvalid && mval.size() == vars.size();
  for (size_t k = pool.size(); k-- > 0;) {
    auto& m = pool[k]; if (m.v.size() != vars.size()) { // variables created since then: take the current values
      if (!base) continue; for (size_t i = m.v.size(); i < vars.size(); i++) { m.v.push_back(sv[i]); m.r.push_back(sr[i]); } m.checked = 0; }
    mval = m.v; mreal = m.r; mgen++;
    int bad = firstBad(m.checked); if (bad >= 0) { pool.erase(pool.begin() + k); continue; } m.checked = pcList.size();
    if (ev(extra)) return true;
  }
  if (base) {
    std::vector<uint32_t> sup; { std::unordered_map<Expr*, char> seen; int b = 4000; support(extra, sup, seen, b); }
    if (!sup.empty()) for (int t = 0; t < tries; t++) {
      mval = sv; mreal = sr; mgen++; std::vector<uint32_t> cur = sup; bool exOk = false; Expr* goal = extra;
      for (int st = 0; st < 8; st++) {
        if (!mutate(cur, goal)) continue; mgen++;
        if (!ev(extra)) { if (!exOk) continue; cur = sup; goal = extra; continue; } exOk = true;
        int bad = firstBad(0); if (bad < 0) return true;
        std::unordered_map<Expr*, char> seen; int b = 1000; cur.clear(); goal = pcList[bad]; support(pcList[bad], cur, seen, b); if (cur.empty()) break;
      }
    }
  }
  mval = sv; mreal = sr; mgen++; return false;
}
bool use_alt_model() { if (!altValid || altVal.size() != vars.size()) return false; mval = altVal; mreal = altReal; mgen++; mvalid = true; altValid = false; return true; }
Res solver_check(Expr* extra, bool integral, bool keep) {
  z3init();
  if (extra == E_FALSE) return R_UNSAT;
  auto t0 = std::chrono::steady_clock::now();
  Z3_ast zx = extra != E_TRUE ? tzTop(extra) : nullptr;
  double gt = 0;
  static int gtries = getenv("SYMIR_GUESS") ? atoi(getenv("SYMIR_GUESS")) : 48;
  bool canGuess = !anyUF && !integral && gtries >= 0; altValid = false; bool guessed = false; Z3_lbool r = Z3_L_UNDEF;
  if (canGuess) {
    auto tg = std::chrono::steady_clock::now();
    guessTries++; auto sv = mval; auto sr = mreal; bool smv = mvalid;
    if (guess(extra, gtries)) {
      guessHits++; guessed = true; r = Z3_L_TRUE; poolAdd();
      if (keep) { mvalid = true; zmodel = nullptr; } else { altVal = mval; altReal = mreal; altValid = true; mval = sv; mreal = sr; mgen++; mvalid = smv; }
    }
    gt = std::chrono::duration<double>(std::chrono::steady_clock::now() - tg).count();
  }
  if (!guessed) {
    Z3_solver_push(ctx, slv);
    if (zx) Z3_solver_assert(ctx, slv, zx);
    if (integral) for (auto& v : vars) if (v.s == S_REAL && v.e->z && v.e->zg == zgen) Z3_solver_assert(ctx, slv, Z3_mk_is_int(ctx, (Z3_ast)v.e->z));
    r = Z3_solver_check(ctx, slv);
  }
  Z3_solver S = slv; bool popped = false;
  if (!guessed && r == Z3_L_UNDEF) { // budget exhausted: other solvers, from scratch; the incremental one is rebuilt (it may have lost assertions)
    Z3_solver_pop(ctx, slv, 1); popped = true; Z3_solver_reset(ctx, slv); assertAll(slv); pend.clear();
    static const struct { int kind; unsigned seed, rl; } plan[] = {{0, 0, 20000000}, {1, 7, 20000000}, {1, 23, 20000000}, {2, 0, 100000000}, {0, 3, 200000000}};
    for (auto& a : plan) {
      if (a.kind == 2) { if (!intMode || anyUF) continue; bool real = false; for (auto& v : vars) if (v.s == S_REAL) real = true; if (real) continue; toBV(); zx = extra != E_TRUE ? tzTop(extra) : nullptr; }
      if (a.kind == 0 && !intMode && a.seed == 3) {}
      S = a.kind == 0 ? Z3_mk_solver(ctx) : Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, S);
      Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
      Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), a.rl); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "random_seed"), a.seed);
      Z3_solver_set_params(ctx, S, p); assertAll(S); if (zx) Z3_solver_assert(ctx, S, zx);
      if (integral) for (auto& v : vars) if (v.s == S_REAL && v.e->z && v.e->zg == zgen) Z3_solver_assert(ctx, S, Z3_mk_is_int(ctx, (Z3_ast)v.e->z));
      r = Z3_solver_check(ctx, S); escalations++;
      if (r != Z3_L_UNDEF) break;
    }
  }
  if (r == Z3_L_TRUE && !guessed) {
    if (keep) { takeModel(S); if (!anyUF) poolAdd(); }
    else if (!anyUF) { auto sv = mval; auto sr = mreal; bool smv = mvalid; takeModel(S); poolAdd(); altVal = mval; altReal = mreal; altValid = true; mval = sv; mreal = sr; mgen++; mvalid = smv; }
  }
  std::string reason; if (r == Z3_L_UNDEF) reason = Z3_solver_get_reason_unknown(ctx, S);
  if (!guessed && !popped) Z3_solver_pop(ctx, slv, 1);
  if (S != slv) Z3_solver_dec_ref(ctx, S);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  sstats.time += dt; sstats.queries++;
  if (getenv("SYMIR_QTRACE")) fprintf(stderr, "Q %d %.4f keep=%d g=%d %.4f %s\n", (int)r, dt, (int)keep, (int)guessed, gt, (dt > 0.2 || getenv("SYMIR_QALL")) ? exprStr(extra, 12).substr(0, 1500).c_str() : "");
  if (r == Z3_L_TRUE) { sstats.sat++; return R_SAT; }
  if (r == Z3_L_FALSE) { sstats.unsat++; return R_UNSAT; }
  sstats.unknown++; return R_UNKNOWN;
}

static uint64_t ev(Expr* e);
static mpq_class evr(Expr* e) {
  if (e->k == K_POLY) {
    mpq_class s = 0;
    for (auto& t : e->p->t) {
      if (t.first == 0) { s += t.second; continue; }
      mpq_class v = 1; auto fs = monos[t.first].f; for (auto f : fs) v *= evr(f);
      s += t.second * v;
    }
    return s;
  }
  switch (e->k) {
    case K_RVAR: return e->cv < mreal.size() ? mreal[e->cv] : mpq_class(0);
    case K_RFROMINT: return mpq_class((long)sx(ev(e->a), e->a->w));
    case K_RDIV: { mpq_class d = evr(e->b); if (d == 0) return 0; return evr(e->a) / d; }
    case K_RFLOOR: { mpq_class v = evr(e->a); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); return mpq_class(z); }
    case K_RITE: return ev(e->a) ? evr(e->b) : evr(e->c);
    case K_RUF: {
      if (e->z && e->zg == zgen && zmodel) { Z3_ast v = nullptr; if (Z3_model_eval(ctx, zmodel, (Z3_ast)e->z, true, &v) && !Z3_is_algebraic_number(ctx, v)) { mpq_class q(Z3_get_numeral_string(ctx, v)); q.canonicalize(); return q; } }
      return 0;
    }
    default: engine_fail("evr"); return 0;
  }
}
static uint64_t ev(Expr* e) {
  if (e->k == K_CONST) return e->cv;
  if (e->gen == mgen) return e->ev;
  uint64_t r = 0; int w = e->w; uint64_t m = maskw(w);
  switch (e->k) {
    case K_VAR: r = e->cv < mval.size() ? mval[e->cv] : ((e->s == S_BV && (e->smin > 0 || e->smax < 0)) ? (uint64_t)e->smin & m : 0); break;
    case K_EQ: r = (e->a->s == S_BOOL) ? ev(e->a) == ev(e->b) : ev(e->a) == ev(e->b); break;
    case K_ULT: r = ev(e->a) < ev(e->b); break;
    case K_ULE: r = ev(e->a) <= ev(e->b); break;
    case K_SLT: r = sx(ev(e->a), e->a->w) < sx(ev(e->b), e->a->w); break;
    case K_SLE: r = sx(ev(e->a), e->a->w) <= sx(ev(e->b), e->a->w); break;
    case K_NOT: r = !ev(e->a); break;
    case K_BAND: r = ev(e->a) && ev(e->b); break;
    case K_BOR: r = ev(e->a) || ev(e->b); break;
    case K_BXOR: r = ev(e->a) != ev(e->b); break;
    case K_RLT0: r = evr(e->a) < 0; break;
    case K_RLE0: r = evr(e->a) <= 0; break;
    case K_REQ0: r = evr(e->a) == 0; break;
    case K_ITE: r = ev(e->a) ? ev(e->b) : ev(e->c); break;
    case K_CONCAT: if (w > 64) { engine_fail("eval wide concat"); } r = (ev(e->a) << e->b->w) | ev(e->b); break;
    case K_EXTRACT: if (e->a->w > 64) engine_fail("eval wide extract"); r = (ev(e->a) >> e->cv) & m; break;
    case K_ZEXT: r = ev(e->a); break;
    case K_SEXT: r = (uint64_t)sx(ev(e->a), e->a->w) & m; break;
    case K_RTOINT: { mpq_class v = evr(e->a); mpz_class z; mpz_tdiv_q(z.get_mpz_t(), v.get_num_mpz_t(), v.get_den_mpz_t()); r = (uint64_t)z.get_si() & m; break; }
    case K_UDIV: { uint64_t y = ev(e->b); r = y ? ev(e->a) / y : m; break; }
    case K_UREM: { uint64_t y = ev(e->b); r = y ? ev(e->a) % y : ev(e->a); break; }
    case K_SDIV: case K_SREM: {
      int64_t x = sx(ev(e->a), w), y = sx(ev(e->b), w);
      if (y == 0) r = e->k == K_SDIV ? (x < 0 ? 1 : m) : (uint64_t)x & m; else if (y == -1) r = e->k == K_SDIV ? (0 - (uint64_t)x) & m : 0; else r = (uint64_t)(e->k == K_SDIV ? x / y : x % y) & m; break;
    }
    default: { bool ok; r = foldBin(e->k, ev(e->a), ev(e->b), w, ok); }
  }
  e->gen = mgen; e->ev = r; return r;
}
#ifdef LINCHECK
static uint64_t lcN = 0;
static void linCheck(Expr* e, Expr* r) {
  if (e == r) return;
  auto sv = mval; auto sm = mvalid;
  if (mval.size() != vars.size()) return;
  for (int it = 0; it < 4; it++) {
    for (size_t v = 0; v < vars.size(); v++) { auto& I = vars[v]; if (I.s == S_REAL) continue; if (I.w == 1 || I.s == S_BOOL) { mval[v] = random() & 1; continue; } unsigned __int128 span = (__int128)I.hi - I.lo + 1; uint64_t rr = ((uint64_t)random() << 33) ^ random(); int64_t x = (int64_t)(I.lo + (__int128)(it == 0 ? rr % std::min<unsigned __int128>(span, 3) : rr % span)); mval[v] = (uint64_t)x & maskw(I.w); }
    mgen++; uint64_t x = ev(e), y = ev(r);
    if (e->s == S_BV) { x &= maskw(e->w); y &= maskw(e->w); }
    if (x != y) { fprintf(stderr, "LINCHECK %s  ->  %s : %lx %lx\n", exprStr(e, 8).c_str(), exprStr(r, 8).c_str(), x, y); }
  }
  mval = sv; mgen++; mvalid = sm; if (++lcN % 1000 == 0) fprintf(stderr, "linchecks %lu\n", lcN);
}
#endif
bool evalBool(Expr* e) { return ev(e) != 0; }
uint64_t evalBV(Expr* e) { return ev(e); }
mpq_class evalReal(Expr* e) { return evr(e); }

std::string exprStr(Expr* e, int d) {
  static const char* n[] = {"const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "concat", "extract", "zext", "sext", "ite", "eq", "ult", "ule", "slt", "sle", "not", "band", "bor", "bxor", "rlt0", "rle0", "req0", "poly", "rvar", "rfromint", "rdiv", "rfloor", "ruf", "rite", "rtoint"};
  if (e->k == K_CONST) return std::to_string((long)sx(e->cv, e->s == S_BOOL ? 2 : e->w));
  if (e->k == K_VAR || e->k == K_RVAR) return vars[e->cv].name;
  if (d == 0) return "...";
  if (e->k == K_POLY) { std::string s = "("; for (auto& t : e->p->t) { s += (s.size() > 1 ? " + " : "") + t.second.get_str(); for (auto f : monos[t.first].f) s += "*" + exprStr(f, d - 1); } return s + ")"; }
  std::string s = std::string("(") + n[e->k]; if (e->k == K_EXTRACT) s += "@" + std::to_string(e->cv) + ":" + std::to_string(e->w);
  if (e->a) s += " " + exprStr(e->a, d - 1); if (e->b) s += " " + exprStr(e->b, d - 1); if (e->c) s += " " + exprStr(e->c, d - 1);
  return s + ")";
}
