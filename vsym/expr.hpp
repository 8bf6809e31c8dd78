// Hash-consed bit-vector expressions over symbolic input bytes.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Kind : u8 { K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR,
  K_SHL, K_LSHR, K_ASHR, K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_NOT };

struct Support { std::vector<u32> vars; u64 hash; };

struct Expr {
  Kind kind; uint16_t width; u32 id; u32 depth; u64 evalGen;
  Expr *a, *b, *c;
  u64 lo, hi;          // CONST: value. VAR: lo=index. EXTRACT: lo=offset
  Support *sup;
  u128 evalVal;
  void *z3ast;         // cached translation (natural sort)
  bool isConst() const { return kind == K_CONST; }
  u128 cval() const { return ((u128)hi << 64) | lo; }
};
typedef Expr *E;

[[noreturn]] void engineError(const char *fmt, ...);

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 s = (u128)1 << (w - 1); return (i128)((v ^ s) - s); }

struct ExprCtx {
  std::vector<E> table; size_t count = 0; u32 nextId = 1; u64 gen = 1;
  std::vector<char *> slabs; size_t slabOff = 0; static const size_t SLAB = 1 << 20;
  std::unordered_map<u64, std::vector<Support *>> supTab;
  Support *emptySup;
  std::vector<E> smallConst[129];
  ExprCtx() { table.resize(1 << 18, nullptr); emptySup = new Support{{}, 0}; }
  void *alloc(size_t n) {
    n = (n + 15) & ~15ull;
    if (slabs.empty() || slabOff + n > SLAB) { slabs.push_back((char *)aligned_alloc(16, SLAB)); slabOff = 0; }
    void *p = slabs.back() + slabOff; slabOff += n; return p;
  }
  static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
  Support *internSup(std::vector<u32> &&v) {
    u64 h = 1; for (u32 x : v) h = mix(h, x);
    auto &b = supTab[h];
    for (auto *s : b) if (s->vars == v) return s;
    Support *s = new Support{std::move(v), h}; b.push_back(s); return s;
  }
  struct PairHash { size_t operator()(const std::pair<Support *, Support *> &p) const { return mix((u64)p.first * 0x9e3779b97f4a7c15ull, (u64)p.second); } };
  std::unordered_map<std::pair<Support *, Support *>, Support *, PairHash> supUnionCache;
  Support *unionSup(Support *x, Support *y) {
    if (x == y || y->vars.empty()) return x; if (x->vars.empty()) return y;
    if (x > y) std::swap(x, y);
    std::pair<Support *, Support *> k(x, y);
    auto it = supUnionCache.find(k);
    if (it != supUnionCache.end()) return it->second;
    std::vector<u32> r; std::set_union(x->vars.begin(), x->vars.end(), y->vars.begin(), y->vars.end(), std::back_inserter(r));
    Support *s = internSup(std::move(r)); supUnionCache[k] = s; return s;
  }
  E mk(Kind k, unsigned w, E a, E b, E c, u64 lo, u64 hi) {
    u64 h = mix(mix(mix(mix(mix(mix(k, w), (u64)a), (u64)b), (u64)c), lo), hi);
    size_t m = table.size() - 1, i = h & m;
    for (; table[i]; i = (i + 1) & m) {
      E e = table[i];
      if (e->kind == k && e->width == w && e->a == a && e->b == b && e->c == c && e->lo == lo && e->hi == hi) return e;
    }
    E e = (E)alloc(sizeof(Expr));
    e->kind = k; e->width = w; e->id = nextId++; e->evalGen = 0; e->a = a; e->b = b; e->c = c; e->lo = lo; e->hi = hi; e->z3ast = nullptr;
    u32 d = 0; if (a) d = std::max(d, a->depth); if (b) d = std::max(d, b->depth); if (c) d = std::max(d, c->depth); e->depth = d + 1;
    Support *s = emptySup;
    if (k == K_VAR) { s = internSup({(u32)lo}); }
    else { if (a) s = a->sup; if (b) s = unionSup(s, b->sup); if (c) s = unionSup(s, c->sup); }
    e->sup = s;
    table[i] = e; count++;
    if (count * 2 > table.size()) rehash();
    return e;
  }
  void rehash() {
    std::vector<E> old; old.swap(table); table.resize(old.size() * 2, nullptr); size_t m = table.size() - 1;
    for (E e : old) if (e) {
      u64 h = mix(mix(mix(mix(mix(mix(e->kind, e->width), (u64)e->a), (u64)e->b), (u64)e->c), e->lo), e->hi);
      size_t i = h & m; while (table[i]) i = (i + 1) & m; table[i] = e;
    }
  }
  E constant(u128 v, unsigned w) { v &= maskw(w); return mk(K_CONST, w, nullptr, nullptr, nullptr, (u64)v, (u64)(v >> 64)); }
  E var(u32 idx) { return mk(K_VAR, 8, nullptr, nullptr, nullptr, idx, 0); }
  E tru() { return constant(1, 1); }
  E fls() { return constant(0, 1); }

  static u128 foldBin(Kind k, u128 a, u128 b, unsigned w) {
    u128 m = maskw(w);
    switch (k) {
      case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
      case K_UDIV: return b ? (a / b) & m : m; case K_UREM: return b ? a % b : a;
      case K_SDIV: { if (!b) return sx(a, w) < 0 ? 1 : m; i128 x = sx(a, w), y = sx(b, w); if (y == -1) return (0 - a) & m; return (u128)(x / y) & m; }
      case K_SREM: { if (!b) return a; i128 x = sx(a, w), y = sx(b, w); if (y == -1) return 0; return (u128)(x % y) & m; }
      case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
      case K_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
      case K_LSHR: return b >= w ? 0 : a >> (unsigned)b;
      case K_ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & m; }
      case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
      case K_SLT: return sx(a, w) < sx(b, w); case K_SLE: return sx(a, w) <= sx(b, w);
      default: abort();
    }
  }
  static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
  E notE(E x) {
    if (x->isConst()) return constant(!x->lo, 1);
    if (x->kind == K_NOT) return x->a;
    if (x->kind == K_ULT) return bin(K_ULE, x->b, x->a);
    if (x->kind == K_ULE) return bin(K_ULT, x->b, x->a);
    if (x->kind == K_SLT) return bin(K_SLE, x->b, x->a);
    if (x->kind == K_SLE) return bin(K_SLT, x->b, x->a);
    return mk(K_NOT, 1, x, nullptr, nullptr, 0, 0);
  }
  static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }
  bool iteConst(E x) { return x->kind == K_ITE && x->b->isConst() && x->c->isConst(); }
  // an ITE tree whose leaves are constants, of at most n leaves
  static int constLeaves(E x, int n) { if (x->isConst()) return 1; if (x->kind != K_ITE || n <= 1) return 1000; int l = constLeaves(x->b, n - 1); if (l >= n) return 1000; return l + constLeaves(x->c, n - l); }
  E mapLeaves(E x, Kind k, E c, bool constRight) {
    if (x->isConst()) return constRight ? bin(k, x, c) : bin(k, c, x);
    return ite(x->a, mapLeaves(x->b, k, c, constRight), mapLeaves(x->c, k, c, constRight));
  }
  E bin(Kind k, E a, E b) {
    unsigned w = a->width;
    if (b->width != w) engineError("bin width mismatch kind %d %d %d", k, a->width, b->width);
    unsigned rw = isCmp(k) ? 1 : w;
    if (a->isConst() && b->isConst()) return constant(foldBin(k, a->cval(), b->cval(), w), rw);
    if (commut(k) && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    bool bc = b->isConst(); u128 bv = bc ? b->cval() : 0;
    if (w == 1) {
      switch (k) {
        case K_AND: case K_MUL: if (bc) return bv ? a : b; if (a == b) return a; if (a->kind == K_NOT && a->a == b) return fls(); if (b->kind == K_NOT && b->a == a) return fls(); return mk(K_AND, 1, a, b, 0, 0, 0);
        case K_OR: if (bc) return bv ? b : a; if (a == b) return a; if (a->kind == K_NOT && a->a == b) return tru(); if (b->kind == K_NOT && b->a == a) return tru(); return mk(K_OR, 1, a, b, 0, 0, 0);
        case K_XOR: case K_ADD: case K_SUB: if (bc) return bv ? notE(a) : a; if (k == K_SUB && a->isConst()) return a->lo ? notE(b) : b; if (a == b) return fls(); return mk(K_XOR, 1, a, b, 0, 0, 0);
        case K_EQ: if (bc) return bv ? a : notE(a); if (a == b) return tru(); return notE(bin(K_XOR, a, b));
        case K_ULT: return bin(K_AND, notE(a), b);
        case K_ULE: return bin(K_OR, notE(a), b);
        case K_SLT: return bin(K_AND, a, notE(b));
        case K_SLE: return bin(K_OR, a, notE(b));
        default: break;
      }
    }
    if (bc && a->kind == K_ITE && k != K_UDIV && k != K_SDIV && k != K_UREM && k != K_SREM && constLeaves(a, 24) <= 24) return mapLeaves(a, k, b, true);
    if (a->isConst() && b->kind == K_ITE && k != K_UDIV && k != K_SDIV && k != K_UREM && k != K_SREM && constLeaves(b, 24) <= 24) return mapLeaves(b, k, a, false);
    switch (k) {
      case K_ADD:
        if (bc) { if (!bv) return a; if (a->kind == K_ADD && a->b->isConst()) return bin(K_ADD, a->a, constant(a->b->cval() + bv, w)); }
        if (a->kind == K_SUB && a->b == b) return a->a;
        break;
      case K_SUB:
        if (a == b) return constant(0, w);
        if (bc) return bin(K_ADD, a, constant(0 - bv, w));
        if (a->kind == K_ADD && a->b->isConst() && b->kind == K_ADD && b->b->isConst() && a->a == b->a) return constant(a->b->cval() - b->b->cval(), w);
        if (a->kind == K_ADD && a->a == b) return a->b;
        if (a->kind == K_ADD && a->b == b) return a->a;
        break;
      case K_MUL:
        if (bc) { if (!bv) return b; if (bv == 1) return a; if (!(bv & (bv - 1))) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return bin(K_SHL, a, constant(s, w)); } }
        break;
      case K_UDIV: if (bc) { if (bv == 1) return a; if (bv && !(bv & (bv - 1))) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return bin(K_LSHR, a, constant(s, w)); } } break;
      case K_UREM: if (bc) { if (bv == 1) return constant(0, w); if (bv && !(bv & (bv - 1))) return bin(K_AND, a, constant(bv - 1, w)); } break;
      case K_AND:
        if (a == b) return a;
        if (bc) {
          if (!bv) return b; if (bv == m) return a;
          if (a->kind == K_AND && a->b->isConst()) return bin(K_AND, a->a, constant(a->b->cval() & bv, w));
          // low mask
          u128 t = bv + 1; if (!(t & bv)) { unsigned n = 0; while ((bv >> n) & 1) n++; return zext(extract(a, 0, n), w); }
          if (a->kind == K_ZEXT) { unsigned n = a->a->width; if (!(bv & ~maskw(n))) return zext(bin(K_AND, a->a, constant(bv, n)), w); return bin(K_AND, a, constant(bv & maskw(n), w)); }
          // single-run mask
          { unsigned s = 0; while (!((bv >> s) & 1)) s++; u128 r = bv >> s; u128 t2 = r + 1; if (!(t2 & r)) { unsigned n = 0; while ((r >> n) & 1) n++; E x = extract(a, s, n); if (x->kind != K_EXTRACT || x->a != a) { E y = concat(x, constant(0, s)); return zext(y, w); } } }
        }
        break;
      case K_OR:
        if (a == b) return a;
        if (bc) { if (!bv) return a; if (bv == m) return b; }
        { E r = orDisjoint(a, b, w); if (r) return r; }
        break;
      case K_XOR: if (a == b) return constant(0, w); if (bc && !bv) return a;
        if (bc && a->kind == K_XOR && a->b->isConst()) return bin(K_XOR, a->a, constant(a->b->cval() ^ bv, w));
        break;
      case K_SHL: if (bc) { if (bv >= w) return constant(0, w); unsigned s = (unsigned)bv; if (!s) return a; return concat(extract(a, 0, w - s), constant(0, s)); } if (a->isConst() && !a->cval()) return a; break;
      case K_LSHR: if (bc) { if (bv >= w) return constant(0, w); unsigned s = (unsigned)bv; if (!s) return a; return zext(extract(a, s, w - s), w); } if (a->isConst() && !a->cval()) return a; break;
      case K_ASHR: if (bc) { unsigned s = bv >= w ? w - 1 : (unsigned)bv; if (!s) return a; return sext(extract(a, s, w - s), w); } break;
      case K_EQ:
        if (a == b) return tru();
        if (bc) {
          if (a->kind == K_ZEXT) { unsigned n = a->a->width; if (bv & ~maskw(n)) return fls(); return bin(K_EQ, a->a, constant(bv, n)); }
          if (a->kind == K_SEXT) { unsigned n = a->a->width; if (((u128)sx(bv & maskw(n), n) & m) != bv) return fls(); return bin(K_EQ, a->a, constant(bv, n)); }
          if (a->kind == K_CONCAT) { unsigned n = a->b->width; E lo = bin(K_EQ, a->b, constant(bv, n)); if (lo->isConst() && !lo->lo) return lo; return bin(K_AND, bin(K_EQ, a->a, constant(bv >> n, w - n)), lo); }
          if (a->kind == K_ADD && a->b->isConst()) return bin(K_EQ, a->a, constant(bv - a->b->cval(), w));
          if (a->kind == K_XOR && a->b->isConst()) return bin(K_EQ, a->a, constant(bv ^ a->b->cval(), w));
          if (a->kind == K_ITE) { E t = nullptr, f = nullptr; if (a->b->isConst()) t = constant(a->b->cval() == bv, 1); if (a->c->isConst()) f = constant(a->c->cval() == bv, 1);
            if (t || f) { if (!t) t = bin(K_EQ, a->b, b); if (!f) f = bin(K_EQ, a->c, b); return ite(a->a, t, f); } }
        }
        if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return bin(K_EQ, a->a, b->a);
        if (a->kind == K_SEXT && b->kind == K_SEXT && a->a->width == b->a->width) return bin(K_EQ, a->a, b->a);
        if (a->kind == K_CONCAT && b->kind == K_CONCAT && a->b->width == b->b->width) return bin(K_AND, bin(K_EQ, a->a, b->a), bin(K_EQ, a->b, b->b));
        break;
      case K_ULT:
        if (a == b) return fls();
        if (bc) { if (!bv) return fls(); if (bv == 1) return bin(K_EQ, a, constant(0, w)); if (a->kind == K_ZEXT) { unsigned n = a->a->width; if (bv > maskw(n)) return tru(); return bin(K_ULT, a->a, constant(bv, n)); }
          if (bv == m) return notE(bin(K_EQ, a, b)); }
        if (a->isConst()) { u128 av = a->cval(); if (av == m) return fls(); if (!av) return notE(bin(K_EQ, b, a)); if (b->kind == K_ZEXT) { unsigned n = b->a->width; if (av >= maskw(n)) return fls(); return bin(K_ULT, constant(av, n), b->a); } }
        if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return bin(K_ULT, a->a, b->a);
        break;
      case K_ULE:
        if (a == b) return tru();
        if (bc) { if (bv == m) return tru(); return bin(K_ULT, a, constant(bv + 1, w)); }
        if (a->isConst()) { u128 av = a->cval(); if (!av) return tru(); return bin(K_ULT, constant(av - 1, w), b); }
        if (a->kind == K_ZEXT && b->kind == K_ZEXT && a->a->width == b->a->width) return bin(K_ULE, a->a, b->a);
        break;
      case K_SLT:
        if (a == b) return fls();
        if (a->kind == K_ZEXT && b->kind == K_ZEXT) { return bin(K_ULT, a, b); }
        if (bc && a->kind == K_ZEXT) { if (sx(bv, w) <= 0) return fls(); return bin(K_ULT, a, b); }
        if (a->isConst() && b->kind == K_ZEXT) { if (sx(a->cval(), w) < 0) return tru(); return bin(K_ULT, a, b); }
        break;
      case K_SLE:
        if (a == b) return tru();
        if (bc && a->kind == K_ZEXT) { if (sx(bv, w) < 0) return fls(); return bin(K_ULE, a, b); }
        if (a->isConst() && b->kind == K_ZEXT) { if (sx(a->cval(), w) <= 0) return tru(); return bin(K_ULE, a, b); }
        break;
      default: break;
    }
    return mk(k, rw, a, b, nullptr, 0, 0);
  }
  // (x << s) | zext(y) with disjoint bits => concat
  E orDisjoint(E a, E b, unsigned w) {
    // represent each as list of (lowbits zero) ; handle: one is concat(hi, 0:s) and other fits in s bits
    auto lowZeros = [](E e) -> unsigned { if (e->kind == K_CONCAT && e->b->isConst() && !e->b->cval()) return e->b->width; if (e->kind == K_ZEXT && e->a->kind == K_CONCAT && e->a->b->isConst() && !e->a->b->cval()) return e->a->b->width; if (e->isConst() && e->cval()) { unsigned s = 0; while (!((e->cval() >> s) & 1)) s++; return s; } return 0; };
    auto sigBits = [](E e) -> unsigned { if (e->kind == K_ZEXT) return e->a->width; if (e->kind == K_CONCAT && e->a->isConst() && !e->a->cval()) return e->b->width; if (e->isConst()) { unsigned n = 0; u128 v = e->cval(); while (v) { n++; v >>= 1; } return n; } return e->width; };
    unsigned za = lowZeros(a), zb = lowZeros(b);
    if (za && sigBits(b) <= za) return concat(extract(a, za, w - za), extract(b, 0, za));
    if (zb && sigBits(a) <= zb) return concat(extract(b, zb, w - zb), extract(a, 0, zb));
    return nullptr;
  }
  E ite(E c, E t, E f) {
    if (c->isConst()) return c->lo ? t : f;
    if (t == f) return t;
    if (c->kind == K_NOT) return ite(c->a, f, t);
    if (t->width == 1) {
      if (t->isConst()) return t->lo ? bin(K_OR, c, f) : bin(K_AND, notE(c), f);
      if (f->isConst()) return f->lo ? bin(K_OR, notE(c), t) : bin(K_AND, c, t);
    }
    if (t->kind == K_ITE && t->a == c) t = t->b;
    if (f->kind == K_ITE && f->a == c) f = f->c;
    if (t == f) return t;
    if (t->kind == K_ITE && t->c == f) { return ite(bin(K_AND, c, t->a), t->b, f); }
    if (f->kind == K_ITE && f->b == t) { return ite(bin(K_OR, c, f->a), t, f->c); }
    if (t->kind == K_ZEXT && f->kind == K_ZEXT && t->a->width == f->a->width) return zext(ite(c, t->a, f->a), t->width);
    return mk(K_ITE, t->width, c, t, f, 0, 0);
  }
  E zext(E a, unsigned w) {
    if (a->width == w) return a;
    if (a->width > w) engineError("zext narrower");
    if (a->isConst()) return constant(a->cval(), w);
    if (a->kind == K_ZEXT) return zext(a->a, w);
    if (a->kind == K_CONCAT && a->a->isConst() && !a->a->cval()) return zext(a->b, w);
    if (a->kind == K_ITE && constLeaves(a, 24) <= 24) return ite(a->a, zext(a->b, w), zext(a->c, w));
    return mk(K_ZEXT, w, a, nullptr, nullptr, 0, 0);
  }
  E sext(E a, unsigned w) {
    if (a->width == w) return a;
    if (a->isConst()) return constant((u128)sx(a->cval(), a->width), w);
    if (a->kind == K_ZEXT) return zext(a->a, w);
    if (a->kind == K_SEXT) return sext(a->a, w);
    if (a->kind == K_ITE && constLeaves(a, 24) <= 24) return ite(a->a, sext(a->b, w), sext(a->c, w));
    if (a->width == 1) return ite(a, constant(~(u128)0, w), constant(0, w));
    return mk(K_SEXT, w, a, nullptr, nullptr, 0, 0);
  }
  E extract(E a, unsigned off, unsigned w) {
    if (off == 0 && w == a->width) return a;
    if (off + w > a->width) engineError("extract out of range %u+%u>%u", off, w, a->width);
    if (a->isConst()) return constant(a->cval() >> off, w);
    switch (a->kind) {
      case K_EXTRACT: return extract(a->a, a->lo + off, w);
      case K_CONCAT: { unsigned n = a->b->width; if (off + w <= n) return extract(a->b, off, w); if (off >= n) return extract(a->a, off - n, w);
        return concat(extract(a->a, 0, off + w - n), extract(a->b, off, n - off)); }
      case K_ZEXT: { unsigned n = a->a->width; if (off >= n) return constant(0, w); if (off + w <= n) return extract(a->a, off, w); return zext(extract(a->a, off, n - off), w); }
      case K_SEXT: { unsigned n = a->a->width; if (off + w <= n) return extract(a->a, off, w); if (off < n) return sext(extract(a->a, off, n - off), w); return sext(extract(a->a, n - 1, 1), w); }
      case K_ITE: if (a->b->isConst() || a->c->isConst() || constLeaves(a, 24) <= 24) return ite(a->a, extract(a->b, off, w), extract(a->c, off, w)); break;
      case K_AND: case K_OR: case K_XOR: return bin(a->kind, extract(a->a, off, w), extract(a->b, off, w));
      case K_ADD: case K_SUB: case K_MUL: if (off == 0 && (a->b->isConst() || a->a->kind == K_ZEXT)) return bin(a->kind, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      default: break;
    }
    return mk(K_EXTRACT, w, a, nullptr, nullptr, off, 0);
  }
  E concat(E hi, E lo) {
    unsigned w = hi->width + lo->width;
    if (w > 128) engineError("concat too wide %u", w);
    if (hi->isConst() && lo->isConst()) return constant((hi->cval() << lo->width) | lo->cval(), w);
    if (hi->isConst() && !hi->cval()) return zext(lo, w);
    if (hi->kind == K_EXTRACT && lo->kind == K_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->width) return extract(lo->a, lo->lo, w);
    if (hi->kind == K_EXTRACT && hi->a == lo && hi->lo == lo->width) return extract(lo, 0, w); // unreachable by widths
    if (lo->kind == K_CONCAT && hi->kind == K_EXTRACT && lo->a->kind == K_EXTRACT && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->width)
      return concat(extract(hi->a, lo->a->lo, hi->width + lo->a->width), lo->b);
    if (hi->isConst() && lo->kind == K_CONCAT && lo->a->isConst()) return concat(concat(hi, lo->a), lo->b);
    if (hi->kind == K_ZEXT) { // zext(x) . lo = zext(x . lo)
      return zext(concat(hi->a, lo), w);
    }
    return mk(K_CONCAT, w, hi, lo, nullptr, 0, 0);
  }
  // evaluate under model (byte values); caller bumps gen when the model changes
  u128 eval(E e, const u8 *model) {
    if (e->kind == K_CONST) return e->cval();
    if (e->kind == K_VAR) return model[e->lo];
    if (e->evalGen == gen) return e->evalVal;
    u128 r;
    switch (e->kind) {
      case K_ITE: r = eval(e->a, model) ? eval(e->b, model) : eval(e->c, model); break;
      case K_NOT: r = !eval(e->a, model); break;
      case K_CONCAT: r = (eval(e->a, model) << e->b->width) | eval(e->b, model); break;
      case K_EXTRACT: r = (eval(e->a, model) >> e->lo) & maskw(e->width); break;
      case K_ZEXT: r = eval(e->a, model); break;
      case K_SEXT: r = (u128)sx(eval(e->a, model), e->a->width) & maskw(e->width); break;
      default: r = foldBin(e->kind, eval(e->a, model), eval(e->b, model), e->a->width);
    }
    e->evalGen = gen; e->evalVal = r; return r;
  }
};
extern ExprCtx X;
static inline E mkc(u128 v, unsigned w) { return X.constant(v, w); }
struct Val { E e; u64 v; };
static inline Val CV(u64 v) { return Val{nullptr, v}; }
static inline E toE(const Val &x, unsigned w) { return x.e ? x.e : X.constant(x.v, w); }
static inline Val fromE(E e) { if (e->isConst() && e->width <= 64) return Val{nullptr, e->lo}; return Val{e, 0}; }
std::string showE(E e, int depth = 6);
