// Copy-on-write paged byte memory; each byte is concrete or an 8-bit expression.
#pragma once
#include "expr.hpp"
static const unsigned PGBITS = 10, PGSIZE = 1 << PGBITS, CHPAGES = 64;
struct Page { u32 ref; u32 nsym; u8 data[PGSIZE]; E *sym; };
struct Chunk { u32 ref; Page *pg[CHPAGES]; };
static inline void pgDec(Page *p) { if (p && --p->ref == 0) { if (p->sym) free(p->sym); delete p; } }
static inline void chDec(Chunk *c) { if (c && --c->ref == 0) { for (auto p : c->pg) pgDec(p); delete c; } }
static const u64 R_GLOBAL = 1ull << 32, R_HEAP = 2ull << 32, R_STACK = 4ull << 32, R_FUNC = 8ull << 32;
struct Memory {
  std::vector<Chunk *> reg[3];
  Memory() {}
  Memory(const Memory &o) { for (int i = 0; i < 3; i++) { reg[i] = o.reg[i]; for (auto c : reg[i]) if (c) c->ref++; } }
  Memory &operator=(const Memory &) = delete;
  ~Memory() { for (auto &r : reg) for (auto c : r) chDec(c); }
  static int region(u64 a) { switch (a >> 32) { case 1: return 0; case 2: return 1; case 4: return 2; } return -1; }
  Page *rd(u64 a) const {
    int r = region(a); if (r < 0) return nullptr;
    u32 off = (u32)a; u32 ci = off >> (PGBITS + 6);
    if (ci >= reg[r].size() || !reg[r][ci]) return nullptr;
    return reg[r][ci]->pg[(off >> PGBITS) & 63];
  }
  Page *wr(u64 a) {
    int r = region(a); if (r < 0) return nullptr;
    u32 off = (u32)a; u32 ci = off >> (PGBITS + 6);
    auto &v = reg[r];
    if (ci >= v.size()) { if (ci > 40000) return nullptr; v.resize(ci + 1, nullptr); }
    Chunk *c = v[ci];
    if (!c) { c = new Chunk; c->ref = 1; memset(c->pg, 0, sizeof c->pg); v[ci] = c; }
    else if (c->ref > 1) { Chunk *n = new Chunk(*c); n->ref = 1; for (auto p : n->pg) if (p) p->ref++; c->ref--; v[ci] = c = n; }
    Page *&p = c->pg[(off >> PGBITS) & 63];
    if (!p) { p = new Page; p->ref = 1; p->nsym = 0; p->sym = nullptr; memset(p->data, 0, PGSIZE); }
    else if (p->ref > 1) {
      Page *n = new Page; n->ref = 1; n->nsym = p->nsym; memcpy(n->data, p->data, PGSIZE); n->sym = nullptr;
      if (p->nsym) { n->sym = (E *)malloc(sizeof(E) * PGSIZE); memcpy(n->sym, p->sym, sizeof(E) * PGSIZE); }
      p->ref--; p = n;
    }
    return p;
  }
  // byte access. returns false when unmapped
  bool getByte(u64 a, Val &v) const { Page *p = rd(a); if (!p) { if (region(a) < 0) return false; v = CV(0); return true; } unsigned o = a & (PGSIZE - 1); if (p->nsym && p->sym[o]) v = Val{p->sym[o], 0}; else v = CV(p->data[o]); return true; }
  bool setByte(u64 a, const Val &v) {
    Page *p = wr(a); if (!p) return false; unsigned o = a & (PGSIZE - 1);
    if (v.e && !v.e->isConst()) {
      if (!p->sym) { p->sym = (E *)calloc(PGSIZE, sizeof(E)); }
      if (!p->sym[o]) p->nsym++;
      p->sym[o] = v.e;
    } else { if (p->nsym && p->sym[o]) { p->sym[o] = nullptr; p->nsym--; } p->data[o] = v.e ? (u8)v.e->lo : (u8)v.v; }
    return true;
  }
  // loads n bytes (n<=8) concretely; returns false if any symbolic or unmapped
  inline bool loadConc(u64 a, unsigned n, u64 &out) const {
    unsigned o = a & (PGSIZE - 1);
    if (o + n > PGSIZE) return false;
    Page *p = rd(a); if (!p) { return false; }
    if (p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[o + i]) return false;
    u64 r = 0; memcpy(&r, p->data + o, n); out = r; return true;
  }
  bool load(u64 a, unsigned bits, Val &out) const {
    unsigned n = (bits + 7) / 8;
    if (n <= 8) { u64 r; if (loadConc(a, n, r)) { out = CV(r & mask64(bits)); return true; } }
    if (n > 16) engineError("load of %u bits", bits);
    E acc = nullptr; u64 cacc = 0; unsigned cn = 0; // collect from low to high
    bool allc = true; u128 cv = 0;
    Val bs[16];
    for (unsigned i = 0; i < n; i++) { if (!getByte(a + i, bs[i])) return false; if (bs[i].e) allc = false; else cv |= (u128)bs[i].v << (8 * i); }
    (void)cacc; (void)cn;
    if (allc) { cv &= maskw(bits); out = bits <= 64 ? CV((u64)cv) : Val{X.constant(cv, bits), 0}; return true; }
    acc = toE(bs[n - 1], 8);
    // concat from high to low, merging runs of extracts
    std::vector<E> parts; for (int i = (int)n - 1; i >= 0; i--) parts.push_back(toE(bs[i], 8));
    // merge adjacent pairs greedily from the high end
    std::vector<E> m;
    for (E p : parts) {
      if (!m.empty()) {
        E h = m.back();
        if (h->kind == K_EXTRACT && p->kind == K_EXTRACT && h->a == p->a && h->lo == p->lo + p->width) { m.back() = X.extract(p->a, p->lo, h->width + p->width); continue; }
        if (h->isConst() && p->isConst()) { m.back() = X.concat(h, p); continue; }
        // top-part extract of zext produces constants, handled by concat
      }
      m.push_back(p);
    }
    acc = m.back();
    for (int i = (int)m.size() - 2; i >= 0; i--) acc = X.concat(m[i], acc);
    if (acc->width != bits) acc = X.extract(acc, 0, bits);
    out = fromE(acc); return true;
  }
  bool store(u64 a, unsigned bits, const Val &v) {
    unsigned n = (bits + 7) / 8;
    if (!v.e && n <= 8) {
      unsigned o = a & (PGSIZE - 1);
      if (o + n <= PGSIZE) {
        Page *p = wr(a); if (!p) return false;
        u64 x = v.v & mask64(bits); memcpy(p->data + o, &x, n);
        if (p->nsym) for (unsigned i = 0; i < n; i++) if (p->sym[o + i]) { p->sym[o + i] = nullptr; p->nsym--; }
        return true;
      }
      for (unsigned i = 0; i < n; i++) if (!setByte(a + i, CV((v.v >> (8 * i)) & 255))) return false;
      return true;
    }
    E e = toE(v, bits); if (bits != n * 8) e = X.zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) if (!setByte(a + i, fromE(X.extract(e, 8 * i, 8)))) return false;
    return true;
  }
  bool copy(u64 d, u64 s, u64 n) {
    if (!n || d == s) return true;
    if (d < s || d >= s + n) {
      u64 i = 0;
      while (i < n) {
        u64 so = (s + i) & (PGSIZE - 1), dof = (d + i) & (PGSIZE - 1);
        u64 k = std::min(n - i, std::min(PGSIZE - so, PGSIZE - dof));
        Page *sp = rd(s + i); if (!sp && region(s + i) < 0) return false;
        Page *dp = wr(d + i); if (!dp) return false;
        sp = rd(s + i);
        if (d + i < s + i && d + i + k > s + i && sp == dp) { // overlapping forward within a page
          for (u64 j = 0; j < k; j++) { Val b; if (!getByte(s + i + j, b)) return false; setByte(d + i + j, b); }
        } else {
          if (dp->nsym) for (u64 j = 0; j < k; j++) if (dp->sym[dof + j]) { dp->sym[dof + j] = nullptr; dp->nsym--; }
          if (sp) memmove(dp->data + dof, sp->data + so, k); else memset(dp->data + dof, 0, k);
          if (sp && sp->nsym) for (u64 j = 0; j < k; j++) if (sp->sym[so + j]) setByte(d + i + j, Val{sp->sym[so + j], 0});
        }
        i += k;
      }
      return true;
    }
    for (u64 i = n; i-- > 0;) { Val b; if (!getByte(s + i, b)) return false; if (!setByte(d + i, b)) return false; }
    return true;
  }
  bool fill(u64 d, const Val &v, u64 n) {
    if (v.e) { for (u64 i = 0; i < n; i++) if (!setByte(d + i, v)) return false; return true; }
    u64 i = 0;
    while (i < n) { u64 dof = (d + i) & (PGSIZE - 1); u64 k = std::min(n - i, PGSIZE - dof); Page *dp = wr(d + i); if (!dp) return false;
      if (dp->nsym) for (u64 j = 0; j < k; j++) if (dp->sym[dof + j]) { dp->sym[dof + j] = nullptr; dp->nsym--; }
      memset(dp->data + dof, (int)v.v, k); i += k; }
    return true;
  }
};
