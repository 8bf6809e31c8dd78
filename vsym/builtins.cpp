#include "engine.hpp"
#include <math.h>
#include <cstring>
#define B(n) static int n(Engine &g, State &s, const Inst &I)
static unsigned W0(const Inst &I) { return I.x->argW[0]; }
static Val lane(Engine &g, State &s, const Inst &I, int a, int l) { return g.opnd(s, I.x->args[a], l); }
static void retL(State &s, const Inst &I, int l, const Val &v) { if (I.dst >= 0) s.regs[s.frames.back().base + I.dst + l] = v; }
B(b_nop) { return ST_NEXT; }
B(b_ret0) { for (int l = 0; l < I.x->retN; l++) retL(s, I, l, CV(0)); return ST_NEXT; }
B(b_ret1) { g.ret(s, I, CV(1)); return ST_NEXT; }
B(b_retm1) { g.ret(s, I, CV(mask64(I.x->retW))); return ST_NEXT; }
B(b_expect) { g.ret(s, I, g.arg(s, I, 0)); return ST_NEXT; }
static int memerr(Engine &g, State &s, const char *w, u64 a) { char b[80]; snprintf(b, 80, "invalid %s at 0x%llx", w, (unsigned long long)a); g.violation(s, "memory", b); return ST_END; }
B(b_memcpy) { u64 d, c, n; g.argC(s, I, 2, n); g.argC(s, I, 0, d); g.argC(s, I, 1, c); if (n && !s.mem.copy(d, c, n)) return memerr(g, s, "memcpy", d); g.ret(s, I, CV(d)); return ST_NEXT; }
B(b_memset) { u64 d, n; g.argC(s, I, 2, n); g.argC(s, I, 0, d); Val v = g.arg(s, I, 1); unsigned w = I.x->argW[1]; if (v.e) { if (w > 8) v = fromE(X.extract(v.e, 0, 8)); } else v.v &= 255; if (n && !s.mem.fill(d, v, n)) return memerr(g, s, "memset", d); g.ret(s, I, CV(d)); return ST_NEXT; }
B(b_minmax) {
  const std::string &n = I.x->name; bool mx = n.find("max") != std::string::npos, sg = n[5] == 's'; unsigned w = W0(I);
  for (int l = 0; l < I.x->retN; l++) { Val a = lane(g, s, I, 0, l), b = lane(g, s, I, 1, l);
    if (!a.e && !b.e) { bool lt = sg ? sx(a.v, w) < sx(b.v, w) : a.v < b.v; retL(s, I, l, (lt != mx) ? a : b); }
    else { E x = toE(a, w), y = toE(b, w); E lt = X.bin(sg ? K_SLT : K_ULT, x, y); retL(s, I, l, fromE(mx ? X.ite(lt, y, x) : X.ite(lt, x, y))); } }
  return ST_NEXT; }
B(b_abs) { unsigned w = W0(I); E x = toE(g.arg(s, I, 0), w); g.ret(s, I, fromE(X.ite(X.bin(K_SLT, x, X.constant(0, w)), X.bin(K_SUB, X.constant(0, w), x), x))); return ST_NEXT; }
B(b_ctpop) { unsigned w = W0(I); for (int l = 0; l < I.x->retN; l++) { Val a = lane(g, s, I, 0, l); if (!a.e) { retL(s, I, l, CV(__builtin_popcountll(a.v))); continue; } E r = X.constant(0, w); for (unsigned i = 0; i < w; i++) r = X.bin(K_ADD, r, X.zext(X.extract(a.e, i, 1), w)); retL(s, I, l, fromE(r)); } return ST_NEXT; }
B(b_cttz) { unsigned w = W0(I); for (int l = 0; l < I.x->retN; l++) { Val a = lane(g, s, I, 0, l); if (!a.e) { retL(s, I, l, CV(a.v ? __builtin_ctzll(a.v) : w)); continue; } E r = X.constant(w, w); for (int i = w - 1; i >= 0; i--) r = X.ite(X.extract(a.e, i, 1), X.constant(i, w), r); retL(s, I, l, fromE(r)); } return ST_NEXT; }
B(b_ctlz) { unsigned w = W0(I); for (int l = 0; l < I.x->retN; l++) { Val a = lane(g, s, I, 0, l); if (!a.e) { retL(s, I, l, CV(a.v ? __builtin_clzll(a.v) - (64 - w) : w)); continue; } E r = X.constant(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(a.e, i, 1), X.constant(w - 1 - i, w), r); retL(s, I, l, fromE(r)); } return ST_NEXT; }
B(b_loadrel) { u64 p, o; g.argC(s, I, 0, p); g.argC(s, I, 1, o); Val v; if (!s.mem.load(p + o, 32, v)) return memerr(g, s, "load.relative", p); if (v.e) engineError("symbolic load.relative"); g.ret(s, I, CV(p + (u64)(int64_t)(int32_t)v.v)); return ST_NEXT; }
B(b_bswap) { unsigned w = W0(I); for (int l = 0; l < I.x->retN; l++) { E a = toE(lane(g, s, I, 0, l), w); E r = X.extract(a, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = X.concat(r, X.extract(a, 8 * i, 8)); retL(s, I, l, fromE(r)); } return ST_NEXT; }
B(b_bitreverse) { unsigned w = W0(I); E a = toE(g.arg(s, I, 0), w); E r = X.extract(a, 0, 1); for (unsigned i = 1; i < w; i++) r = X.concat(r, X.extract(a, i, 1)); g.ret(s, I, fromE(r)); return ST_NEXT; }
B(b_fsh) { bool left = I.x->name.find("fshl") != std::string::npos; unsigned w = W0(I);
  for (int l = 0; l < I.x->retN; l++) { Val a = lane(g, s, I, 0, l), b = lane(g, s, I, 1, l), c = lane(g, s, I, 2, l); if (c.e) g.concretize(s, c, w); unsigned k = c.v % w; if (!k) { retL(s, I, l, left ? a : b); continue; } if (!left) k = w - k; // fshr(a,b,k) = fshl(a,b,w-k)
    E x = toE(a, w), y = toE(b, w); retL(s, I, l, fromE(X.concat(X.extract(x, 0, w - k), X.extract(y, w - k, k)))); }
  return ST_NEXT; }
B(b_ovf) {
  const std::string &n = I.x->name; bool sg = n[5] == 's'; unsigned w = W0(I); Val a = g.arg(s, I, 0), b = g.arg(s, I, 1); std::string o = n.substr(6, 3);
  if (!a.e && !b.e && w <= 64) {
    if (!sg) { u128 r = o == "add" ? (u128)a.v + b.v : o == "sub" ? (u128)a.v - b.v : (u128)a.v * b.v; retL(s, I, 0, CV((u64)r & mask64(w))); retL(s, I, 1, CV((r & ~maskw(w)) != 0)); }
    else { i128 x = sx(a.v, w), y = sx(b.v, w); i128 r = o == "add" ? x + y : o == "sub" ? x - y : x * y; u64 t = (u64)r & mask64(w); retL(s, I, 0, CV(t)); retL(s, I, 1, CV(sx(t, w) != r)); }
    return ST_NEXT; }
  E x = toE(a, w), y = toE(b, w); E r, ov;
  if (o == "add") { r = X.bin(K_ADD, x, y); if (!sg) ov = X.bin(K_ULT, r, x); else { E sxx = X.extract(x, w - 1, 1), sy = X.extract(y, w - 1, 1), sr = X.extract(r, w - 1, 1); ov = X.bin(K_AND, X.notE(X.bin(K_XOR, sxx, sy)), X.bin(K_XOR, sxx, sr)); } }
  else if (o == "sub") { r = X.bin(K_SUB, x, y); if (!sg) ov = X.bin(K_ULT, x, y); else { E sxx = X.extract(x, w - 1, 1), sy = X.extract(y, w - 1, 1), sr = X.extract(r, w - 1, 1); ov = X.bin(K_AND, X.bin(K_XOR, sxx, sy), X.bin(K_XOR, sxx, sr)); } }
  else { if (w > 64) { // concrete only
      if (x->isConst() && y->isConst() && !sg) { u128 p = x->cval(), q = y->cval(); u128 m = (p * q) & maskw(w); bool of = p && (p * q / p != q || (p * q) != m); retL(s, I, 0, Val{X.constant(m, w), 0}); retL(s, I, 1, CV(of)); return ST_NEXT; } engineError("mul overflow width %u", w); }
    unsigned W = 2 * w; E xx = sg ? X.sext(x, W) : X.zext(x, W), yy = sg ? X.sext(y, W) : X.zext(y, W); E p = X.bin(K_MUL, xx, yy); r = X.bin(K_MUL, x, y); 
    if (!sg && (y->isConst() || x->isConst())) { E c = x->isConst() ? x : y, v = x->isConst() ? y : x; if (!c->cval()) ov = X.fls(); else ov = X.bin(K_ULT, X.constant(maskw(w) / c->cval(), w), v); }
    else ov = X.notE(X.bin(K_EQ, p, sg ? X.sext(r, W) : X.zext(r, W))); }
  retL(s, I, 0, fromE(r)); retL(s, I, 1, fromE(ov)); return ST_NEXT; }
B(b_sat) {
  const std::string &n = I.x->name; bool sg = n[5] == 's'; unsigned w = W0(I); std::string o = n.substr(6, 3);
  for (int l = 0; l < I.x->retN; l++) { E x = toE(lane(g, s, I, 0, l), w), y = toE(lane(g, s, I, 1, l), w); E r; if (sg) { // one bit more never overflows
      E wide = X.bin(o == "add" ? K_ADD : K_SUB, X.sext(x, w + 1), X.sext(y, w + 1)), t = X.extract(wide, 0, w), top = X.constant(maskw(w) >> 1, w), bot = X.constant((u128)1 << (w - 1), w);
      r = X.ite(X.bin(K_EQ, X.sext(t, w + 1), wide), t, X.ite(X.bin(K_SLT, wide, X.constant(0, w + 1)), bot, top)); }
    else if (o == "add") { E t = X.bin(K_ADD, x, y); r = X.ite(X.bin(K_ULT, t, x), X.constant(maskw(w), w), t); } else r = X.ite(X.bin(K_ULT, x, y), X.constant(0, w), X.bin(K_SUB, x, y)); retL(s, I, l, fromE(r)); }
  return ST_NEXT; }
B(b_movmsk) { unsigned n = I.x->argN[0], w = W0(I); E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = X.extract(toE(lane(g, s, I, 0, i), w), w - 1, 1); r = r ? X.concat(b, r) : b; } g.ret(s, I, fromE(X.zext(r, I.x->retW))); return ST_NEXT; }
B(b_vreduce) {
  const std::string &n = I.x->name; std::string o = n.substr(19); o = o.substr(0, o.find('.')); unsigned w = W0(I); E r = toE(lane(g, s, I, 0, 0), w);
  for (unsigned i = 1; i < I.x->argN[0]; i++) { E y = toE(lane(g, s, I, 0, i), w); if (o == "or") r = X.bin(K_OR, r, y); else if (o == "and") r = X.bin(K_AND, r, y); else if (o == "xor") r = X.bin(K_XOR, r, y); else if (o == "add") r = X.bin(K_ADD, r, y); else if (o == "umax") r = X.ite(X.bin(K_ULT, r, y), y, r); else if (o == "umin") r = X.ite(X.bin(K_ULT, y, r), y, r); else engineError("vector reduce %s", n.c_str()); }
  g.ret(s, I, fromE(r)); return ST_NEXT; }
B(b_trap) { g.violation(s, "abort", "trap"); return ST_END; }
B(b_stacksave) { g.ret(s, I, CV(s.sp)); return ST_NEXT; }
B(b_float1) { const std::string &n = I.x->name; Val v = g.arg(s, I, 0); if (v.e) engineError("symbolic float"); unsigned w = W0(I); double d; if (w == 64) memcpy(&d, &v.v, 8); else { float f; u32 x = v.v; memcpy(&f, &x, 4); d = f; }
  if (n.find("floor") != std::string::npos) d = floor(d); else if (n.find("ceil") != std::string::npos) d = ceil(d); else if (n.find("trunc") != std::string::npos) d = trunc(d); else if (n.find("fabs") != std::string::npos) d = fabs(d); else if (n.find("rint") != std::string::npos || n.find("nearbyint") != std::string::npos) d = nearbyint(d); else d = round(d);
  u64 r = 0; if (w == 64) memcpy(&r, &d, 8); else { float f = d; u32 x; memcpy(&x, &f, 4); r = x; } g.ret(s, I, CV(r)); return ST_NEXT; }
B(b_fptosat) { bool sg = I.x->name.find("fptosi") != std::string::npos; Val v = g.arg(s, I, 0); if (v.e) engineError("symbolic float"); unsigned w = W0(I), rw = I.x->retW; double d; if (w == 64) memcpy(&d, &v.v, 8); else { float f; u32 x = v.v; memcpy(&f, &x, 4); d = f; }
  u64 r; if (isnan(d)) r = 0; else if (sg) { double lim = ldexp(1, rw - 1); r = d >= lim ? (mask64(rw) >> 1) : d < -lim ? (1ull << (rw - 1)) : (u64)(int64_t)d & mask64(rw); } else { double lim = ldexp(1, rw); r = d >= lim ? mask64(rw) : d <= 0 ? 0 : (u64)d; } g.ret(s, I, CV(r)); return ST_NEXT; }
// ---------------------------------------------------------------- libc
static E bytesEq(State &s, u64 a, u64 b, u64 n) { E r = X.tru(); for (u64 i = 0; i < n; i++) { Val x, y; if (!s.mem.getByte(a + i, x) || !s.mem.getByte(b + i, y)) return nullptr; if (!x.e && !y.e) { if (x.v != y.v) return X.fls(); continue; } r = X.bin(K_AND, r, X.bin(K_EQ, toE(x, 8), toE(y, 8))); if (r->isConst() && !r->lo) return r; } return r; }
B(b_bcmp) { u64 a, b, n; g.argC(s, I, 2, n); g.argC(s, I, 0, a); g.argC(s, I, 1, b); E e = bytesEq(s, a, b, n); if (!e) return memerr(g, s, "bcmp", a); g.ret(s, I, fromE(X.ite(e, X.constant(0, 32), X.constant(1, 32)))); return ST_NEXT; }
B(b_memcmp) { u64 a, b, n; g.argC(s, I, 2, n); g.argC(s, I, 0, a); g.argC(s, I, 1, b); E r = X.constant(0, 32);
  for (u64 i = n; i-- > 0;) { Val x, y; if (!s.mem.getByte(a + i, x) || !s.mem.getByte(b + i, y)) return memerr(g, s, "memcmp", a); E ex = toE(x, 8), ey = toE(y, 8); r = X.ite(X.bin(K_EQ, ex, ey), r, X.ite(X.bin(K_ULT, ex, ey), X.constant(0xffffffff, 32), X.constant(1, 32))); }
  g.ret(s, I, fromE(r)); return ST_NEXT; }
B(b_strlen) { u64 a; g.argC(s, I, 0, a); for (u64 i = 0;; i++) { Val v; if (!s.mem.getByte(a + i, v)) return memerr(g, s, "strlen", a); if (v.e) { g.concretize(s, v, 8); s.mem.setByte(a + i, v); } if (!v.v) { g.ret(s, I, CV(i)); return ST_NEXT; } if (i > 1000000) engineError("strlen"); } }
B(b_memchr) { u64 a, n; Val c = g.arg(s, I, 1); g.argC(s, I, 0, a); g.argC(s, I, 2, n); bool rev = I.x->name == "memrchr"; E cc = X.extract(toE(c, I.x->argW[1]), 0, 8); 
  for (u64 k = 0; k < n; k++) { u64 i = rev ? n - 1 - k : k; Val v; if (!s.mem.getByte(a + i, v)) return memerr(g, s, "memchr", a); Val e = fromE(X.bin(K_EQ, toE(v, 8), cc)); if (e.e) g.concretize(s, e, 1); if (e.v) { g.ret(s, I, CV(a + i)); return ST_NEXT; } }
  g.ret(s, I, CV(0)); return ST_NEXT; }
// the environment starts empty
static std::string envName(Engine &g, State &s, u64 a) { std::string r; for (u64 i = 0; i < 4096; i++) { Val v; if (!s.mem.getByte(a + i, v)) engineError("name at bad address"); if (v.e) { g.concretize(s, v, 8); s.mem.setByte(a + i, v); } if (!v.v) return r; r += (char)v.v; } engineError("name too long"); return r; }
B(b_getenv) { u64 a; g.argC(s, I, 0, a); auto it = s.env.find(envName(g, s, a)); g.ret(s, I, CV(it == s.env.end() ? 0 : it->second)); return ST_NEXT; }
B(b_setenv) { u64 a, b; g.argC(s, I, 0, a); g.argC(s, I, 1, b); std::string n = envName(g, s, a), v = envName(g, s, b); u64 p = heapAlloc(s, v.size() + 1, 1); for (size_t i = 0; i <= v.size(); i++) s.mem.setByte(p + i, CV(i < v.size() ? (u8)v[i] : 0)); s.env[n] = p; g.ret(s, I, CV(0)); return ST_NEXT; }
B(b_unsetenv) { u64 a; g.argC(s, I, 0, a); s.env.erase(envName(g, s, a)); g.ret(s, I, CV(0)); return ST_NEXT; }
B(b_malloc) { u64 n; g.argC(s, I, 0, n); if (n > (1ull << 30)) { g.ret(s, I, CV(0)); return ST_NEXT; } g.ret(s, I, CV(heapAlloc(s, n, 16))); return ST_NEXT; }
B(b_calloc) { u64 n, m; g.argC(s, I, 0, n); g.argC(s, I, 1, m); if ((u128)n * m > (1ull << 30)) { g.ret(s, I, CV(0)); return ST_NEXT; } g.ret(s, I, CV(heapAlloc(s, n * m, 16))); return ST_NEXT; }
B(b_realloc) { u64 p, n; g.argC(s, I, 0, p); g.argC(s, I, 1, n); if (n > (1ull << 30)) { g.ret(s, I, CV(0)); return ST_NEXT; } Val o = CV(0); if (p) s.mem.load(p - 8, 64, o); if (p && n <= o.v) { g.ret(s, I, CV(p)); return ST_NEXT; }
  if (p && p + o.v == s.heap) { s.heap = p + n; s.mem.store(p - 8, 64, CV(n)); g.ret(s, I, CV(p)); return ST_NEXT; }
  u64 a = heapAlloc(s, n, 16); if (p) s.mem.copy(a, p, std::min(o.v, n)); g.ret(s, I, CV(a)); return ST_NEXT; }
B(b_memalign) { u64 pp, al, n; g.argC(s, I, 0, pp); g.argC(s, I, 1, al); g.argC(s, I, 2, n); u64 a = heapAlloc(s, n, al); s.mem.store(pp, 64, CV(a)); g.ret(s, I, CV(0)); return ST_NEXT; }
B(r_alloc) { u64 n, al; g.argC(s, I, 0, n); g.argC(s, I, 1, al); if (n > (1ull << 30)) { g.ret(s, I, CV(0)); return ST_NEXT; } g.ret(s, I, CV(heapAlloc(s, n, al < 16 ? 16 : al))); return ST_NEXT; }
B(r_realloc) { u64 p, o, al, n; g.argC(s, I, 0, p); g.argC(s, I, 1, o); g.argC(s, I, 2, al); g.argC(s, I, 3, n); if (n > (1ull << 30)) { g.ret(s, I, CV(0)); return ST_NEXT; }
  if (n <= o) { g.ret(s, I, CV(p)); return ST_NEXT; }
  if (p + o == s.heap) { s.heap = p + n; s.mem.store(p - 8, 64, CV(n)); g.ret(s, I, CV(p)); return ST_NEXT; }
  u64 a = heapAlloc(s, n, al < 16 ? 16 : al); s.mem.copy(a, p, std::min(o, n)); g.ret(s, I, CV(a)); return ST_NEXT; }
static u64 errnoAddr(State &s) { auto it = P.globalAddr.find("__vsym_errno"); if (it != P.globalAddr.end()) return it->second; return R_STACK + 0x100; }
void setErrno(State &s, int e) { s.mem.store(errnoAddr(s), 32, CV(e)); }
B(b_errno) { g.ret(s, I, CV(errnoAddr(s))); return ST_NEXT; }
B(b_abort) { if (s.panicOk) { g.st.panicsAllowed++; g.endPath(s, "abort"); return ST_END; } g.violation(s, "abort", I.x->name); return ST_END; }
static u64 tlsCell(u64 key) { return R_HEAP + (key & 0xffffffff) * 16; }
B(b_keycreate) { u64 p; g.argC(s, I, 0, p); u64 c = heapAlloc(s, 16, 16); s.mem.store(c, 64, CV(0)); s.mem.store(p, 32, CV((c - R_HEAP) / 16)); g.ret(s, I, CV(0)); return ST_NEXT; }
B(b_getspecific) { u64 k; g.argC(s, I, 0, k); Val v; s.mem.load(tlsCell(k), 64, v); g.ret(s, I, v); return ST_NEXT; }
B(b_setspecific) { u64 k; g.argC(s, I, 0, k); s.mem.store(tlsCell(k), 64, g.arg(s, I, 1)); g.ret(s, I, CV(0)); return ST_NEXT; }
// the monotonic clock advances by a nanosecond per instruction, so that harnesses can bound running time
// wall clock: set by the harness and advanced by sleeping; monotonic clock: also one nanosecond per executed instruction
B(b_clock) { u64 id, p; g.argC(s, I, 0, id); g.argC(s, I, 1, p); u64 ns = s.clockNs + (id == 1 ? s.steps : 0); s.mem.store(p, 64, CV(ns / 1000000000)); s.mem.store(p + 8, 64, CV(ns % 1000000000)); g.ret(s, I, CV(0)); return ST_NEXT; }
B(b_setclock) { u64 t; g.argC(s, I, 0, t); s.clockNs = t * 1000000000ull; return ST_NEXT; }
B(b_sleep) { u64 p; g.argC(s, I, 0, p); Val a = CV(0), b = CV(0); s.mem.load(p, 64, a); s.mem.load(p + 8, 64, b); if (a.e || b.e) engineError("symbolic sleep"); s.clockNs += a.v * 1000000000ull + b.v; g.ret(s, I, CV(0)); return ST_NEXT; }
B(b_syscall) { u64 nr; g.argC(s, I, 0, nr); if (nr == 318) { u64 p, n; g.argC(s, I, 1, p); g.argC(s, I, 2, n); for (u64 i = 0; i < n; i++) s.mem.setByte(p + i, CV((0x5a + 31 * ++s.rngCounter) & 255)); g.ret(s, I, CV(n)); return ST_NEXT; }
  if (nr == 202) { g.ret(s, I, CV(0)); return ST_NEXT; } // futex
  if (nr == 186) { g.ret(s, I, CV(4242)); return ST_NEXT; } // gettid
  setErrno(s, 38); g.ret(s, I, CV(~0ull)); return ST_NEXT; }
B(b_sysconf) { g.ret(s, I, CV(4096)); return ST_NEXT; }
B(b_getpid) { g.ret(s, I, CV(4242)); return ST_NEXT; }
B(b_enosys) { setErrno(s, 38); g.ret(s, I, CV(mask64(I.x->retW))); return ST_NEXT; }
// ---------------------------------------------------------------- panics
B(b_panic) {
  std::string nm = I.x->name == "<indirect>" ? "indirect" : I.x->callee->pretty; std::string fn = nm; size_t d = fn.find('$'); if (d != std::string::npos) fn = fn.substr(d + 1); size_t e = fn.rfind('$'); if (e != std::string::npos) fn = fn.substr(0, e);
  std::string loc = "?", msg; int n = I.x->args.size();
  auto inG = [&](u64 p) { return p > R_GLOBAL && p < P.globalEnd; };
  for (int i = n - 1; i >= 0 && i >= n - 2; i--) { Val a = g.arg(s, I, i); if (a.e || !inG(a.v)) continue; Val p, l, ln; if (!s.mem.load(a.v, 64, p) || !s.mem.load(a.v + 8, 64, l) || !s.mem.load(a.v + 16, 32, ln)) continue; if (p.e || l.e || !inG(p.v) || l.v > 300) continue; bool sym; std::string file = g.readStr(s, p.v, l.v, sym); if (file.find(".rs") == std::string::npos) continue; loc = file + ":" + std::to_string(ln.v); break; }
  if (n >= 2) { Val p = g.arg(s, I, 0), l = g.arg(s, I, 1); if (!p.e && !l.e && inG(p.v) && l.v < 200 && (fn == "core::panicking::panic" || fn == "core::result::unwrap_failed" || fn == "core::option::expect_failed" || fn.find("panicking::panic_str") != std::string::npos)) { bool sym; msg = g.readStr(s, p.v, l.v, sym); } }
  if (s.panicOk) { g.st.panicsAllowed++; g.endPath(s, "panic"); return ST_END; }
  g.violation(s, "panic", fn + " " + msg + " @ " + loc); return ST_END; }
// ---------------------------------------------------------------- harness interface
static std::string rd(Engine &g, State &s, const Inst &I, int p, int l) { u64 a, n; g.argC(s, I, p, a); g.argC(s, I, l, n); bool sym; return g.readStr(s, a, n, sym); }
B(v_bytes) { u64 p, n; g.argC(s, I, 0, p); g.argC(s, I, 1, n); std::string nm = rd(g, s, I, 2, 3); u32 st = s.doms.size(); for (u64 i = 0; i < n; i++) { s.doms.push_back(Dom::full()); s.model.push_back(0x61); s.multi.push_back(false); s.mem.setByte(p + i, Val{X.var(st + i), 0}); } s.regions.push_back({nm, st, (u32)n}); return ST_NEXT; }
B(v_assume) { Val c = g.arg(s, I, 0); if (!c.e) { if (c.v & 1) return ST_NEXT; g.st.pathsAssumed++; return ST_END; } E e = X.extract(c.e, 0, 1); int d = g.decide(s, e); if (d == 0) { g.st.pathsAssumed++; return ST_END; } if (d == 2) g.assume(s, e); return ST_NEXT; }
B(v_assert) { Val c = g.arg(s, I, 0); std::string id = rd(g, s, I, 1, 2); g.st.asserts++; if (!c.e) { if (c.v & 1) return ST_NEXT; g.violation(s, "assert", id); return ST_END; }
  g.st.assertsSym++; E e = X.extract(c.e, 0, 1); int d = g.decide(s, e); if (d == 1) return ST_NEXT; g.violation(s, "assert", id, X.notE(e)); if (d == 0) return ST_END; g.assume(s, e); return ST_NEXT; }
B(v_reach) { std::string id = rd(g, s, I, 0, 1); g.reach[id]++; return ST_NEXT; }
B(v_log) { std::string id = rd(g, s, I, 0, 1); s.log.push_back({id, g.arg(s, I, 2)}); return ST_NEXT; }
B(v_concretize) { Val v = g.arg(s, I, 0); if (v.e) { g.concretize(s, v, I.x->argW[0]); g.setOpnd(s, I.x->args[0], v); } g.ret(s, I, v); return ST_NEXT; }
B(v_param) { std::string n = rd(g, s, I, 0, 1); u64 d; g.argC(s, I, 2, d); auto it = g.params.find(n); g.ret(s, I, CV(it == g.params.end() ? d : it->second)); return ST_NEXT; }
B(v_panicok) { u64 d; g.argC(s, I, 0, d); s.panicOk = d != 0; return ST_NEXT; }
B(v_end) { g.endPath(s, "end"); return ST_END; }
B(v_native) { g.ret(s, I, CV(0)); return ST_NEXT; }
B(v_dump) { std::string n = rd(g, s, I, 0, 1); Val v = g.arg(s, I, 2); fprintf(stderr, "[dump] %s = %s\n", n.c_str(), v.e ? showE(v.e, 12).c_str() : std::to_string(v.v).c_str()); return ST_NEXT; }
Builtin fsBuiltin(const std::string &n);

Builtin findBuiltin(const std::string &n, const std::string &pretty) {
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("vsym_panic$")) return b_panic;
  if (pre("llvm.")) {
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return b_memcpy; if (pre("llvm.memset")) return b_memset;
    if (pre("llvm.umax") || pre("llvm.umin") || pre("llvm.smax") || pre("llvm.smin")) return b_minmax; if (pre("llvm.abs")) return b_abs;
    if (pre("llvm.ctpop")) return b_ctpop; if (pre("llvm.cttz")) return b_cttz; if (pre("llvm.ctlz")) return b_ctlz; if (pre("llvm.bswap")) return b_bswap; if (pre("llvm.load.relative")) return b_loadrel; if (pre("llvm.bitreverse")) return b_bitreverse;
    if (pre("llvm.fshl") || pre("llvm.fshr")) return b_fsh; if (n.find(".with.overflow") != std::string::npos) return b_ovf;
    if (pre("llvm.uadd.sat") || pre("llvm.usub.sat") || pre("llvm.sadd.sat") || pre("llvm.ssub.sat")) return b_sat;
    if (n.find("pmovmskb") != std::string::npos || n.find("movmsk") != std::string::npos) return b_movmsk; if (pre("llvm.vector.reduce.")) return b_vreduce;
    if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return b_trap; if (pre("llvm.stacksave")) return b_stacksave;
    if (pre("llvm.expect") || pre("llvm.threadlocal.address") || pre("llvm.launder") || pre("llvm.strip") || pre("llvm.ssa.copy")) return b_expect;
    if (pre("llvm.floor") || pre("llvm.ceil") || pre("llvm.trunc") || pre("llvm.fabs") || pre("llvm.round") || pre("llvm.rint") || pre("llvm.nearbyint")) return b_float1;
    if (pre("llvm.fptoui.sat") || pre("llvm.fptosi.sat")) return b_fptosat; if (pre("llvm.is.constant")) return b_ret0; if (pre("llvm.objectsize")) return b_retm1;
    if (pre("llvm.lifetime") || pre("llvm.assume") || pre("llvm.dbg") || pre("llvm.experimental.noalias") || pre("llvm.prefetch") || pre("llvm.x86.sse2.pause") || pre("llvm.stackrestore") || pre("llvm.sideeffect") || pre("llvm.donothing") || pre("llvm.invariant") || pre("llvm.va_end") || pre("llvm.x86.sse2.mfence") || pre("llvm.x86.sse2.lfence")) return b_nop;
    return nullptr;
  }
  if (pre("asm:")) { if (n == "asm:") return b_nop; if (n.find("cpuid") != std::string::npos) return b_ret0; if (n.find("rdtsc") != std::string::npos) return b_ret0; return nullptr; }
  static const std::map<std::string, Builtin> t = {
    {"vsym_bytes", v_bytes}, {"vsym_assume", v_assume}, {"vsym_assert", v_assert}, {"vsym_reach", v_reach}, {"vsym_log", v_log}, {"vsym_concretize", v_concretize}, {"vsym_param", v_param}, {"vsym_panic_ok", v_panicok}, {"vsym_end", v_end}, {"vsym_native", v_native}, {"vsym_dump", v_dump},
    {"bcmp", b_bcmp}, {"memcmp", b_memcmp}, {"strlen", b_strlen}, {"memchr", b_memchr}, {"memrchr", b_memchr}, {"memcpy", b_memcpy}, {"memmove", b_memcpy}, {"memset", b_memset},
    {"malloc", b_malloc}, {"__rust_alloc", r_alloc}, {"__rust_alloc_zeroed", r_alloc}, {"__rust_realloc", r_realloc}, {"__rust_dealloc", b_nop}, {"calloc", b_calloc}, {"realloc", b_realloc}, {"posix_memalign", b_memalign}, {"free", b_nop},
    {"__errno_location", b_errno}, {"abort", b_abort}, {"exit", b_abort}, {"_exit", b_abort}, {"getenv", b_getenv}, {"setenv", b_setenv}, {"unsetenv", b_unsetenv}, {"clock_gettime", b_clock}, {"nanosleep", b_sleep}, {"vsym_clock", b_setclock}, {"syscall", b_syscall}, {"sysconf", b_sysconf}, {"getpid", b_getpid}, {"getauxval", b_ret0},
    {"pthread_self", b_ret1}, {"pthread_key_create", b_keycreate}, {"pthread_key_delete", b_ret0}, {"pthread_getspecific", b_getspecific}, {"pthread_setspecific", b_setspecific}, {"__cxa_thread_atexit_impl", b_ret0}, {"sched_yield", b_ret0}, {"dlsym", b_ret0}, {"getuid", b_ret0},
    {"pthread_mutex_lock", b_ret0}, {"pthread_mutex_unlock", b_ret0}, {"pthread_mutexattr_init", b_ret0}, {"pthread_mutexattr_settype", b_ret0}, {"pthread_mutex_init", b_ret0}, {"pthread_mutexattr_destroy", b_ret0}, {"pthread_mutex_destroy", b_ret0}, {"__xpg_strerror_r", b_ret0}, {"atexit", b_ret0}, {"signal", b_ret0}, {"sigaction", b_ret0}, {"isatty", b_ret0}, {"dl_iterate_phdr", b_ret0}, {"_Unwind_Backtrace", b_ret0}, {"_Unwind_GetIP", b_ret0},
  };
  auto it = t.find(n); if (it != t.end()) return it->second;
  if (Builtin b = fsBuiltin(n)) return b;
  return nullptr;
}
