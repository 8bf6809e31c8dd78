#include "engine.hpp"
#include <stdarg.h>
#include <math.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <fstream>
#include <sstream>
#include <iostream>
ExprCtx X; Engine G;
struct Shared { std::atomic<int> slots, err, seq, viol; std::atomic<u64> paths; char msg[2048]; };
static Shared *SH; static int myId = 0; static State *curState;
[[noreturn]] void engineError(const char *fmt, ...) {
  char b[1800]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  std::string s = b; static bool rec = false; if (curState && !rec && !P.funcs.empty()) { rec = true; s += "\n  at " + G.stackOf(*curState); }
  fprintf(stderr, "[vsym] ENGINE ERROR: %s\n", s.c_str()); fflush(stderr);
  if (SH) { SH->err = 1; strncpy(SH->msg, s.c_str(), sizeof SH->msg - 1); }
  _exit(4);
}
std::string jsonEsc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
std::string showE(E e, int d) {
  static const char *nm[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "not"};
  char b[64];
  if (e->kind == K_CONST) { snprintf(b, 64, "%llu:%d", (unsigned long long)e->lo, e->width); return b; }
  if (e->kind == K_VAR) { snprintf(b, 64, "b%llu", (unsigned long long)e->lo); return b; }
  if (d == 0) return "..";
  std::string r = std::string("(") + nm[e->kind]; if (e->kind == K_EXTRACT) { snprintf(b, 64, "[%llu+%d]", (unsigned long long)e->lo, e->width); r += b; }
  if (e->a) r += " " + showE(e->a, d - 1); if (e->b) r += " " + showE(e->b, d - 1); if (e->c) r += " " + showE(e->c, d - 1); return r + ")";
}
std::string Engine::stackOf(State &s) { std::string r; int k = 0; for (size_t i = s.frames.size(); i-- > 0;) { if (k++) r += " < "; r += s.frames[i].f->pretty; if (k > 25) { r += " ..."; break; } } return r; }
std::string Engine::posyFrame(State &s) { for (size_t i = s.frames.size(); i-- > 0;) { auto &p = s.frames[i].f->pretty; if (p.find("posy_sym::") != std::string::npos && p.find("posy_sym::verif") == std::string::npos) return p; } return s.frames.empty() ? "" : s.frames[0].f->pretty; }
Val Engine::opnd(State &s, int i, int lane) { const Frame &f = s.frames.back(); if (i >= 0) return s.regs[f.base + i + lane]; return f.f->consts[~i + lane]; }
static std::map<std::string, u64> forkSites;
static void dumpForks() { std::vector<std::pair<u64, std::string>> v; for (auto &f : forkSites) v.push_back({f.second, f.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 12; i++) fprintf(stderr, "FORK %llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); }
State *Engine::clone(State &s) { static bool prof = getenv("VSYM_PROF"); if (prof) { if (forkSites.empty()) atexit(dumpForks); std::string t; for (size_t i = 0; i < s.frames.size() && i < 5; i++) { auto &f = s.frames[s.frames.size() - 1 - i]; t += f.f->pretty.substr(0, 60) + "@" + std::to_string(f.pc) + " < "; } forkSites[t]++; } State *n = new State(s); n->id = nextState++; if (s.fs) { } st.forks++; return n; }
static int concDepth = 0;
bool Engine::concretize(State &s, Val &v, unsigned w) {
  if (!v.e) return true;
  if (v.e->isConst()) { v = fromE(v.e); return true; }
  X.gen++; u128 cv = X.eval(v.e, s.model.data()); E c = X.bin(K_EQ, v.e, X.constant(cv, w)); int d = decide(s, c);
  if (d == 0) engineError("concretize: model value infeasible");
  if (d == 2) { State *o = clone(s); if (++o->choices > 100000) engineError("too many concretisations"); E nc = X.notE(c); assume(*o, nc); work.push_back(o); assume(s, c); }
  v = w <= 64 ? CV((u64)cv) : Val{X.constant(cv, w), 0};
  return true;
}
bool Engine::argC(State &s, const Inst &I, int i, u64 &out) { Val v = arg(s, I, i); if (v.e) { unsigned w = I.x->argW[i]; concretize(s, v, w); setOpnd(s, I.x->args[i], v); } out = v.v; return true; }
int Engine::resolve(State &s, Val &a) { if (a.e) concretize(s, a, 64); return 0; }

// ---- memory access with a possibly symbolic address
static Val badMem(State &s, u64 a, const char *what);
static bool collectLeaves(E e, E cond, std::vector<std::pair<E, u64>> &out, int max) {
  if (e->isConst()) { out.push_back({cond, e->lo}); return (int)out.size() <= max; }
  if (e->kind == K_ITE) return collectLeaves(e->b, e->a, out, max) && collectLeaves(e->c, X.notE(e->a), out, max);
  return false;
}
static bool iteLoad(State &s, E e, unsigned w, E &out) {
  if (e->isConst()) { Val v; if (!s.mem.load(e->lo, w, v)) return false; out = toE(v, w); return true; }
  E t, f; if (!iteLoad(s, e->b, w, t) || !iteLoad(s, e->c, w, f)) return false; out = X.ite(e->a, t, f); return true;
}
// base + (small index over several input bytes) * 2^k: a table lookup
static bool tableLoad(State &s, E addr, unsigned w, Val &out) {
  E f = addr->a, g = nullptr; u64 base = addr->b->lo; unsigned sh = 0;
  if (f->kind == K_ZEXT) f = f->a;
  if (f->kind == K_CONCAT && f->b->isConst() && !f->b->cval()) { sh = f->b->width; f = f->a; if (f->kind == K_ZEXT) f = f->a; }
  g = f; if (g->width > 8 || g->isConst() || sh > 6) return false;
  std::vector<E> vals; unsigned n = 1u << g->width; int lo = -1, hi = -1;
  for (unsigned i = 0; i < n; i++) { Val x; bool ok = s.mem.load(base + ((u64)i << sh), w, x); if (ok) { if (lo < 0) lo = i; else if (hi != (int)i - 1) return false; hi = i; vals.push_back(toE(x, w)); } }
  if (lo < 0) return false;
  if (lo > 0 && G.decide(s, X.bin(K_ULE, X.constant(lo, g->width), g)) != 1) return false;
  if (hi < (int)n - 1 && G.decide(s, X.bin(K_ULE, g, X.constant(hi, g->width))) != 1) return false;
  struct Run { unsigned lo, hi; E val; bool aff; u64 base, step; }; std::vector<Run> runs;
  for (int i = lo; i <= hi; i++) { E xe = vals[i - lo];
    if (!runs.empty()) { Run &l = runs.back(); if (l.val == xe && !l.aff) { l.hi = i; continue; }
      if (xe->isConst() && w >= g->width) {
        if (l.aff && ((l.base + l.step * i) & mask64(w)) == xe->lo) { l.hi = i; continue; }
        if (!l.aff && l.lo == l.hi && l.val->isConst()) { l.aff = true; l.step = (xe->lo - l.val->lo) & mask64(w); l.base = (l.val->lo - l.step * l.lo) & mask64(w); l.hi = i; continue; } } }
    runs.push_back({(unsigned)i, (unsigned)i, xe, false, 0, 0}); if (runs.size() > 64) return false; }
  E res = nullptr;
  for (size_t i = runs.size(); i-- > 0;) { E x = runs[i].aff ? X.bin(K_ADD, X.bin(K_MUL, X.zext(g, w), X.constant(runs[i].step, w)), X.constant(runs[i].base, w)) : runs[i].val; if (!res) res = x; else res = X.ite(X.bin(K_ULE, g, X.constant(runs[i].hi, g->width)), x, res); }
  out = fromE(res); return true;
}
Val Engine::loadVal(State &s, Val &addr, unsigned w, int &rc) {
  Val r; rc = ST_NEXT;
  if (!addr.e) { if (!s.mem.load(addr.v, w, r)) { rc = ST_END; badMem(s, addr.v, "load"); } return r; }
  u32 ev[2]; int n = effVars(s, addr.e, ev, 1);
  if (n == 0) { addr = CV(evalU(s, addr.e)); return loadVal(s, addr, w, rc); }
  if (n == 1 && w <= 64) {
    u32 v = ev[0]; Dom &d = s.doms[v]; u8 save = s.model[v]; struct Run { unsigned lo, hi; E val; bool aff; u64 base; }; std::vector<Run> runs; bool ok = true;
    for (unsigned i = 0; i < 256 && ok; i++) if (d.has(i)) {
      s.model[v] = i; X.gen++; u64 a = (u64)X.eval(addr.e, s.model.data()); Val x; if (!s.mem.load(a, w, x)) { s.model[v] = save; X.gen++; 
        // an out-of-range address for some value: fork it off
        concretize(s, addr, 64); return loadVal(s, addr, w, rc); }
      E xe = toE(x, w);
      if (!runs.empty()) { Run &l = runs.back(); if (l.val == xe && !l.aff) { l.hi = i; continue; }
        if (xe->isConst() && w >= 8) { u64 diff = (xe->lo - i) & mask64(w); if (l.aff && l.base == diff) { l.hi = i; continue; } if (!l.aff && l.lo == l.hi && l.val->isConst() && ((l.val->lo - l.lo) & mask64(w)) == diff && l.hi + 1 == i) { l.aff = true; l.base = diff; l.hi = i; continue; } } }
      runs.push_back({i, i, xe, false, 0}); if (runs.size() > 64) ok = false;
    }
    s.model[v] = save; X.gen++;
    if (ok) {
      E res = nullptr; E var = X.var(v);
      auto rv = [&](Run &q) -> E { if (!q.aff) return q.val; return X.bin(K_ADD, X.zext(var, w), X.constant(q.base, w)); };
      // group equal values: build from the last run
      for (size_t i = runs.size(); i-- > 0;) { E x = rv(runs[i]); if (!res) res = x; else res = X.ite(X.bin(K_ULE, var, X.constant(runs[i].hi, 8)), x, res); }
      return fromE(res);
    }
  }
  if (w <= 64 && addr.e->kind == K_ADD && addr.e->b->isConst() && tableLoad(s, addr.e, w, r)) return r;
  else if (n > 1 && w <= 64 && addr.e->kind == K_ITE && ExprCtx::constLeaves(addr.e, 48) <= 48) { E out; if (iteLoad(s, addr.e, w, out)) return fromE(out); }
  if (getenv("VSYM_PROF")) fprintf(stderr, "CONC w%u %s\n", w, showE(addr.e, 8).c_str());
  concretize(s, addr, 64); return loadVal(s, addr, w, rc);
}
static Val badMem(State &s, u64 a, const char *what) { char b[100]; snprintf(b, 100, "invalid %s at 0x%llx", what, (unsigned long long)a); G.violation(s, "memory", b); return CV(0); }

std::string Engine::readStr(State &s, u64 p, u64 n, bool &sym) { std::string r; sym = false; for (u64 i = 0; i < n; i++) { Val v; if (!s.mem.getByte(p + i, v)) return r; if (v.e) { sym = true; r += (char)evalU(s, v.e); } else r += (char)v.v; } return r; }
void Engine::modelJson(State &s, const std::vector<u8> &m, std::string &out) {
  out += "\"inputs\":["; bool f = true; for (auto &r : s.regions) { if (!f) out += ","; f = false; out += "[\"" + jsonEsc(r.name) + "\",\""; char b[4]; for (u32 i = 0; i < r.len; i++) { snprintf(b, 4, "%02x", m[r.start + i]); out += b; } out += "\"]"; } out += "]";
  out += ",\"params\":{"; f = true; for (auto &p : params) { if (!f) out += ","; f = false; out += "\"" + p.first + "\":" + std::to_string(p.second); } out += "}";
}
void Engine::violation(State &s, const std::string &kind, const std::string &id, E cond) {
  std::string key = kind + "|" + id; int &c = violCount[key]; c++; SH->viol++;
  if (c > maxViol) return;
  std::vector<u8> m = s.model; if (cond) { if (!feasible(s, cond, &m)) engineError("violation infeasible"); }
  std::string j = "{\"entry\":\"" + entry + "\",\"kind\":\"" + kind + "\",\"id\":\"" + jsonEsc(id) + "\",\"stack\":\"" + jsonEsc(stackOf(s)) + "\",";
  modelJson(s, m, j); j += ",\"log\":["; X.gen++; bool f = true; for (auto &l : s.log) { if (!f) j += ","; f = false; j += "[\"" + jsonEsc(l.tag) + "\"," + std::to_string((u64)(l.v.e ? X.eval(l.v.e, m.data()) : l.v.v)) + "]"; } X.gen++; j += "]}"; violations.push_back(j);
}
void Engine::endPath(State &s, const char *why) {
  (void)why; st.paths++; 
  if (st.paths >= nextSample && samples.size() < 24) {
    nextSample = st.paths * 3 / 2 + 1; std::string j = "{\"entry\":\"" + entry + "\","; modelJson(s, s.model, j); j += ",\"log\":["; X.gen++; bool f = true;
    for (auto &l : s.log) { if (!f) j += ","; f = false; j += "[\"" + jsonEsc(l.tag) + "\"," + std::to_string((u64)(l.v.e ? X.eval(l.v.e, s.model.data()) : l.v.v)) + "]"; } X.gen++;
    j += "],\"end\":\"" + std::string(why) + "\"}"; samples.push_back(j);
  }
}
u64 heapAlloc(State &s, u64 n, u64 al) {
  if (al < 16) al = 16; u64 a = (s.heap + 16 + al - 1) / al * al; s.mem.store(a - 8, 64, CV(n)); s.heap = a + n; if (s.heap > R_HEAP + (2500ull << 20)) engineError("heap exhausted"); return a;
}
static inline void takeEdge(State &s, const Edge &e) {
  Frame &f = s.frames.back();
  size_t np = e.phis.size();
  if (np) {
    if (np == 1) { auto &p = e.phis[0]; if (p.n == 1) { s.regs[f.base + p.dst] = p.src >= 0 ? s.regs[f.base + p.src] : f.f->consts[~p.src]; f.pc = e.target; return; } }
    static std::vector<Val> tmp; tmp.clear();
    for (auto &p : e.phis) for (int i = 0; i < p.n; i++) tmp.push_back(p.src >= 0 ? s.regs[f.base + p.src + i] : f.f->consts[~p.src + i]);
    size_t k = 0; for (auto &p : e.phis) for (int i = 0; i < p.n; i++) s.regs[f.base + p.dst + i] = tmp[k++];
  }
  f.pc = e.target;
}
void Engine::call(State &s, FuncInfo *f, const Inst &I) {
  decodeFunction(f); f->calls++;
  if (s.frames.size() > 3000) engineError("stack overflow (3000 frames)");
  Frame fr; fr.f = f; fr.pc = 0; fr.base = s.regs.size(); fr.sp = s.sp; fr.call = &I;
  size_t nb = fr.base + f->nslots; 
  if (I.x->args.size() < f->argSlot.size()) engineError("too few args calling %s", f->pretty.c_str());
  u32 cb = s.frames.back().base; auto &cc = s.frames.back().f->consts; s.regs.resize(nb, CV(0));
  for (size_t i = 0; i < f->argSlot.size(); i++) {
    int a = I.x->args[i];
    if (I.x->byval[i]) { u64 sz = I.x->byval[i]; u64 dst = (s.sp + 15) & ~15ull; s.sp = dst + sz; Val p = a >= 0 ? s.regs[cb + a] : cc[~a]; s.mem.copy(dst, p.v, sz); s.regs[fr.base + f->argSlot[i]] = CV(dst); continue; }
    for (unsigned k = 0; k < f->argN[i]; k++) s.regs[fr.base + f->argSlot[i] + k] = a >= 0 ? s.regs[cb + a + k] : cc[~a + k];
  }
  s.frames.push_back(fr);
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static double fget(const Val &v, unsigned w) { if (v.e) engineError("symbolic floating point"); if (w == 64) return asD(v.v); float f; u32 x = v.v; memcpy(&f, &x, 4); return f; }
static Val fput(double d, unsigned w) { if (w == 64) return CV(fromD(d)); float f = (float)d; u32 x; memcpy(&x, &f, 4); return CV(x); }
static inline u64 binC(u8 k, u64 a, u64 b, unsigned w, bool &ok) {
  u64 m = mask64(w); ok = true;
  switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m; case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_UDIV: if (!b) { ok = false; return 0; } return a / b; case K_UREM: if (!b) { ok = false; return 0; } return a % b;
    default: return (u64)ExprCtx::foldBin((Kind)k, a, b, w);
  }
}
static inline bool cmpC(unsigned p, u64 a, u64 b, unsigned w) {
  switch (p) { case 0: return a == b; case 1: return a != b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b; }
  int64_t x = (int64_t)sx(a, w), y = (int64_t)sx(b, w);
  switch (p) { case 6: return x > y; case 7: return x >= y; case 8: return x < y; case 9: return x <= y; } return false;
}
static E cmpE(unsigned p, E a, E b) {
  switch (p) { case 0: return X.bin(K_EQ, a, b); case 1: return X.notE(X.bin(K_EQ, a, b)); case 2: return X.bin(K_ULT, b, a); case 3: return X.bin(K_ULE, b, a); case 4: return X.bin(K_ULT, a, b); case 5: return X.bin(K_ULE, a, b);
    case 6: return X.bin(K_SLT, b, a); case 7: return X.bin(K_SLE, b, a); case 8: return X.bin(K_SLT, a, b); case 9: return X.bin(K_SLE, a, b); } abort();
}
// executes until the path ends; returns when state is finished (deleted by the caller)
void Engine::runState(State *sp) {
  State &s = *sp; curState = sp; const u64 steps0 = s.steps;
  for (;;) {
    Frame &f = s.frames.back(); const Inst &I = f.f->code[f.pc];
    Val *R = &s.regs[f.base]; const Val *C = f.f->consts.data();
    auto O = [&](int i, int l = 0) -> const Val & { return i >= 0 ? R[i + l] : C[~i + l]; };
    s.steps++;
    switch (I.op) {
      case O_NOP: f.pc++; break;
      case O_BIN: {
        for (unsigned l = 0; l < I.n; l++) { const Val &a = O(I.a, l), &b = O(I.b, l);
          if (!a.e && !b.e) { bool ok; u64 r = binC(I.sub, a.v, b.v, I.w, ok); if (!ok) { violation(s, "ub", "division by zero"); goto dead; } R[I.dst + l] = CV(r); }
          else R[I.dst + l] = fromE(X.bin((Kind)I.sub, toE(a, I.w), toE(b, I.w))); }
        f.pc++; break; }
      case O_ICMP: {
        for (unsigned l = 0; l < I.n; l++) { const Val &a = O(I.a, l), &b = O(I.b, l);
          if (!a.e && !b.e) R[I.dst + l] = CV(cmpC(I.sub, a.v, b.v, I.w)); else R[I.dst + l] = fromE(cmpE(I.sub, toE(a, I.w), toE(b, I.w))); }
        f.pc++; break; }
      case O_TRUNC: for (unsigned l = 0; l < I.n; l++) { const Val &a = O(I.a, l); R[I.dst + l] = a.e ? fromE(X.extract(a.e, 0, I.w)) : CV(a.v & mask64(I.w)); } f.pc++; break;
      case O_ZEXT: for (unsigned l = 0; l < I.n; l++) { const Val &a = O(I.a, l); if (a.e || I.w > 64) R[I.dst + l] = fromE(X.zext(toE(a, I.w2), I.w)); else R[I.dst + l] = a; } f.pc++; break;
      case O_SEXT: for (unsigned l = 0; l < I.n; l++) { const Val &a = O(I.a, l); if (a.e || I.w > 64) R[I.dst + l] = fromE(X.sext(toE(a, I.w2), I.w)); else R[I.dst + l] = CV((u64)sx(a.v, I.w2) & mask64(I.w)); } f.pc++; break;
      case O_COPY: for (unsigned l = 0; l < I.n; l++) R[I.dst + l] = O(I.a, l); f.pc++; break;
      case O_BITCAST: {
        // imm lanes of w2 bits -> n lanes of w bits
        unsigned n1 = I.imm, w1 = I.w2, n2 = I.n, w2 = I.w; Val out[128];
        if (n1 < n2) { unsigned k = n2 / n1; for (unsigned i = 0; i < n1; i++) { const Val &a = O(I.a, i); for (unsigned j = 0; j < k; j++) out[i * k + j] = (a.e || w1 > 64) ? fromE(X.extract(toE(a, w1), j * w2, w2)) : CV((a.v >> (j * w2)) & mask64(w2)); } }
        else { unsigned k = n1 / n2; for (unsigned i = 0; i < n2; i++) { E acc = toE(O(I.a, i * k), w1); for (unsigned j = 1; j < k; j++) acc = X.concat(toE(O(I.a, i * k + j), w1), acc); out[i] = fromE(acc); } }
        for (unsigned i = 0; i < n2; i++) R[I.dst + i] = out[i]; f.pc++; break; }
      case O_SELECT: {
        if (I.imm == 1) {
          Val c = O(I.a);
          if (c.e) { bool same = true, ptr = false; for (unsigned l = 0; l < I.n; l++) { const Val &x = O(I.b, l), &y = O(I.c, l); if (x.e != y.e || x.v != y.v) { same = false; if (I.x->leaves[l].ptr || I.x->leaves[l].fp) ptr = true; } }
            if (same) c = CV(1);
            else { int d = 2; if (ptr || I.n > 4) d = decide(s, c.e); 
              if (d != 2) c = CV(d);
              else if (ptr || I.n > 4) { State *o = clone(s); assume(*o, X.notE(c.e)); work.push_back(o); assume(s, c.e); c = CV(1); } } }
          if (!c.e) { for (unsigned l = 0; l < I.n; l++) R[I.dst + l] = c.v ? O(I.b, l) : O(I.c, l); }
          else for (unsigned l = 0; l < I.n; l++) { unsigned w = I.x->leaves[l].w; R[I.dst + l] = fromE(X.ite(c.e, toE(O(I.b, l), w), toE(O(I.c, l), w))); }
        } else for (unsigned l = 0; l < I.n; l++) { const Val &c = O(I.a, l); unsigned w = I.x->leaves[l].w; if (!c.e) R[I.dst + l] = c.v ? O(I.b, l) : O(I.c, l); else R[I.dst + l] = fromE(X.ite(c.e, toE(O(I.b, l), w), toE(O(I.c, l), w))); }
        f.pc++; break; }
      case O_LOAD: {
        Val a = O(I.a); int rc;
        if (I.imm) { Val v = loadVal(s, a, I.w * I.n, rc); if (rc) goto dead; R = &s.regs[f.base]; for (unsigned l = 0; l < I.n; l++) R[I.dst + l] = v.e ? fromE(X.extract(v.e, l * I.w, I.w)) : CV((v.v >> (l * I.w)) & mask64(I.w)); f.pc++; break; }
        if (I.n == 1) { u64 r; if (!a.e && I.w <= 64 && s.mem.loadConc(a.v, (I.w + 7) / 8, r)) { R[I.dst] = CV(r & mask64(I.w)); f.pc++; break; } bool wasSym = a.e; Val v = loadVal(s, a, I.w, rc); if (rc) goto dead; if (wasSym && !a.e) setOpnd(s, I.a, a); s.regs[f.base + I.dst] = v; }
        else { if (a.e) { concretize(s, a, 64); setOpnd(s, I.a, a); } for (unsigned l = 0; l < I.n; l++) { Val la = CV(a.v + I.x->leaves[l].off); Val v = loadVal(s, la, I.x->leaves[l].w, rc); if (rc) goto dead; s.regs[f.base + I.dst + l] = v; } }
        f.pc++; break; }
      case O_STORE: {
        Val a = O(I.a); if (a.e) { concretize(s, a, 64); setOpnd(s, I.a, a); }
        bool ok = true;
        if (I.imm) { Val v; E acc = toE(O(I.b, 0), I.w); for (unsigned l = 1; l < I.n; l++) acc = X.concat(toE(O(I.b, l), I.w), acc); v = fromE(acc); ok = s.mem.store(a.v, I.w * I.n, v); }
        else if (I.n == 1) ok = s.mem.store(a.v, I.w, O(I.b)); else for (unsigned l = 0; l < I.n; l++) ok = ok && s.mem.store(a.v + I.x->leaves[l].off, I.x->leaves[l].w, O(I.b, l));
        if (!ok) { badMem(s, a.v, "store"); goto dead; }
        f.pc++; break; }
      case O_ALLOCA: { Val n = O(I.a); if (n.e) concretize(s, n, 64); u64 al = std::max<u64>(I.b, 16); u64 a = (s.sp + al - 1) / al * al; s.sp = a + I.imm * n.v; if (s.sp > R_STACK + (300ull << 20)) engineError("stack exhausted"); R[I.dst] = CV(a); f.pc++; break; }
      case O_GEP: {
        Val base = O(I.a); u64 off = I.imm; E se = base.e; if (!se) off += base.v;
        for (auto &t : I.x->terms) { const Val &v = O(t.op); if (!v.e) off += (u64)sx(v.v, t.w) * t.scale; else { E x = t.w < 64 ? X.sext(v.e, 64) : t.w > 64 ? X.extract(v.e, 0, 64) : v.e; x = X.bin(K_MUL, x, X.constant(t.scale, 64)); se = se ? X.bin(K_ADD, se, x) : x; } }
        R[I.dst] = se ? fromE(X.bin(K_ADD, se, X.constant(off, 64))) : CV(off); f.pc++; break; }
      case O_JMP: takeEdge(s, I.x->edges[0]); break;
      case O_BR: {
        Val c = O(I.a);
        if (!c.e) { takeEdge(s, I.x->edges[c.v ? 0 : 1]); break; }
        int d = decide(s, c.e);
        if (d == 2) { State *o = clone(s); assume(*o, X.notE(c.e)); if (I.a >= 0) o->regs[f.base + I.a] = CV(0); takeEdge(*o, I.x->edges[1]); work.push_back(o); assume(s, c.e); if (I.a >= 0) s.regs[f.base + I.a] = CV(1); takeEdge(s, I.x->edges[0]); }
        else { if (I.a >= 0) R[I.a] = CV(d); takeEdge(s, I.x->edges[d ? 0 : 1]); }
        break; }
      case O_SWITCH: {
        Val v = O(I.a);
        if (v.e) { // fork per distinct successor
          u32 ev[2]; int n = effVars(s, v.e, ev, 1);
          if (n == 0) { v = CV(evalU(s, v.e)); }
          else {
            X.gen++; u64 cv = (u64)X.eval(v.e, s.model.data()); u32 ei = 0; for (auto &c : I.x->cases) if (c.first == cv) { ei = c.second; break; }
            E cond = ei == 0 ? X.tru() : X.fls();
            if (ei == 0) { for (auto &c : I.x->cases) if (c.second != 0) cond = X.bin(K_AND, cond, X.notE(X.bin(K_EQ, v.e, X.constant(c.first, I.w)))); }
            else for (auto &c : I.x->cases) if (c.second == ei) cond = X.bin(K_OR, cond, X.bin(K_EQ, v.e, X.constant(c.first, I.w)));
            int d = decide(s, cond); if (d == 2) { State *o = clone(s); assume(*o, X.notE(cond)); work.push_back(o); assume(s, cond); } else if (d == 0) engineError("switch model");
            takeEdge(s, I.x->edges[ei]); break;
          }
        }
        u32 ei = 0; for (auto &c : I.x->cases) if (c.first == v.v) { ei = c.second; break; }
        takeEdge(s, I.x->edges[ei]); break; }
      case O_RET: {
        const Inst *ci = f.call; Frame done = f; 
        if (s.frames.size() == 1) { // entry returned
          extern bool procReturn(State &s, const Val &rv); if (!s.groups.empty()) { Val r = I.n ? O(I.a, 0) : CV(0); if (!procReturn(s, r)) goto dead2; break; }
          endPath(s, "return"); goto dead2; }
        Val rv[64]; unsigned n = I.n; if (n > 64) engineError("ret too wide"); for (unsigned l = 0; l < n; l++) rv[l] = O(I.a, l);
        s.sp = done.sp; s.frames.pop_back(); s.regs.resize(done.base); Frame &c = s.frames.back();
        if (!ci) { // special frame: resume hook, the result is delivered by the caller's pc
          engineError("return without a call"); }
        if (ci->dst >= 0) for (unsigned l = 0; l < n; l++) s.regs[c.base + ci->dst + l] = rv[l];
        if (!ci->x->edges.empty()) takeEdge(s, ci->x->edges[0]); else c.pc++;
        break; }
      case O_UNREACHABLE: violation(s, "ub", "reached unreachable in " + f.f->pretty); goto dead;
      case O_CALL: {
        Ext *x = I.x; FuncInfo *cf = x->callee;
        if (!cf && !x->builtin) {
          if (x->name == "<indirect>") { Val a = O(I.a); if (a.e) { concretize(s, a, 64); setOpnd(s, I.a, a); } auto it = P.byAddr.find(a.v); if (it == P.byAddr.end()) { char b[64]; snprintf(b, 64, "call of 0x%llx", (unsigned long long)a.v); violation(s, "memory", b); goto dead; } cf = it->second; }
          else engineError("unsupported %s", x->name.c_str());
        }
        Builtin bi = x->builtin; if (!bi && cf->isDecl) { if (!cf->builtin) { cf->builtin = findBuiltin(cf->name, cf->pretty); } bi = cf->builtin; if (!bi) engineError("call of unmodelled external %s", cf->pretty.c_str()); }
        if (bi) {
          int rc = bi(*this, s, I);
          if (rc == ST_NEXT) { Frame &g = s.frames.back(); if (!x->edges.empty()) takeEdge(s, x->edges[0]); else g.pc++; }
          else if (rc == ST_END) goto dead;
          break; // RETRY and JUMPED: continue the loop
        }
        call(s, cf, I); break; }
      case O_EXTELT: { Val ix = O(I.b); if (ix.e) concretize(s, ix, I.w); if (ix.v >= I.n) R[I.dst] = CV(0); else R[I.dst] = O(I.a, ix.v); f.pc++; break; }
      case O_INSELT: { Val ix = O(I.c); if (ix.e) concretize(s, ix, I.w); Val v = O(I.b); for (unsigned l = 0; l < I.n; l++) R[I.dst + l] = O(I.a, l); if (ix.v < I.n) R[I.dst + ix.v] = v; f.pc++; break; }
      case O_SHUFFLE: { Val out[128]; unsigned k = 0; for (int m : I.x->shuf) { out[k++] = m < 0 ? CV(0) : m < I.n ? O(I.a, m) : O(I.b, m - I.n); } for (unsigned i = 0; i < k; i++) R[I.dst + i] = out[i]; f.pc++; break; }
      case O_INSVAL: { Val tmp[64]; for (unsigned l = 0; l < I.w2; l++) tmp[l] = O(I.b, l); for (unsigned l = 0; l < I.n; l++) R[I.dst + l] = O(I.a, l); for (unsigned l = 0; l < I.w2; l++) R[I.dst + I.w + l] = tmp[l]; f.pc++; break; }
      case O_RMW: {
        Val a = O(I.a); if (a.e) { concretize(s, a, 64); setOpnd(s, I.a, a); } int rc; Val old = loadVal(s, a, I.w, rc); if (rc) goto dead; Val b = O(I.b); Val nw;
        auto bb = [&](Kind k) { return fromE(X.bin(k, toE(old, I.w), toE(b, I.w))); };
        switch (I.sub) { case 0: nw = b; break; case 1: nw = bb(K_ADD); break; case 2: nw = bb(K_SUB); break; case 3: nw = bb(K_AND); break; case 4: nw = fromE(X.bin(K_XOR, bb(K_AND).e ? bb(K_AND).e : X.constant(bb(K_AND).v, I.w), X.constant(~(u128)0, I.w))); break; case 5: nw = bb(K_OR); break; case 6: nw = bb(K_XOR); break;
          case 9: nw = fromE(X.ite(X.bin(K_ULT, toE(old, I.w), toE(b, I.w)), toE(b, I.w), toE(old, I.w))); break; case 10: nw = fromE(X.ite(X.bin(K_ULT, toE(old, I.w), toE(b, I.w)), toE(old, I.w), toE(b, I.w))); break; default: engineError("atomicrmw %d", I.sub); }
        if (!s.mem.store(a.v, I.w, nw)) { badMem(s, a.v, "rmw"); goto dead; } s.regs[f.base + I.dst] = old; f.pc++; break; }
      case O_CMPXCHG: {
        Val a = O(I.a); if (a.e) { concretize(s, a, 64); setOpnd(s, I.a, a); } int rc; Val old = loadVal(s, a, I.w, rc); if (rc) goto dead; E eq = X.bin(K_EQ, toE(old, I.w), toE(O(I.b), I.w)); Val ev = fromE(eq); if (ev.e) concretize(s, ev, 1);
        if (ev.v) s.mem.store(a.v, I.w, O(I.c)); s.regs[f.base + I.dst] = old; s.regs[f.base + I.dst + 1] = ev; f.pc++; break; }
      case O_FBIN: for (unsigned l = 0; l < I.n; l++) { double a = fget(O(I.a, l), I.w), b = fget(O(I.b, l), I.w), r = 0; switch (I.sub) { case 0: r = a + b; break; case 1: r = a - b; break; case 2: r = a * b; break; case 3: r = a / b; break; case 4: r = fmod(a, b); break; } R[I.dst + l] = fput(I.w == 32 ? (float)r : r, I.w); } f.pc++; break;
      case O_FNEG: for (unsigned l = 0; l < I.n; l++) R[I.dst + l] = fput(-fget(O(I.a, l), I.w), I.w); f.pc++; break;
      case O_FCMP: for (unsigned l = 0; l < I.n; l++) { double a = fget(O(I.a, l), I.w), b = fget(O(I.b, l), I.w); bool un = isnan(a) || isnan(b); bool r = false; unsigned p = I.sub; if (un) r = p & 8; else if (a == b) r = p & 1; else if (a > b) r = p & 2; else r = p & 4; R[I.dst + l] = CV(r); } f.pc++; break;
      case O_FPCAST: for (unsigned l = 0; l < I.n; l++) { const Val &v = O(I.a, l); if (v.e) engineError("symbolic fp cast");
          switch (I.sub) { case 41: /*FPToUI*/ { double d = fget(v, I.w2); R[I.dst + l] = CV((u64)d & mask64(I.w)); break; } case 42: { double d = fget(v, I.w2); R[I.dst + l] = CV((u64)(int64_t)d & mask64(I.w)); break; }
            case 43: R[I.dst + l] = fput((double)v.v, I.w); break; case 44: R[I.dst + l] = fput((double)(int64_t)sx(v.v, I.w2), I.w); break; case 45: case 46: R[I.dst + l] = fput(fget(v, I.w2), I.w); break; default: engineError("fpcast %d", I.sub); } } f.pc++; break;
      case O_LANDINGPAD: case O_RESUME: engineError("landing pad reached");
    }
    if ((s.steps & 0xfffff) == 0) { if (deadline && nowSec() > deadline) { addIncomplete("time limit"); goto dead2; } if (s.steps > maxSteps) engineError("step limit on one path"); }
    continue;
  dead: st.paths += 0;
  dead2: st.steps += s.steps - steps0; curState = nullptr; return;
  }
}
void Engine::run() {
  while (!work.empty()) {
    if (deadline && nowSec() > deadline) { addIncomplete("time limit"); break; }
    if (SH->err) break;
    if (work.size() >= 2 && SH->slots > 0) {
      int v = SH->slots.fetch_sub(1);
      if (v <= 0) SH->slots++;
      else {
        fflush(stdout); fflush(stderr); int pid = fork();
        if (pid == 0) {
          myId = ++SH->seq; std::vector<State *> mine; for (size_t i = 0; i < work.size(); i += 2) mine.push_back(work[i]); // oldest first
          work.swap(mine); st = Stats(); violations.clear(); samples.clear(); reach.clear(); violCount.clear(); events.clear(); nextSample = 1; for (auto &f : P.byAddr) f.second->calls = 0;
        } else if (pid > 0) { std::vector<State *> mine; for (size_t i = 0; i < work.size(); i++) if (i % 2 == 0) delete work[i]; else mine.push_back(work[i]); work.swap(mine); }
        else { SH->slots++; }
      }
    }
    State *s = work.back(); work.pop_back(); runState(s); delete s;
  }
}
static void dumpResults(const std::string &file) {
  std::ofstream o(file); Stats &t = G.st;
#define D(x) o << "S\t" #x "\t" << t.x << "\n";
  D(paths) D(pathsAssumed) D(steps) D(forks) D(smt) D(smtSat) D(smtUnsat) D(cacheHits) D(domDec) D(modelHits) D(asserts) D(assertsSym) D(assertTrivial) D(xcheck) D(panicsAllowed) D(smtTime)
  for (auto &r : G.reach) o << "R\t" << r.first << "\t" << r.second << "\n";
  for (auto &v : G.violations) o << "V\t" << v << "\n";
  for (auto &v : G.violCount) o << "C\t" << v.first << "\t" << v.second << "\n";
  for (auto &v : G.samples) o << "M\t" << v << "\n";
  for (auto &v : G.events) o << "E\t" << v.first << "\t" << v.second << "\n";
  for (auto &f : P.byAddr) if (f.second->calls) o << "F\t" << f.second->pretty << "\t" << f.second->calls << "\n";
  if (G.incomplete) o << "I\t" << G.incompleteWhy << "\n";
}
int main(int argc, char **argv) {
  if (argc > 1 && !strcmp(argv[1], "prep")) return prepMain(argc - 2, argv + 2);
  extern int selftest(u64 seed); if (argc > 1 && !strcmp(argv[1], "selftest")) return selftest(argc > 2 ? atoll(argv[2]) : 1);
  if (argc < 3 || strcmp(argv[1], "run")) { fprintf(stderr, "usage: vsym prep IN OUT ... | vsym run BC --entry f --out DIR [--param k=v] [--jobs n] [--time s]\n"); return 2; }
  std::string bc = argv[2]; int jobs = 8; double tl = 600;
  for (int i = 3; i < argc; i++) { std::string a = argv[i];
    if (a == "--entry") G.entry = argv[++i]; else if (a == "--out") G.outDir = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--time") tl = atof(argv[++i]);
    else if (a == "--param") { std::string p = argv[++i]; size_t q = p.find('='); G.params[p.substr(0, q)] = strtoull(p.c_str() + q + 1, 0, 0); } else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared(); SH->slots = jobs - 1;
  double t0 = nowSec(); G.deadline = t0 + tl;
  loadProgram(bc.c_str()); 
  auto it = P.funcs.find(G.entry); if (it == P.funcs.end() || it->second->isDecl) { fprintf(stderr, "[vsym] no entry %s\n", G.entry.c_str()); return 4; }
  State *s = new State(); for (int i = 0; i < 3; i++) { s->mem.reg[i] = P.image.reg[i]; for (auto c : s->mem.reg[i]) if (c) c->ref++; }
  s->sp = R_STACK + 0x1000; s->heap = R_HEAP + 0x1000; decodeFunction(it->second); it->second->calls++;
  Frame f; f.f = it->second; f.pc = 0; f.base = 0; f.sp = s->sp; f.call = nullptr; s->regs.resize(it->second->nslots, CV(0)); s->frames.push_back(f);
  double tLoad = nowSec() - t0;
  G.work.push_back(s); G.run();
  int me = myId; std::string rf = G.outDir + "/part." + std::to_string(me); dumpResults(rf);
  SH->slots++; int st; while (wait(&st) > 0) if (!WIFEXITED(st) || WEXITSTATUS(st)) { SH->err = 1; if (!SH->msg[0]) snprintf(SH->msg, 100, "worker died (status %d)", st); }
  if (me != 0) _exit(0);
  // merge
  std::map<std::string, double> S; std::map<std::string, u64> R, F, C, EV; std::vector<std::string> V, M; std::string inc;
  for (int i = 0; i <= SH->seq; i++) { std::ifstream in(G.outDir + "/part." + std::to_string(i)); std::string l; while (std::getline(in, l)) { char k = l[0]; std::string rest = l.substr(2); size_t t = rest.rfind('\t');
      if (k == 'S') S[rest.substr(0, t)] += atof(rest.c_str() + t + 1); else if (k == 'R') R[rest.substr(0, t)] += atoll(rest.c_str() + t + 1); else if (k == 'F') F[rest.substr(0, t)] += atoll(rest.c_str() + t + 1); else if (k == 'C') C[rest.substr(0, t)] += atoll(rest.c_str() + t + 1); else if (k == 'E') EV[rest.substr(0, t)] += atoll(rest.c_str() + t + 1);
      else if (k == 'V') V.push_back(rest); else if (k == 'M') M.push_back(rest); else if (k == 'I') inc = rest; } unlink((G.outDir + "/part." + std::to_string(i)).c_str()); }
  std::ofstream o(G.outDir + "/result.json"); o.precision(15); o << "{\"entry\":\"" << G.entry << "\",\"params\":{"; bool ff = true; for (auto &p : G.params) { o << (ff ? "" : ",") << "\"" << p.first << "\":" << p.second; ff = false; }
  o << "},\"error\":" << (SH->err ? "\"" + jsonEsc(SH->msg) + "\"" : "null") << ",\"incomplete\":" << (inc.empty() ? "null" : "\"" + inc + "\"") << ",\"workers\":" << SH->seq + 1 << ",\"load_s\":" << tLoad << ",\"wall_s\":" << nowSec() - t0 << ",\"stats\":{"; ff = true;
  for (auto &p : S) { o << (ff ? "" : ",") << "\"" << p.first << "\":" << p.second; ff = false; } o << "},\"reach\":{"; ff = true; for (auto &p : R) { o << (ff ? "" : ",") << "\"" << jsonEsc(p.first) << "\":" << p.second; ff = false; }
  o << "},\"violation_counts\":{"; ff = true; for (auto &p : C) { o << (ff ? "" : ",") << "\"" << jsonEsc(p.first) << "\":" << p.second; ff = false; } o << "},\"events\":{"; ff = true; for (auto &p : EV) { o << (ff ? "" : ",") << "\"" << jsonEsc(p.first) << "\":" << p.second; ff = false; }
  o << "},\"violations\":["; ff = true; for (auto &v : V) { o << (ff ? "" : ",") << v; ff = false; } o << "],\"samples\":["; ff = true; for (auto &v : M) { o << (ff ? "" : ",\n") << v; ff = false; }
  o << "],\"functions\":{"; ff = true; for (auto &p : F) { o << (ff ? "" : ",\n") << "\"" << jsonEsc(p.first) << "\":" << p.second; ff = false; } o << "}}\n"; o.close();
  return SH->err ? 4 : 0;
}
