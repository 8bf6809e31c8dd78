#include "engine.hpp"
#include <z3.h>
#include <time.h>
static Z3_context zc; static Z3_solver zs; static std::vector<Z3_ast> zvars;
double nowSec() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void zerr(Z3_context c, Z3_error_code e) { engineError("z3 error: %s", Z3_get_error_msg(c, e)); }
static void zinit() {
  if (zc) return; Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, zerr);
  zs = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p); Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "timeout"), (unsigned)G.solverTimeout); Z3_solver_set_params(zc, zs, p);
}
static Z3_sort bv(unsigned w) { static Z3_sort c[300]; if (!c[w]) { c[w] = Z3_mk_bv_sort(zc, w); } return c[w]; }
static Z3_ast zvar(u32 i) { while (zvars.size() <= i) { char n[32]; snprintf(n, 32, "b%zu", zvars.size()); Z3_ast a = Z3_mk_const(zc, Z3_mk_string_symbol(zc, n), bv(8)); Z3_inc_ref(zc, a); zvars.push_back(a); } return zvars[i]; }
static Z3_ast znum(u128 v, unsigned w) { if (w <= 64) return Z3_mk_unsigned_int64(zc, (u64)v, bv(w)); Z3_ast lo = Z3_mk_unsigned_int64(zc, (u64)v, bv(64)), hi = Z3_mk_unsigned_int64(zc, (u64)(v >> 64), bv(w - 64)); return Z3_mk_concat(zc, hi, lo); }
// width 1 expressions are Bool, others BV
static Z3_ast tr(E e);
static Z3_ast trBV(E e) { Z3_ast a = tr(e); if (e->width == 1) return Z3_mk_ite(zc, a, znum(1, 1), znum(0, 1)); return a; }
static Z3_ast fromBV1(Z3_ast a) { return Z3_mk_eq(zc, a, znum(1, 1)); }
static Z3_ast tr(E e) {
  if (e->z3ast) return (Z3_ast)e->z3ast;
  Z3_ast r; unsigned w = e->width;
  switch (e->kind) {
    case K_CONST: r = w == 1 ? (e->lo ? Z3_mk_true(zc) : Z3_mk_false(zc)) : znum(e->cval(), w); break;
    case K_VAR: r = zvar(e->lo); break;
    case K_ADD: r = Z3_mk_bvadd(zc, tr(e->a), tr(e->b)); break; case K_SUB: r = Z3_mk_bvsub(zc, tr(e->a), tr(e->b)); break; case K_MUL: r = Z3_mk_bvmul(zc, tr(e->a), tr(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(zc, tr(e->a), tr(e->b)); break; case K_SDIV: r = Z3_mk_bvsdiv(zc, tr(e->a), tr(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(zc, tr(e->a), tr(e->b)); break; case K_SREM: r = Z3_mk_bvsrem(zc, tr(e->a), tr(e->b)); break;
    case K_AND: if (w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(zc, 2, x); } else r = Z3_mk_bvand(zc, tr(e->a), tr(e->b)); break;
    case K_OR: if (w == 1) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(zc, 2, x); } else r = Z3_mk_bvor(zc, tr(e->a), tr(e->b)); break;
    case K_XOR: r = w == 1 ? Z3_mk_xor(zc, tr(e->a), tr(e->b)) : Z3_mk_bvxor(zc, tr(e->a), tr(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(zc, trBV(e->a), trBV(e->b)); if (w == 1) r = fromBV1(r); break; case K_LSHR: r = Z3_mk_bvlshr(zc, trBV(e->a), trBV(e->b)); if (w == 1) r = fromBV1(r); break; case K_ASHR: r = Z3_mk_bvashr(zc, trBV(e->a), trBV(e->b)); if (w == 1) r = fromBV1(r); break;
    case K_EQ: r = Z3_mk_eq(zc, tr(e->a), tr(e->b)); break;
    case K_ULT: r = Z3_mk_bvult(zc, trBV(e->a), trBV(e->b)); break; case K_ULE: r = Z3_mk_bvule(zc, trBV(e->a), trBV(e->b)); break;
    case K_SLT: r = Z3_mk_bvslt(zc, trBV(e->a), trBV(e->b)); break; case K_SLE: r = Z3_mk_bvsle(zc, trBV(e->a), trBV(e->b)); break;
    case K_ITE: r = Z3_mk_ite(zc, tr(e->a), tr(e->b), tr(e->c)); break;
    case K_CONCAT: r = Z3_mk_concat(zc, trBV(e->a), trBV(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(zc, e->lo + w - 1, e->lo, trBV(e->a)); if (w == 1) r = fromBV1(r); break;
    case K_ZEXT: r = Z3_mk_zero_ext(zc, w - e->a->width, trBV(e->a)); break; case K_SEXT: r = Z3_mk_sign_ext(zc, w - e->a->width, trBV(e->a)); break;
    case K_NOT: r = Z3_mk_not(zc, tr(e->a)); break;
    default: abort();
  }
  Z3_inc_ref(zc, r); e->z3ast = r; return r;
}
static Z3_ast domAst(u32 v, const Dom &d) {
  std::vector<Z3_ast> parts; unsigned i = 0; Z3_ast x = zvar(v);
  while (i < 256) { if (!d.has(i)) { i++; continue; } unsigned j = i; while (j + 1 < 256 && d.has(j + 1)) j++;
    if (i == j) parts.push_back(Z3_mk_eq(zc, x, znum(i, 8)));
    else { Z3_ast c[2]; int n = 0; if (i > 0) c[n++] = Z3_mk_bvuge(zc, x, znum(i, 8)); if (j < 255) c[n++] = Z3_mk_bvule(zc, x, znum(j, 8)); parts.push_back(n == 0 ? Z3_mk_true(zc) : n == 1 ? c[0] : Z3_mk_and(zc, n, c)); }
    i = j + 1; }
  if (parts.empty()) return Z3_mk_false(zc);
  return parts.size() == 1 ? parts[0] : Z3_mk_or(zc, parts.size(), parts.data());
}
struct QR { bool sat; std::vector<std::pair<u32, u8>> m; };
// the whole query is the key: a hash of it could mistake one for another
typedef std::vector<u64> QKey;
struct QH { size_t operator()(const QKey &k) const { u64 h = 0x9e3779b97f4a7c15ull; for (u64 x : k) h = ExprCtx::mix(h, x); return h; } };
static std::unordered_map<QKey, QR, QH> qcache;

static void closure(State &s, E c, std::vector<E> &cs, std::vector<u32> &vars) {
  std::vector<char> in(s.doms.size(), 0); vars = c->sup->vars; for (u32 v : vars) in[v] = 1;
  std::vector<char> used(s.cons.size(), 0); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) { bool hit = false; for (u32 v : s.cons[i]->sup->vars) if (in[v]) { hit = true; break; } if (!hit) continue; used[i] = 1; cs.push_back(s.cons[i]); for (u32 v : s.cons[i]->sup->vars) if (!in[v]) { in[v] = 1; vars.push_back(v); ch = true; } } }
  std::sort(vars.begin(), vars.end());
}
bool Engine::querySMT(State &s, E c, std::vector<u8> *model) {
  std::vector<E> cs; std::vector<u32> vars; closure(s, c, cs, vars);
  std::vector<u32> ids; for (E e : cs) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
  QKey k{c->id, ids.size()}; k.reserve(2 + ids.size() + 5 * vars.size()); for (u32 i : ids) k.push_back(i);
  for (u32 v : vars) { k.push_back(v); for (int j = 0; j < 4; j++) k.push_back(s.doms[v].b[j]); }
  auto it = qcache.find(k);
  if (it != qcache.end()) { st.cacheHits++; if (it->second.sat && model) { *model = s.model; for (auto &p : it->second.m) (*model)[p.first] = p.second; } return it->second.sat; }
  zinit(); double t0 = nowSec(); st.smt++;
  Z3_solver_push(zc, zs);
  for (u32 v : vars) if (s.doms[v].count() < 256) Z3_solver_assert(zc, zs, domAst(v, s.doms[v]));
  for (E e : cs) Z3_solver_assert(zc, zs, tr(e));
  Z3_solver_assert(zc, zs, tr(c));
  Z3_lbool r = Z3_solver_check(zc, zs); QR q; q.sat = r == Z3_L_TRUE;
  if (r == Z3_L_TRUE) {
    st.smtSat++; Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
    for (u32 v : vars) { Z3_ast o; if (!Z3_model_eval(zc, m, zvar(v), true, &o)) engineError("model eval"); unsigned x = 0; Z3_get_numeral_uint(zc, o, &x); q.m.push_back({v, (u8)x}); }
    Z3_model_dec_ref(zc, m);
  } else if (r == Z3_L_FALSE) st.smtUnsat++;
  double dt = nowSec() - t0; st.smtTime += dt;
  if (r == Z3_L_UNDEF) { Z3_solver_pop(zc, zs, 1); engineError("solver gave unknown after %.1fs at %s", dt, stackOf(s).c_str()); }
  Z3_solver_pop(zc, zs, 1);
  if (dt > 5) fprintf(stderr, "[slow query %.1fs] %s\n", dt, stackOf(s).substr(0, 300).c_str());
  if (q.sat) { // validate the model against our own evaluation
    std::vector<u8> mm = s.model; for (auto &p : q.m) mm[p.first] = p.second; X.gen++;
    bool ok = X.eval(c, mm.data()) != 0; for (E e : cs) ok = ok && X.eval(e, mm.data()) != 0; for (u32 v : vars) ok = ok && s.doms[v].has(mm[v]); X.gen++;
    if (!ok) engineError("solver model does not satisfy the query (encoding mismatch)");
    if (model) *model = mm;
  }
  qcache[k] = q; return q.sat;
}
int Engine::effVars(State &s, E e, u32 *out, int max) { int n = 0; for (u32 v : e->sup->vars) if (s.doms[v].count() > 1) { if (n < max) out[n] = v; if (++n > max) break; } return n; }
// every k-th decision taken by the byte-domain procedure is re-asked from z3
void Engine::xcheckDomain(State &s, E c, bool expect) {
  static u64 cnt = 0; cnt++; if (cnt % 997 != 0 && cnt > 20) return; st.xcheck++;
  std::vector<E> save; save.swap(s.cons); bool r = querySMT(s, c, nullptr); save.swap(s.cons);
  if (r != expect) engineError("byte-domain decision disagrees with z3");
}
int Engine::decide(State &s, E c) {
  if (c->isConst()) return c->lo ? 1 : 0;
  u32 ev[2]; int n = effVars(s, c, ev, 1);
  if (n == 0) { X.gen++; bool r = X.eval(c, s.model.data()) != 0; st.domDec++; return r; }
  if (n == 1) {
    u32 v = ev[0]; Dom &d = s.doms[v]; bool t = false, f = false; u8 save = s.model[v];
    for (unsigned i = 0; i < 256 && !(t && f); i++) if (d.has(i)) { s.model[v] = i; X.gen++; if (X.eval(c, s.model.data())) t = true; else f = true; }
    s.model[v] = save; X.gen++; st.domDec++;
    if (!f) { xcheckDomain(s, X.notE(c), false); return 1; } if (!t) { xcheckDomain(s, c, false); return 0; }
    if (!s.multi[v]) { xcheckDomain(s, c, true); return 2; }
  }
  X.gen++; bool cur = X.eval(c, s.model.data()) != 0; st.modelHits++;
  bool other = querySMT(s, cur ? X.notE(c) : c, nullptr);
  return other ? 2 : cur ? 1 : 0;
}
bool Engine::feasible(State &s, E c, std::vector<u8> *model) {
  int d = decide(s, c); if (d == 0) return false;
  if (model) {
    X.gen++; if (X.eval(c, s.model.data())) { *model = s.model; return true; }
    u32 ev[2]; int n = effVars(s, c, ev, 1);
    if (n == 1 && !s.multi[ev[0]]) { u32 v = ev[0]; *model = s.model; for (unsigned i = 0; i < 256; i++) if (s.doms[v].has(i)) { (*model)[v] = i; X.gen++; if (X.eval(c, model->data())) { X.gen++; return true; } } X.gen++; engineError("feasible"); }
    if (!querySMT(s, c, model)) engineError("feasible/query mismatch");
  }
  return true;
}
void Engine::assume(State &s, E c) {
  if (c->isConst()) { if (!c->lo) engineError("assume false"); return; }
  std::vector<u8> m; if (!feasible(s, c, &m)) engineError("assume infeasible"); s.model = m; X.gen++;
  // split conjuncts
  std::vector<E> todo{c};
  while (!todo.empty()) {
    E e = todo.back(); todo.pop_back();
    if (e->isConst()) continue;
    if (e->kind == K_AND) { todo.push_back(e->a); todo.push_back(e->b); continue; }
    if (e->kind == K_NOT && e->a->kind == K_OR) { todo.push_back(X.notE(e->a->a)); todo.push_back(X.notE(e->a->b)); continue; }
    u32 ev[2]; int n = effVars(s, e, ev, 1);
    if (n == 0) continue;
    if (n == 1) { u32 v = ev[0]; u8 save = s.model[v]; Dom d = s.doms[v]; for (unsigned i = 0; i < 256; i++) if (d.has(i)) { s.model[v] = i; X.gen++; if (!X.eval(e, s.model.data())) d.clr(i); } s.model[v] = save; X.gen++; if (!d.has(save)) engineError("assume: model left the domain"); s.doms[v] = d; continue; }
    bool dup = false; for (E x : s.cons) if (x == e) dup = true; if (dup) continue;
    s.cons.push_back(e); for (u32 v : e->sup->vars) s.multi[v] = true;
  }
}
u64 Engine::evalU(State &s, E e) { X.gen++; return (u64)X.eval(e, s.model.data()); }
