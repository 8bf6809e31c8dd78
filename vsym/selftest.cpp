// Random differential test of the expression simplifier: every builder result is compared, on random
// byte assignments, with a direct evaluation of the operator.
#include "engine.hpp"
#include <random>
int selftest(u64 seed) {
  std::mt19937_64 r(seed); u64 checks = 0;
  for (int round = 0; round < 400; round++) {
    struct N { E e; u128 v[4]; }; std::vector<N> pool; u8 m[4][6]; for (auto &x : m) for (auto &y : x) y = r();
    auto add = [&](E e, std::function<u128(int)> f) { N n; n.e = e; for (int k = 0; k < 4; k++) { n.v[k] = f(k) & maskw(e->width); X.gen++; u128 got = X.eval(e, m[k]); checks++; if (got != n.v[k]) { fprintf(stderr, "selftest mismatch: %s\n", showE(e, 10).c_str()); exit(4); } } pool.push_back(n); };
    for (int i = 0; i < 6; i++) add(X.var(i), [&](int k) { return (u128)m[k][i]; });
    for (int i = 0; i < 8; i++) { unsigned w = std::vector<unsigned>{1, 8, 8, 16, 32, 32, 64, 128}[i]; u128 v = (r() % 3 == 0) ? (u128)(r() % 4) : (r() % 2 ? ((u128)r() << 64 | r()) : ((u128)1 << (r() % w)) - (r() & 1)); add(X.constant(v, w), [&](int) { return v; }); }
    for (int step = 0; step < 120; step++) {
      N a = pool[r() % pool.size()]; unsigned w = a.e->width; int op = r() % 8;
      if (op == 0) { unsigned nw = w + r() % 64; if (nw > 128) continue; if (r() & 1) add(X.zext(a.e, nw), [&](int k) { return a.v[k]; }); else add(X.sext(a.e, nw), [&](int k) { return (u128)sx(a.v[k], w); }); }
      else if (op == 1) { unsigned off = r() % w, nw = 1 + r() % (w - off); add(X.extract(a.e, off, nw), [&](int k) { return a.v[k] >> off; }); }
      else if (op == 2) { N b = pool[r() % pool.size()]; if (w + b.e->width > 128) continue; add(X.concat(a.e, b.e), [&](int k) { return (a.v[k] << b.e->width) | b.v[k]; }); }
      else if (op == 3) { std::vector<N> c, o; for (auto &x : pool) { if (x.e->width == 1) c.push_back(x); if (x.e->width == w) o.push_back(x); } if (c.empty()) continue; N q = c[r() % c.size()], b = o[r() % o.size()]; add(X.ite(q.e, a.e, b.e), [&](int k) { return q.v[k] ? a.v[k] : b.v[k]; }); }
      else if (op == 4 && w == 1) add(X.notE(a.e), [&](int k) { return (u128)!a.v[k]; });
      else { std::vector<N> o; for (auto &x : pool) if (x.e->width == w) o.push_back(x); N b = o[r() % o.size()]; Kind k2 = (Kind)(K_ADD + r() % (K_SLE - K_ADD + 1)); if ((k2 >= K_UDIV && k2 <= K_SREM)) { bool z = false; for (int k = 0; k < 4; k++) if (!b.v[k]) z = true; if (z) continue; }
        add(X.bin(k2, a.e, b.e), [&](int k) { return ExprCtx::foldBin(k2, a.v[k], b.v[k], w); }); }
    }
  }
  printf("selftest ok: %llu evaluations\n", (unsigned long long)checks); return 0;
}
