// In-memory file system and processes: the environment model for code that does file I/O.
// Every operation is executed on concrete paths; file contents may be symbolic.  Failing calls, crash points,
// short transfers and process switches are symbolic input bytes, so the solver (path conditions over those bytes) covers all of them.
#include "engine.hpp"
#include <cstring>
#include <sys/stat.h>
#define B(n) static int n(Engine &g, State &s, const Inst &I)
enum { T_FILE, T_DIR, T_LINK };
struct Inode { int type = T_FILE; u32 mode = 0644; std::vector<Val> data; std::map<std::string, int> ent; std::string target; int parent = 0; int nlink = 1; bool scratch = false; };
struct OFile { int ino = -1; u64 pos = 0; int flags = 0; bool open = false; u32 gen = 0; int fd = -1; int lock = 0; /* 0 none 1 shared 2 exclusive */ };
struct Dir { int ino; std::vector<std::pair<std::string, int>> list; size_t pos = 0; u64 buf = 0; int of = -1; };
struct FsState { std::vector<std::shared_ptr<const Inode>> ino; std::vector<OFile> of; std::map<u64, Dir> dirs; int root = 0, scratch = 0, tmp = 0; u64 ops = 0;
  const Inode &rd(int i) const { return *ino[i]; }
  Inode &wr(int i) { auto n = std::make_shared<Inode>(*ino[i]); ino[i] = n; return *n; }
  int add(Inode n) { ino.push_back(std::make_shared<const Inode>(std::move(n))); return ino.size() - 1; }
  int mk(int dir, const std::string &name, int type) { Inode n; n.type = type; n.parent = dir; n.mode = type == T_DIR ? 0755 : 0644; int i = add(std::move(n)); wr(dir).ent[name] = i; return i; } };
static FsState &fs(State &s) {
  if (!s.fs) { auto f = std::make_shared<FsState>(); Inode r; r.type = T_DIR; r.mode = 0755; f->root = f->add(r); f->wr(0).parent = 0; f->scratch = f->mk(0, "vfs", T_DIR); f->tmp = f->mk(0, "tmp", T_DIR); f->wr(f->scratch).scratch = true; f->wr(f->tmp).scratch = true; f->mk(0, "etc", T_DIR); f->mk(0, "usr", T_DIR); s.fs = f; }
  if (s.fs.use_count() > 1) s.fs = std::make_shared<FsState>(*s.fs);
  return *s.fs;
}
void setErrno(State &s, int e);
enum { eNOENT = 2, eINTR = 4, eIO = 5, eBADF = 9, eAGAIN = 11, eEXIST = 17, eXDEV = 18, eNOTDIR = 20, eISDIR = 21, eINVAL = 22, eNOSYS = 38, eNOTEMPTY = 39, eLOOP = 40 };
static int fail(Engine &g, State &s, const Inst &I, int e) { setErrno(s, e); g.ret(s, I, CV(mask64(I.x->retW))); return ST_NEXT; }
static std::string cstr(Engine &g, State &s, u64 a) { std::string r; for (u64 i = 0;; i++) { Val v; if (!s.mem.getByte(a + i, v)) engineError("path at bad address"); if (v.e) { g.concretize(s, v, 8); s.mem.setByte(a + i, v); } if (!v.v) return r; r += (char)v.v; if (i > 8000) engineError("path too long"); } }
// Temporary names are drawn from a random generator that the executor runs deterministically; different processes must still draw different names.
static std::string tr(State &s, const std::string &c) { if (s.gen && c.size() == 10 && c.compare(0, 4, ".tmp") == 0) return c + "~" + std::to_string(s.gen); return c; }
// resolves a path: parent directory inode + last component + inode (or -1). Returns an errno or 0.
struct Res { int dir = 0, ino = -1; std::string name; bool slash = false; };
static int walk(State &s, FsState &f, int at, const std::string &path, bool follow, Res &r, int depth = 0) {
  if (depth > 40) return eLOOP; if (path.empty()) return eNOENT;
  int cur = path[0] == '/' ? f.root : at; std::vector<std::string> cs; std::string t; for (char c : path) { if (c == '/') { if (!t.empty()) cs.push_back(t); t.clear(); } else t += c; } if (!t.empty()) cs.push_back(t);
  r.slash = path.back() == '/'; r.dir = f.rd(cur).parent; r.ino = cur; r.name = "";
  for (size_t i = 0; i < cs.size(); i++) {
    bool last = i + 1 == cs.size(); if (f.rd(cur).type != T_DIR) return eNOTDIR;
    std::string c = tr(s, cs[i]); if (c == ".") { if (last) { r.ino = cur; r.name = "."; r.dir = f.rd(cur).parent; } continue; } if (c == "..") { cur = f.rd(cur).parent; if (last) { r.ino = cur; r.name = ".."; r.dir = f.rd(cur).parent; } continue; }
    if (c.size() > 255) return 36;
    auto it = f.rd(cur).ent.find(c); int n = it == f.rd(cur).ent.end() ? -1 : it->second;
    if (n >= 0 && f.rd(n).type == T_LINK && (!last || follow || r.slash)) { Res q; int e = walk(s, f, cur, f.rd(n).target, true, q, depth + 1); if (e) return e; if (q.ino < 0) { if (!last) return eNOENT; r.dir = q.dir; r.name = q.name; r.ino = -1; return 0; } if (last) { r.dir = q.dir; r.name = q.name; r.ino = q.ino; return (r.slash && f.rd(q.ino).type != T_DIR) ? eNOTDIR : 0; } cur = q.ino; continue; }
    if (last) { r.dir = cur; r.name = c; r.ino = n; if (n >= 0 && r.slash && f.rd(n).type != T_DIR) return eNOTDIR; return 0; }
    if (n < 0) return eNOENT; cur = n;
  }
  return 0;
}
static bool inScratch(FsState &f, int d) { for (int i = 0; i < 64; i++) { if (f.rd(d).scratch) return true; if (d == f.root) return false; d = f.rd(d).parent; } return false; }
// ---- choices
static u32 choose(Engine &g, State &s, const char *name, unsigned n) {
  E e; if (s.chk < s.chs.size()) e = s.chs[s.chk]; else { u32 st = s.doms.size(); Dom d = Dom::none(); for (unsigned i = 0; i < n; i++) d.set(i); s.doms.push_back(d); s.model.push_back(0); s.multi.push_back(false); s.regions.push_back({name, st, 1}); e = X.var(st); s.chs.push_back(e); }
  s.chk++; Val v{e, 0}; g.concretize(s, v, 8); return v.v;
}
// ---- processes
static void saveTo(State &s, Proc &p) { p.frames.swap(s.frames); p.regs.swap(s.regs); p.mem = std::make_shared<Memory>(s.mem); p.sp = s.sp; p.heap = s.heap; p.gated = s.gated; p.panicOk = s.panicOk; }
static void swapMem(Memory &a, const Memory &b) { Memory t(b); for (int i = 0; i < 3; i++) a.reg[i].swap(t.reg[i]); }
static void loadFrom(State &s, Proc &p) { s.frames = p.frames; s.regs = p.regs; swapMem(s.mem, *p.mem); s.sp = p.sp; s.heap = p.heap; s.gated = p.gated; s.panicOk = p.panicOk; }
static void closeAll(State &s, u32 gen) { FsState &f = fs(s); for (auto &o : f.of) if (o.open && o.gen == gen) { o.open = false; o.lock = 0; } }
static void unblock(State &s) { if (!s.groups.empty()) for (auto &p : s.groups.back().ps) p.blocked = false; }
static void switchTo(State &s, int k) { Group &G = s.groups.back(); saveTo(s, G.ps[G.cur]); G.cur = k; Proc &p = G.ps[k]; s.gen = p.gen; s.pflags = p.flags; Proc q = p; loadFrom(s, q); s.chs.clear(); s.chk = 0; }
static int other(State &s) { Group &G = s.groups.back(); for (size_t i = 1; i < G.ps.size(); i++) { int k = (G.cur + i) % G.ps.size(); if (!G.ps[k].done && !G.ps[k].blocked) return k; } return -1; }
static bool finish(State &s, const Val &rv) { // the running child ends with this result
  Group &G = s.groups.back(); Proc &me = G.ps[G.cur]; me.done = true; me.result = rv; closeAll(s, me.gen); unblock(s); s.chs.clear(); s.chk = 0;
  int k = other(s);
  if (k >= 0) { s.frames.clear(); s.regs.clear(); G.cur = k; Proc &p = G.ps[k]; s.gen = p.gen; s.pflags = p.flags; Proc q = p; loadFrom(s, q); return true; }
  for (auto &p : G.ps) if (!p.done) { ::G.violation(s, "deadlock", "deadlock"); return false; }
  Group done = std::move(s.groups.back()); s.groups.pop_back(); loadFrom(s, done.parent); s.gen = done.parentGen; s.pflags = done.parentFlags;
  for (size_t i = 0; i < done.ps.size(); i++) { Val r = done.ps[i].result; if (!s.mem.store(done.out + 8 * i, 64, r)) engineError("vsym_par result"); }
  const Inst &ci = s.frames.back().f->code[s.frames.back().pc]; if (!ci.x->edges.empty()) engineError("vsym_par invoked"); s.frames.back().pc++; return true;
}
bool procReturn(State &s, const Val &rv) { return finish(s, rv); }
// vsym_par(fns: *const fn(u64)->u64, args: *const u64, n, out: *mut u64, flags)
B(v_par) {
  u64 fns, args, n, out, fl; g.argC(s, I, 0, fns); g.argC(s, I, 1, args); g.argC(s, I, 2, n); g.argC(s, I, 3, out); g.argC(s, I, 4, fl); if (s.groups.size()) engineError("nested processes"); fs(s);
  Group G; G.out = out; G.parentGen = s.gen; G.parentFlags = s.pflags; auto mem = std::make_shared<Memory>(s.mem);
  for (u64 i = 0; i < n; i++) { Val fa, av; s.mem.load(fns + 8 * i, 64, fa); s.mem.load(args + 8 * i, 64, av); auto it = P.byAddr.find(fa.v); if (fa.e || it == P.byAddr.end()) engineError("vsym_par function"); FuncInfo *f = it->second; decodeFunction(f); f->calls++;
    Proc p; p.mem = mem; p.sp = s.sp; p.heap = s.heap; p.gen = s.nextGen++; p.flags = fl; p.panicOk = s.panicOk; Frame fr; fr.f = f; fr.pc = 0; fr.base = 0; fr.sp = s.sp; fr.call = nullptr; p.regs.resize(f->nslots, CV(0)); p.regs[f->argSlot[0]] = av; p.frames.push_back(fr); G.ps.push_back(p); }
  saveTo(s, G.parent); s.groups.push_back(G); Group &H = s.groups.back(); Proc q = H.ps[0]; H.cur = 0; s.gen = q.gen; s.pflags = q.flags; loadFrom(s, q); return ST_JUMPED;
}
B(v_budget) { g.argC(s, I, 0, s.crashLeft); g.argC(s, I, 1, s.faultLeft); g.argC(s, I, 2, s.preemptLeft); return ST_NEXT; }
B(v_fsroot) { u64 p, n; g.argC(s, I, 0, p); g.argC(s, I, 1, n); const char *r = "/vfs"; fs(s); for (int i = 0; i < 4; i++) s.mem.setByte(p + i, CV(r[i])); g.ret(s, I, CV(4)); return ST_NEXT; }
B(v_spent) { u64 k; g.argC(s, I, 0, k); g.ret(s, I, CV(k == 0 ? s.crashLeft : k == 1 ? s.faultLeft : s.preemptLeft)); return ST_NEXT; }
// Gate before an operation.  Returns 0 (go on), 1 = handled: leave with rc in *rc; 2.. = effect flags
enum { OP_PRE = 1 /* can be preempted */, OP_MUT = 2 /* crash point */, OP_ERR = 4 /* can fail with EIO */, OP_INTR = 8 /* can fail with EINTR */, OP_SHORT = 16 /* short transfer possible */, OP_PART = 32 /* crash in the middle possible */ };
enum { EF_NONE, EF_DONE, EF_ERR, EF_INTR, EF_SHORT, EF_PART };
static int gate(Engine &g, State &s, const Inst &, unsigned k, int *rc) {
  s.chk = 0; if (s.groups.empty()) { return EF_NONE; }
  if ((k & OP_PRE) && !s.gated && s.preemptLeft && other(s) >= 0) { u32 c = choose(g, s, "sched", 2); if (c) { s.preemptLeft--; s.gated = true; switchTo(s, other(s)); *rc = ST_JUMPED; return EF_DONE; } s.chs.clear(); s.chk = 0; s.gated = true; }
  int opt[6], n = 0; opt[n++] = EF_NONE; bool cr = (s.pflags & 1) && s.crashLeft, fa = (s.pflags & 2) && s.faultLeft;
  if (cr && (k & OP_MUT)) opt[n++] = EF_DONE; if (cr && (k & OP_PART)) opt[n++] = EF_PART; if (fa && (k & OP_ERR)) opt[n++] = EF_ERR; if (fa && (k & OP_INTR)) opt[n++] = EF_INTR; if (fa && (k & OP_SHORT)) opt[n++] = EF_SHORT;
  if (n == 1) return EF_NONE;
  u32 c = choose(g, s, "fault", n); int e = opt[c]; if (e == EF_NONE) return e;
  if (e == EF_DONE) { s.crashLeft--; g.events["crash"]++; *rc = finish(s, CV(~0ull)) ? ST_JUMPED : ST_END; return EF_DONE; }
  if (e == EF_PART) { s.crashLeft--; g.events["crash mid-write"]++; return e; }
  s.faultLeft--; g.events[e == EF_ERR ? "EIO" : e == EF_INTR ? "EINTR" : "short transfer"]++; return e;
}
static void done(State &s) { s.chs.clear(); s.chk = 0; s.gated = false; }
#define GATE(k) int rc = 0; int ef = gate(g, s, I, k, &rc); if (ef == EF_DONE) return rc; done(s); fs(s).ops++; g.events["fs " + std::string(I.x->callee ? I.x->callee->name : I.x->name)]++; if (ef == EF_ERR) return fail(g, s, I, eIO); if (ef == EF_INTR) return fail(g, s, I, eINTR);
static int escape(Engine &g, State &s, const std::string &p) { g.violation(s, "escape", "file system change outside the scratch directory"); (void)p; return ST_END; }
static OFile *ofd(State &s, FsState &f, u64 fd) { for (auto &o : f.of) if (o.open && o.gen == s.gen && o.fd == (int)(u32)fd) return &o; return nullptr; }
static int newFd(State &s, FsState &f, int ino, int flags) { int fd = 3; for (;;) { bool used = false; for (auto &o : f.of) if (o.open && o.gen == s.gen && o.fd == fd) used = true; if (!used) break; fd++; } OFile o; o.ino = ino; o.flags = flags; o.open = true; o.gen = s.gen; o.fd = fd; for (auto &q : f.of) if (!q.open) { q = o; return fd; } f.of.push_back(o); return fd; }
static int atDir(State &s, FsState &f, u64 fd) { if ((int)(u32)fd == -100) return f.scratch; OFile *o = ofd(s, f, fd); return o ? o->ino : -1; }
static int doOpen(Engine &g, State &s, const Inst &I, int at, const std::string &p, u64 flags, u64 mode) {
  FsState &f = fs(s); if (at < 0) return fail(g, s, I, eBADF); Res r; bool creat = flags & 0x40, excl = flags & 0x80; bool nofollow = (flags & 0x20000) || (creat && excl); int acc = flags & 3;
  if ((flags & 0x410000) == 0x410000) return fail(g, s, I, 95); // O_TMPFILE: not supported here
  if (p.compare(0, 14, "/proc/self/fd/") == 0) { OFile *o = ofd(s, f, strtoul(p.c_str() + 14, nullptr, 10)); if (!o) return fail(g, s, I, eNOENT); int ino = o->ino; g.ret(s, I, CV(newFd(s, f, ino, flags))); return ST_NEXT; }
  int e = walk(s, f, at, p, !nofollow, r); if (e) return fail(g, s, I, e);
  if (r.ino < 0) { if (!creat) return fail(g, s, I, eNOENT); if (r.slash) return fail(g, s, I, eISDIR); if (!inScratch(f, r.dir)) return escape(g, s, p); if (f.rd(r.dir).nlink == 0) return fail(g, s, I, eNOENT); r.ino = f.mk(r.dir, r.name, T_FILE); f.wr(r.ino).mode = mode & 07777 & ~022; }
  else { if (creat && excl) return fail(g, s, I, eEXIST); auto &n = f.rd(r.ino); if (n.type == T_LINK) return fail(g, s, I, eLOOP); if (n.type == T_DIR) { if (acc != 0 || creat) return fail(g, s, I, eISDIR); } else if (flags & 0x10000) return fail(g, s, I, eNOTDIR);
    if (n.type == T_FILE && acc != 0 && !inScratch(f, r.dir)) return escape(g, s, p); if ((flags & 0x200) && n.type == T_FILE && acc != 0) f.wr(r.ino).data.clear(); }
  g.ret(s, I, CV(newFd(s, f, r.ino, flags))); return ST_NEXT; }
B(f_open) { u64 a, fl, md = 0; g.argC(s, I, 0, a); g.argC(s, I, 1, fl); if (I.x->args.size() > 2) g.argC(s, I, 2, md); std::string p = cstr(g, s, a); bool mut = (fl & 0x40) || (fl & 0x200); GATE(OP_PRE | OP_ERR | (mut ? OP_MUT : 0)); return doOpen(g, s, I, fs(s).scratch, p, fl, md); }
B(f_openat) { u64 d, a, fl, md = 0; g.argC(s, I, 0, d); g.argC(s, I, 1, a); g.argC(s, I, 2, fl); if (I.x->args.size() > 3) g.argC(s, I, 3, md); std::string p = cstr(g, s, a); bool mut = (fl & 0x40) || (fl & 0x200); GATE(OP_PRE | OP_ERR | (mut ? OP_MUT : 0)); return doOpen(g, s, I, atDir(s, fs(s), d), p, fl, md); }
B(f_close) { u64 fd; g.argC(s, I, 0, fd); FsState &f0 = fs(s); OFile *o = ofd(s, f0, fd); if (o && o->lock) { GATE(OP_PRE); } FsState &f = fs(s); o = ofd(s, f, fd); if (!o) return fail(g, s, I, eBADF); if (o->lock) unblock(s); o->open = false; o->lock = 0; g.ret(s, I, CV(0)); return ST_NEXT; }
static int rw(Engine &g, State &s, const Inst &I, bool wrt, u64 fd, u64 buf, u64 n, int64_t at, bool part, bool shrt) {
  FsState &f = fs(s); OFile *o = ofd(s, f, fd); if (!o) return fail(g, s, I, eBADF); if (f.rd(o->ino).type == T_DIR) return fail(g, s, I, eISDIR); int acc = o->flags & 3; if (wrt ? acc == 0 : acc == 1) return fail(g, s, I, eBADF);
  if (shrt && n > 1) n = 1; if (part) n = (n + 1) / 2;
  u64 pos = at >= 0 ? at : o->pos; int ino = o->ino;
  if (wrt) { Inode &x = f.wr(ino); if (at < 0 && (o->flags & 0x400)) pos = x.data.size(); if (pos + n > (64u << 20)) engineError("file too large"); if (x.data.size() < pos + n) x.data.resize(pos + n, CV(0)); for (u64 i = 0; i < n; i++) { Val v; if (!s.mem.getByte(buf + i, v)) { g.violation(s, "memory", "write from bad buffer"); return ST_END; } x.data[pos + i] = v; } }
  else { auto &x = f.rd(ino); n = pos >= x.data.size() ? 0 : std::min<u64>(n, x.data.size() - pos); for (u64 i = 0; i < n; i++) if (!s.mem.setByte(buf + i, x.data[pos + i])) { g.violation(s, "memory", "read into bad buffer"); return ST_END; } }
  if (at < 0) { OFile *q = ofd(s, f, fd); q->pos = pos + n; }
  if (part) return finish(s, CV(~0ull)) ? ST_JUMPED : ST_END;
  g.ret(s, I, CV(n)); return ST_NEXT; }
B(f_write) { u64 fd, b, n; g.argC(s, I, 0, fd); g.argC(s, I, 1, b); g.argC(s, I, 2, n); if (fd == 1 || fd == 2) { g.ret(s, I, CV(n)); return ST_NEXT; } GATE(OP_PRE | OP_MUT | OP_ERR | OP_INTR | (n > 1 ? OP_PART | OP_SHORT : 0)); return rw(g, s, I, true, fd, b, n, -1, ef == EF_PART, ef == EF_SHORT); }
B(f_read) { u64 fd, b, n; g.argC(s, I, 0, fd); g.argC(s, I, 1, b); g.argC(s, I, 2, n); GATE(OP_PRE | OP_ERR | OP_INTR | (n > 1 ? OP_SHORT : 0)); return rw(g, s, I, false, fd, b, n, -1, false, ef == EF_SHORT); }
B(f_pread) { u64 fd, b, n, at; g.argC(s, I, 0, fd); g.argC(s, I, 1, b); g.argC(s, I, 2, n); g.argC(s, I, 3, at); GATE(OP_PRE | OP_ERR); return rw(g, s, I, false, fd, b, n, at, false, false); }
B(f_readv) { u64 fd, v, n; g.argC(s, I, 0, fd); g.argC(s, I, 1, v); g.argC(s, I, 2, n); Val b = CV(0), l = CV(0); for (u64 i = 0; i < n; i++) { s.mem.load(v + 16 * i, 64, b); s.mem.load(v + 16 * i + 8, 64, l); if (l.e || l.v) break; } if (b.e || l.e) engineError("readv"); GATE(OP_PRE | OP_ERR | OP_INTR | (l.v > 1 ? OP_SHORT : 0)); return rw(g, s, I, false, fd, b.v, l.v, -1, false, ef == EF_SHORT); }
B(f_lseek) { u64 fd, off, wh; g.argC(s, I, 0, fd); g.argC(s, I, 1, off); g.argC(s, I, 2, wh); FsState &f = fs(s); OFile *o = ofd(s, f, fd); if (!o) return fail(g, s, I, eBADF); int64_t b = wh == 0 ? 0 : wh == 1 ? (int64_t)o->pos : (int64_t)f.rd(o->ino).data.size(); int64_t p; if (__builtin_add_overflow(b, (int64_t)off, &p) || p < 0) return fail(g, s, I, eINVAL); o->pos = p; g.ret(s, I, CV(p)); return ST_NEXT; }
static void putStat(State &s, FsState &f, int i, u64 a) { auto &n = f.rd(i); for (int k = 0; k < 144; k++) s.mem.setByte(a + k, CV(0)); s.mem.store(a, 64, CV(1)); s.mem.store(a + 8, 64, CV(1000 + i)); s.mem.store(a + 16, 64, CV(n.nlink)); u32 m = n.mode | (n.type == T_DIR ? 0040000 : n.type == T_LINK ? 0120000 : 0100000); s.mem.store(a + 24, 32, CV(m)); s.mem.store(a + 48, 64, CV(n.type == T_LINK ? n.target.size() : n.data.size())); s.mem.store(a + 56, 64, CV(4096)); for (int k = 72; k < 120; k += 16) s.mem.store(a + k, 64, CV(1700000000)); }
static int doStat(Engine &g, State &s, const Inst &I, int at, u64 pa, u64 st, bool follow) { std::string p = cstr(g, s, pa); FsState &f = fs(s); Res r; int e = walk(s, f, at, p, follow, r); if (!e && r.ino < 0) e = eNOENT; if (e) return fail(g, s, I, e); putStat(s, f, r.ino, st); g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_stat) { u64 p, st; g.argC(s, I, 0, p); g.argC(s, I, 1, st); return doStat(g, s, I, fs(s).scratch, p, st, true); }
B(f_lstat) { u64 p, st; g.argC(s, I, 0, p); g.argC(s, I, 1, st); return doStat(g, s, I, fs(s).scratch, p, st, false); }
B(f_fstat) { u64 fd, st; g.argC(s, I, 0, fd); g.argC(s, I, 1, st); FsState &f = fs(s); OFile *o = ofd(s, f, fd); if (!o) return fail(g, s, I, eBADF); putStat(s, f, o->ino, st); g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_fstatat) { u64 d, p, st, fl; g.argC(s, I, 0, d); g.argC(s, I, 1, p); g.argC(s, I, 2, st); g.argC(s, I, 3, fl); return doStat(g, s, I, atDir(s, fs(s), d), p, st, !(fl & 0x100)); }
B(f_access) { u64 p; g.argC(s, I, 0, p); std::string q = cstr(g, s, p); FsState &f = fs(s); Res r; int e = walk(s, f, f.scratch, q, true, r); if (!e && r.ino < 0) e = eNOENT; if (e) return fail(g, s, I, e); g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_mkdir) { u64 a, m; g.argC(s, I, 0, a); g.argC(s, I, 1, m); std::string p = cstr(g, s, a); GATE(OP_PRE | OP_MUT | OP_ERR); FsState &f = fs(s); Res r; int e = walk(s, f, f.scratch, p, false, r); if (e) return fail(g, s, I, e); if (r.ino >= 0) return fail(g, s, I, eEXIST); if (!inScratch(f, r.dir)) return escape(g, s, p); if (f.rd(r.dir).nlink == 0) return fail(g, s, I, eNOENT); f.wr(f.mk(r.dir, r.name, T_DIR)).mode = m & 07777 & ~022; g.ret(s, I, CV(0)); return ST_NEXT; }
static int doUnlink(Engine &g, State &s, const Inst &I, int at, const std::string &p, bool dir) { FsState &f = fs(s); if (at < 0) return fail(g, s, I, eBADF); Res r; int e = walk(s, f, at, p, false, r); if (!e && r.ino < 0) e = eNOENT; if (e) return fail(g, s, I, e); if (r.name == "" || r.name == "." || r.name == "..") return fail(g, s, I, eINVAL); bool isd = f.rd(r.ino).type == T_DIR; if (dir && !isd) return fail(g, s, I, eNOTDIR); if (!dir && isd) return fail(g, s, I, eISDIR); if (dir && !f.rd(r.ino).ent.empty()) return fail(g, s, I, eNOTEMPTY); if (!inScratch(f, r.dir) || f.rd(r.ino).scratch) return escape(g, s, p); f.wr(r.dir).ent.erase(r.name); if (isd) f.wr(r.ino).nlink = 0; g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_unlink) { u64 a; g.argC(s, I, 0, a); std::string p = cstr(g, s, a); GATE(OP_PRE | OP_MUT | OP_ERR); return doUnlink(g, s, I, fs(s).scratch, p, false); }
B(f_rmdir) { u64 a; g.argC(s, I, 0, a); std::string p = cstr(g, s, a); GATE(OP_PRE | OP_MUT | OP_ERR); return doUnlink(g, s, I, fs(s).scratch, p, true); }
B(f_unlinkat) { u64 d, a, fl; g.argC(s, I, 0, d); g.argC(s, I, 1, a); g.argC(s, I, 2, fl); std::string p = cstr(g, s, a); GATE(OP_PRE | OP_MUT | OP_ERR); return doUnlink(g, s, I, atDir(s, fs(s), d), p, fl & 0x200); }
B(f_rename) { u64 a, b; g.argC(s, I, 0, a); g.argC(s, I, 1, b); std::string p = cstr(g, s, a), q = cstr(g, s, b); GATE(OP_PRE | OP_MUT | OP_ERR); FsState &f = fs(s); Res x, y; int e = walk(s, f, f.scratch, p, false, x); if (!e && x.ino < 0) e = eNOENT; if (!e) e = walk(s, f, f.scratch, q, false, y); if (e) return fail(g, s, I, e);
  if (x.name.empty() || y.name.empty() || y.name == "." || y.name == "..") return fail(g, s, I, eINVAL); bool xd = f.rd(x.ino).type == T_DIR; if (y.slash && !xd) return fail(g, s, I, eNOTDIR); if (!inScratch(f, x.dir) || !inScratch(f, y.dir)) return escape(g, s, q); if (f.rd(y.dir).nlink == 0) return fail(g, s, I, eNOENT);
  if (xd) for (int d = y.dir, i = 0; i < 64; i++) { if (d == x.ino) return fail(g, s, I, eINVAL); if (d == f.root) break; d = f.rd(d).parent; }
  if (y.ino >= 0) { if (y.ino == x.ino) { g.ret(s, I, CV(0)); return ST_NEXT; } bool yd = f.rd(y.ino).type == T_DIR; if (xd && !yd) return fail(g, s, I, eNOTDIR); if (!xd && yd) return fail(g, s, I, eISDIR); if (yd && !f.rd(y.ino).ent.empty()) return fail(g, s, I, eNOTEMPTY); if (yd) f.wr(y.ino).nlink = 0; }
  f.wr(x.dir).ent.erase(x.name); f.wr(y.dir).ent[y.name] = x.ino; f.wr(x.ino).parent = y.dir; g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_symlink) { u64 a, b; g.argC(s, I, 0, a); g.argC(s, I, 1, b); std::string t = cstr(g, s, a), p = cstr(g, s, b); GATE(OP_PRE | OP_MUT | OP_ERR); FsState &f = fs(s); if (t.empty()) return fail(g, s, I, eNOENT); Res r; int e = walk(s, f, f.scratch, p, false, r); if (e) return fail(g, s, I, e); if (r.ino >= 0) return fail(g, s, I, eEXIST); if (r.slash) return fail(g, s, I, eNOENT); if (!inScratch(f, r.dir)) return escape(g, s, p); int i = f.mk(r.dir, r.name, T_LINK); f.wr(i).target = t; f.wr(i).mode = 0777; g.ret(s, I, CV(0)); return ST_NEXT; }
static int doLink(Engine &g, State &s, const Inst &I, const std::string &p, const std::string &q) { FsState &f = fs(s); Res x, y; int e = walk(s, f, f.scratch, p, false, x); if (!e && x.ino < 0) e = eNOENT; if (!e) e = walk(s, f, f.scratch, q, false, y); if (e) return fail(g, s, I, e); if (y.ino >= 0) return fail(g, s, I, eEXIST); if (!inScratch(f, y.dir)) return escape(g, s, q); if (f.rd(x.ino).type == T_DIR) return fail(g, s, I, 1); f.wr(y.dir).ent[y.name] = x.ino; f.wr(x.ino).nlink++; g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_link) { u64 a, b; g.argC(s, I, 0, a); g.argC(s, I, 1, b); std::string p = cstr(g, s, a), q = cstr(g, s, b); GATE(OP_PRE | OP_MUT | OP_ERR); return doLink(g, s, I, p, q); }
B(f_linkat) { u64 a, b; g.argC(s, I, 1, a); g.argC(s, I, 3, b); std::string p = cstr(g, s, a), q = cstr(g, s, b); GATE(OP_PRE | OP_MUT | OP_ERR); return doLink(g, s, I, p, q); }
B(f_readlink) { u64 a, b, n; g.argC(s, I, 0, a); g.argC(s, I, 1, b); g.argC(s, I, 2, n); std::string p = cstr(g, s, a); FsState &f = fs(s); Res r; int e = walk(s, f, f.scratch, p, false, r); if (!e && r.ino < 0) e = eNOENT; if (!e && f.rd(r.ino).type != T_LINK) e = eINVAL; if (e) return fail(g, s, I, e); auto &t = f.rd(r.ino).target; u64 k = std::min<u64>(n, t.size()); for (u64 i = 0; i < k; i++) s.mem.setByte(b + i, CV((u8)t[i])); g.ret(s, I, CV(k)); return ST_NEXT; }
static std::string full(FsState &f, int i) { if (i == f.root) return "/"; std::string r; while (i != f.root) { int d = f.rd(i).parent; for (auto &e : f.rd(d).ent) if (e.second == i) { r = "/" + e.first + r; break; } i = d; } return r; }
B(f_realpath) { u64 a, b; g.argC(s, I, 0, a); g.argC(s, I, 1, b); std::string p = cstr(g, s, a); FsState &f = fs(s); Res r; int e = walk(s, f, f.scratch, p, true, r); if (!e && r.ino < 0) e = eNOENT; if (e) { setErrno(s, e); g.ret(s, I, CV(0)); return ST_NEXT; } std::string q = full(f, r.ino); if (!b) b = heapAlloc(s, q.size() + 1, 16); for (size_t i = 0; i <= q.size(); i++) s.mem.setByte(b + i, CV(i < q.size() ? (u8)q[i] : 0)); g.ret(s, I, CV(b)); return ST_NEXT; }
B(f_getcwd) { u64 a; g.argC(s, I, 0, a); fs(s); const char *r = "/vfs"; for (int i = 0; i < 5; i++) s.mem.setByte(a + i, CV(r[i])); g.ret(s, I, CV(a)); return ST_NEXT; }
B(f_flock) { u64 fd, op; g.argC(s, I, 0, fd); g.argC(s, I, 1, op); FsState &f0 = fs(s); OFile *o = ofd(s, f0, fd); if (!o) return fail(g, s, I, eBADF);
  if (op & 8) { if (o->lock) { GATE(OP_PRE); } FsState &f = fs(s); o = ofd(s, f, fd); o->lock = 0; unblock(s); g.ret(s, I, CV(0)); return ST_NEXT; }
  GATE(OP_PRE | OP_ERR | OP_INTR); FsState &f = fs(s); o = ofd(s, f, fd); int want = (op & 2) ? 2 : 1; bool conflict = false; for (auto &q : f.of) if (q.open && &q != o && q.ino == o->ino && q.lock && (q.lock == 2 || want == 2)) conflict = true;
  if (!conflict) { o->lock = want; g.ret(s, I, CV(0)); return ST_NEXT; }
  if (op & 4) return fail(g, s, I, eAGAIN);
  if (s.groups.empty()) { g.violation(s, "deadlock", "deadlock"); return ST_END; }
  Group &G = s.groups.back(); G.ps[G.cur].blocked = true; int k = other(s); if (k < 0) { g.violation(s, "deadlock", "deadlock"); return ST_END; } s.gated = true; g.events["lock wait"]++; switchTo(s, k); return ST_JUMPED; }
B(f_sync) { u64 fd; g.argC(s, I, 0, fd); GATE(OP_PRE | OP_MUT | OP_ERR); g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_ftruncate) { u64 fd, n; g.argC(s, I, 0, fd); g.argC(s, I, 1, n); GATE(OP_PRE | OP_MUT | OP_ERR); FsState &f = fs(s); OFile *o = ofd(s, f, fd); if (!o) return fail(g, s, I, eBADF); if ((o->flags & 3) == 0) return fail(g, s, I, eINVAL); if (n > (64u << 20)) engineError("ftruncate"); f.wr(o->ino).data.resize(n, CV(0)); g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_chmod) { u64 a, m; g.argC(s, I, 0, a); g.argC(s, I, 1, m); std::string p = cstr(g, s, a); GATE(OP_PRE | OP_MUT | OP_ERR); FsState &f = fs(s); Res r; int e = walk(s, f, f.scratch, p, true, r); if (!e && r.ino < 0) e = eNOENT; if (e) return fail(g, s, I, e); if (!inScratch(f, r.dir)) return escape(g, s, p); f.wr(r.ino).mode = m & 07777; g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_fchmod) { u64 a, m; g.argC(s, I, 0, a); g.argC(s, I, 1, m); GATE(OP_PRE | OP_MUT | OP_ERR); FsState &f = fs(s); OFile *o = ofd(s, f, a); if (!o) return fail(g, s, I, eBADF); f.wr(o->ino).mode = m & 07777; g.ret(s, I, CV(0)); return ST_NEXT; }
static int mkDir(Engine &g, State &s, const Inst &I, int ino, int of) { FsState &f = fs(s); u64 h = heapAlloc(s, 1024, 16); Dir d; d.ino = ino; d.buf = h; d.of = of; d.list.push_back({".", ino}); d.list.push_back({"..", f.rd(ino).parent}); for (auto &e : f.rd(ino).ent) d.list.push_back(e); f.dirs[h] = d; g.ret(s, I, CV(h)); return ST_NEXT; }
B(f_opendir) { u64 a; g.argC(s, I, 0, a); std::string p = cstr(g, s, a); FsState &f = fs(s); Res r; int e = walk(s, f, f.scratch, p, true, r); if (!e && r.ino < 0) e = eNOENT; if (!e && f.rd(r.ino).type != T_DIR) e = eNOTDIR; if (e) { setErrno(s, e); g.ret(s, I, CV(0)); return ST_NEXT; } return mkDir(g, s, I, r.ino, -1); }
B(f_fdopendir) { u64 fd; g.argC(s, I, 0, fd); FsState &f = fs(s); OFile *o = ofd(s, f, fd); if (!o || f.rd(o->ino).type != T_DIR) { setErrno(s, o ? eNOTDIR : eBADF); g.ret(s, I, CV(0)); return ST_NEXT; } return mkDir(g, s, I, o->ino, fd); }
B(f_readdir) { u64 d; g.argC(s, I, 0, d); FsState &f = fs(s); auto it = f.dirs.find(d); if (it == f.dirs.end()) engineError("readdir"); Dir &q = it->second; if (q.pos >= q.list.size()) { g.ret(s, I, CV(0)); return ST_NEXT; } auto &e = q.list[q.pos++]; u64 b = q.buf; s.mem.store(b, 64, CV(1000 + e.second)); s.mem.store(b + 8, 64, CV(q.pos)); s.mem.store(b + 16, 16, CV(280)); int t = f.rd(e.second).type; s.mem.store(b + 18, 8, CV(t == T_DIR ? 4 : t == T_LINK ? 10 : 8)); for (size_t i = 0; i <= e.first.size(); i++) s.mem.setByte(b + 19 + i, CV(i < e.first.size() ? (u8)e.first[i] : 0)); g.ret(s, I, CV(b)); return ST_NEXT; }
B(f_closedir) { u64 d; g.argC(s, I, 0, d); FsState &f = fs(s); auto it = f.dirs.find(d); if (it != f.dirs.end()) { if (it->second.of >= 0) { OFile *o = ofd(s, f, it->second.of); if (o) { o->open = false; if (o->lock) unblock(s); o->lock = 0; } } f.dirs.erase(it); } g.ret(s, I, CV(0)); return ST_NEXT; }
B(f_dirfd) { u64 d; g.argC(s, I, 0, d); FsState &f = fs(s); auto it = f.dirs.find(d); if (it == f.dirs.end()) engineError("dirfd"); if (it->second.of < 0) it->second.of = newFd(s, f, it->second.ino, 0); g.ret(s, I, CV(it->second.of)); return ST_NEXT; }
B(f_fcntl) { u64 fd, c; g.argC(s, I, 0, fd); g.argC(s, I, 1, c); FsState &f = fs(s); OFile *o = ofd(s, f, fd); if (!o) return fail(g, s, I, eBADF); if (c == 1030 || c == 0) { OFile t = *o; int n = newFd(s, f, t.ino, t.flags); g.ret(s, I, CV(n)); if (t.pos) engineError("dup of a file with a position"); return ST_NEXT; } g.ret(s, I, CV(c == 3 ? o->flags : 0)); return ST_NEXT; }
B(f_nosys) { return fail(g, s, I, eNOSYS); }
B(f_umask) { g.ret(s, I, CV(022)); return ST_NEXT; }
Builtin fsBuiltin(const std::string &n) {
  static const std::map<std::string, Builtin> t = { {"vsym_par", v_par}, {"vsym_budget", v_budget}, {"vsym_fs_root", v_fsroot}, {"vsym_left", v_spent},
    {"open64", f_open}, {"open", f_open}, {"openat64", f_openat}, {"openat", f_openat}, {"close", f_close}, {"write", f_write}, {"read", f_read}, {"pread64", f_pread}, {"readv", f_readv}, {"lseek64", f_lseek}, {"lseek", f_lseek}, {"stat64", f_stat}, {"lstat64", f_lstat}, {"fstat64", f_fstat}, {"fstatat64", f_fstatat}, {"stat", f_stat}, {"lstat", f_lstat}, {"fstat", f_fstat}, {"access", f_access},
    {"mkdir", f_mkdir}, {"unlink", f_unlink}, {"rmdir", f_rmdir}, {"unlinkat", f_unlinkat}, {"rename", f_rename}, {"symlink", f_symlink}, {"link", f_link}, {"linkat", f_linkat}, {"readlink", f_readlink}, {"realpath", f_realpath}, {"getcwd", f_getcwd}, {"flock", f_flock}, {"fsync", f_sync}, {"fdatasync", f_sync}, {"ftruncate64", f_ftruncate}, {"ftruncate", f_ftruncate}, {"chmod", f_chmod}, {"fchmod", f_fchmod},
    {"opendir", f_opendir}, {"fdopendir", f_fdopendir}, {"readdir64", f_readdir}, {"closedir", f_closedir}, {"dirfd", f_dirfd}, {"fcntl", f_fcntl}, {"copy_file_range", f_nosys}, {"sendfile64", f_nosys}, {"sendfile", f_nosys}, {"splice", f_nosys}, {"umask", f_umask}, {"ioctl", f_nosys}, {"utimensat", f_nosys}, {"futimens", f_nosys} };
  auto it = t.find(n); return it == t.end() ? nullptr : it->second;
}
