// Demand-driven bitcode linking: pulls the definitions that the entries need out of rlibs (.llvmbc sections).
#include "link.hpp"
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/GVMaterializer.h>
#include <llvm/IR/Module.h>
#include <llvm/Linker/IRMover.h>
#include <llvm/Object/Archive.h>
#include <llvm/Object/ELFObjectFile.h>
#include <llvm/Object/ObjectFile.h>
#include <llvm/Support/MemoryBuffer.h>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace llvm;
struct Src { MemoryBufferRef bc; std::string file; };
static std::vector<Src> srcs; static std::map<std::string, int> index_; static std::vector<std::unique_ptr<MemoryBuffer>> keep; static std::vector<std::unique_ptr<object::Archive>> keepA;
static void addObject(MemoryBufferRef r, const std::string &file) {
  auto o = object::ObjectFile::createObjectFile(r); if (!o) { consumeError(o.takeError()); return; }
  StringRef bc; for (auto &s : (*o)->sections()) { auto n = s.getName(); if (!n) { consumeError(n.takeError()); continue; } if (*n == ".llvmbc") { auto c = s.getContents(); if (c) bc = *c; else consumeError(c.takeError()); } }
  if (bc.empty()) return;
  int id = srcs.size(); srcs.push_back({MemoryBufferRef(bc, r.getBufferIdentifier()), file});
  for (auto &s : (*o)->symbols()) { auto f = s.getFlags(); if (!f) { consumeError(f.takeError()); continue; } if (*f & object::SymbolRef::SF_Undefined) continue; if (!(*f & object::SymbolRef::SF_Global)) continue; auto n = s.getName(); if (!n) { consumeError(n.takeError()); continue; } index_.emplace(n->str(), id); }
}
bool linkIndex(const std::string &rlib) {
  auto b = MemoryBuffer::getFile(rlib, false, false); if (!b) return false; 
  auto a = object::Archive::create((*b)->getMemBufferRef()); if (!a) { consumeError(a.takeError()); return false; }
  Error err = Error::success();
  for (auto &c : (*a)->children(err)) { auto n = c.getName(); if (!n) { consumeError(n.takeError()); continue; } if (!n->ends_with(".o")) continue; auto mb = c.getMemoryBufferRef(); if (!mb) { consumeError(mb.takeError()); continue; } addObject(*mb, rlib); }
  if (err) { consumeError(std::move(err)); }
  keep.push_back(std::move(*b)); keepA.push_back(std::move(*a)); return true;
}
int linkNeeded(Module &M, const std::function<void(bool)> &prune) {
  int total = 0; std::set<std::string> missing;
  for (int round = 0; round < 2000; round++) {
    prune(round % 6 == 0); 
    std::map<int, std::vector<std::string>> need;
    auto want = [&](GlobalValue &g) { if (!g.isDeclaration() || g.use_empty()) return; std::string n = g.getName().str(); if (n.compare(0, 5, "llvm.") == 0 || n.compare(0, 5, "vsym_") == 0) return; auto it = index_.find(n); if (it != index_.end() && !missing.count(n)) need[it->second].push_back(n); };
    for (auto &f : M) want(f); for (auto &g : M.globals()) want(g);
    if (need.empty()) { if (round % 6 == 0) return total; round += 5 - round % 6; continue; }
    IRMover mover(M);
    for (auto &[id, names] : need) {
      auto sm = getOwningLazyBitcodeModule(MemoryBuffer::getMemBuffer(srcs[id].bc, false), M.getContext()); if (!sm) { errs() << "vsym: cannot read bitcode of " << srcs[id].file << ": " << toString(sm.takeError()) << "\n"; exit(3); } rustcLayout(**sm); if (auto *gm = (*sm)->getMaterializer()) gm->setStripDebugInfo();
      { unsigned k = 0; for (auto &g : (*sm)->globals()) { k++; if (!g.hasLocalLinkage() || g.isConstant()) continue; /* one copy of each private static, however often this object is visited */ g.setName("L" + std::to_string(id) + "." + std::to_string(k) + "." + g.getName()); g.setLinkage(GlobalValue::ExternalLinkage); index_.emplace(g.getName().str(), id); } }
      std::vector<GlobalValue *> vals; for (auto &n : names) { GlobalValue *g = (*sm)->getNamedValue(n); if (!g || g->isDeclaration()) { missing.insert(n); continue; } vals.push_back(g); total++; }
      if (vals.empty()) continue;
      if (Error e = mover.move(std::move(*sm), vals, [](GlobalValue &g, IRMover::ValueAdder add) { if (g.hasLinkOnceLinkage() || g.hasAvailableExternallyLinkage()) add(g); }, false)) { errs() << "vsym: link " << srcs[id].file << ": " << toString(std::move(e)) << "\n"; exit(3); }
    }
  }
  return total;
}
