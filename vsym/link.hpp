#pragma once
#include <functional>
#include <string>
namespace llvm { class Module; }
void rustcLayout(llvm::Module &m);
bool linkIndex(const std::string &rlib);
int linkNeeded(llvm::Module &M, const std::function<void(bool)> &prune);
