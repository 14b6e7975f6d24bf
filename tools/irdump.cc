// irdump: reads LLVM bitcode (clang -O1 -disable-llvm-passes) and writes the
// program as JSON for the analyses in /verif/sa. It performs no analysis.
#include <map>
#include <set>
#include <string>
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;
namespace {
const DataLayout* DL;
json::OStream* J;
std::map<const Value*, int> Ids;
std::map<std::string, int> Files;
std::vector<std::string> FileList;

std::string latin1(StringRef s) {  // bytes -> code points 0..255 as UTF-8
  std::string r;
  for (unsigned char c : s) {
    if (c < 0x80) r += c;
    else { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 0x3F)); }
  }
  return r;
}
std::string path(const DIFile* f) {
  if (!f) return "";
  std::string n = f->getFilename().str();
  if (!n.empty() && n[0] == '/') return n;
  return f->getDirectory().str() + "/" + n;
}
int fileId(const DIFile* f) {
  std::string p = path(f);
  auto it = Files.find(p);
  if (it != Files.end()) return it->second;
  int id = FileList.size();
  Files[p] = id; FileList.push_back(p);
  return id;
}
void flat(Type* T, uint64_t off, std::vector<std::pair<uint64_t, Type*>>& out) {
  if (auto* S = dyn_cast<StructType>(T)) {
    auto* L = DL->getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++)
      flat(S->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto* A = dyn_cast<ArrayType>(T)) {
    uint64_t es = DL->getTypeAllocSize(A->getElementType());
    if (A->getNumElements() > 256) { out.push_back({off, T}); return; }
    for (uint64_t i = 0; i < A->getNumElements(); i++)
      flat(A->getElementType(), off + i * es, out);
  } else out.push_back({off, T});
}
std::string scalar(Type* T) {
  if (T->isPointerTy()) return "ptr";
  if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
  if (T->isDoubleTy()) return "double";
  if (T->isFloatTy()) return "float";
  if (T->isVoidTy()) return "void";
  std::string s; raw_string_ostream o(s); T->print(o); return s;
}
void type(Type* T) {
  if (T->isAggregateType()) {
    std::vector<std::pair<uint64_t, Type*>> f; flat(T, 0, f);
    J->array([&] {
      J->value("s"); J->value((int64_t)DL->getTypeAllocSize(T));
      J->array([&] { for (auto& p : f) J->array([&] { J->value((int64_t)p.first); J->value(scalar(p.second)); }); });
      // top level element -> first flat offset, for extractvalue
      J->array([&] {
        if (auto* S = dyn_cast<StructType>(T))
          for (unsigned i = 0; i < S->getNumElements(); i++) J->value((int64_t)DL->getStructLayout(S)->getElementOffset(i));
        else if (auto* A = dyn_cast<ArrayType>(T))
          for (uint64_t i = 0; i < std::min<uint64_t>(A->getNumElements(), 256); i++) J->value((int64_t)(i * DL->getTypeAllocSize(A->getElementType())));
      });
    });
  } else J->value(scalar(T));
}
void constFlat(const Constant* C, uint64_t off);
void val(const Value* V);
void intval(const APInt& v) {
  // as a decimal string: may exceed 64 bits
  SmallString<40> s; v.toStringUnsigned(s);
  J->array([&] { J->value("i"); J->value((int64_t)v.getBitWidth()); J->value(StringRef(s)); });
}
void val(const Value* V) {
  if (auto* C = dyn_cast<Constant>(V)) {
    if (auto* I = dyn_cast<ConstantInt>(C)) { intval(I->getValue()); return; }
    if (isa<ConstantPointerNull>(C)) { J->array([&] { J->value("n"); }); return; }
    if (isa<UndefValue>(C)) { J->array([&] { J->value("u"); }); return; }
    if (auto* F = dyn_cast<ConstantFP>(C)) {
      bool lose; APFloat f = F->getValueAPF(); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lose);
      double d = f.convertToDouble(); char b[64]; snprintf(b, sizeof b, "%a", d);
      J->array([&] { J->value("f"); J->value(b); }); return;
    }
    if (auto* G = dyn_cast<GlobalAlias>(C)) { val(G->getAliasee()); return; }
    if (auto* G = dyn_cast<GlobalValue>(C)) {
      J->array([&] { J->value("g"); J->value(G->getName()); J->value(0); }); return;
    }
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      APInt off(64, 0);
      const Value* B = E->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (B != E) {
        if (auto* G = dyn_cast<GlobalValue>(B)) {
          J->array([&] { J->value("g"); J->value(G->getName()); J->value(off.getSExtValue()); }); return;
        }
      }
      if (E->getOpcode() == Instruction::PtrToInt || E->getOpcode() == Instruction::BitCast || E->getOpcode() == Instruction::IntToPtr) {
        J->array([&] { J->value("cast"); val(E->getOperand(0)); }); return;
      }
      std::string s; raw_string_ostream o(s); E->print(o);
      J->array([&] { J->value("ce"); J->value(o.str()); }); return;
    }
    if (C->getType()->isAggregateType()) {
      J->array([&] { J->value("agg"); J->array([&] { constFlat(C, 0); }); }); return;
    }
    std::string s; raw_string_ostream o(s); C->print(o);
    J->array([&] { J->value("ce"); J->value(o.str()); }); return;
  }
  if (auto* A = dyn_cast<Argument>(V)) { J->array([&] { J->value("a"); J->value((int64_t)A->getArgNo()); }); return; }
  if (isa<Instruction>(V)) { J->array([&] { J->value("r"); J->value(Ids[V]); }); return; }
  J->array([&] { J->value("?"); });
}
// emits entries [off, type, value] (strings: [off,"bytes",text])
void constFlat(const Constant* C, uint64_t off) {
  if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
    if (D->getElementType()->isIntegerTy(8)) {
      J->array([&] { J->value((int64_t)off); J->value("bytes"); J->value(latin1(D->getRawDataValues())); }); return;
    }
    uint64_t es = DL->getTypeAllocSize(D->getElementType());
    for (unsigned i = 0; i < D->getNumElements(); i++) constFlat(D->getElementAsConstant(i), off + i * es);
    return;
  }
  Type* T = C->getType();
  if (T->isAggregateType()) {
    if (isa<ConstantAggregateZero>(C)) {
      J->array([&] { J->value((int64_t)off); J->value("zero"); J->value((int64_t)DL->getTypeAllocSize(T)); }); return;
    }
    if (isa<UndefValue>(C)) return;
    if (auto* S = dyn_cast<StructType>(T)) {
      for (unsigned i = 0; i < S->getNumElements(); i++)
        constFlat(C->getAggregateElement(i), off + DL->getStructLayout(S)->getElementOffset(i));
    } else if (auto* A = dyn_cast<ArrayType>(T)) {
      uint64_t es = DL->getTypeAllocSize(A->getElementType());
      for (uint64_t i = 0; i < A->getNumElements(); i++) constFlat(C->getAggregateElement(i), off + i * es);
    }
    return;
  }
  J->array([&] { J->value((int64_t)off); J->value(scalar(T)); val(C); });
}
void loc(const Instruction& I) {
  if (const DebugLoc& D = I.getDebugLoc()) {
    if (D.getLine()) J->attributeArray("l", [&] { J->value(fileId(cast<DIScope>(D.getScope())->getFile())); J->value((int64_t)D.getLine()); });
  }
}
std::string ditype(const DIType* T, int depth = 0) {
  if (!T) return "void";
  if (auto* D = dyn_cast<DIDerivedType>(T)) {
    std::string b = ditype(D->getBaseType(), depth + 1);
    switch (D->getTag()) {
      case dwarf::DW_TAG_pointer_type: return b + " *";
      case dwarf::DW_TAG_reference_type: return b + " &";
      case dwarf::DW_TAG_rvalue_reference_type: return b + " &&";
      case dwarf::DW_TAG_const_type: return "const " + b;
      case dwarf::DW_TAG_typedef: return b;
      default: return b;
    }
  }
  if (auto* C = dyn_cast<DICompositeType>(T)) {
    std::string k = C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "";
    std::string n = C->getName().str();
    const DIScope* S = C->getScope();
    while (S && !isa<DIFile>(S) && !isa<DICompileUnit>(S)) {
      if (!isa<DISubprogram>(S) && !S->getName().empty()) n = S->getName().str() + "::" + n;
      S = S->getScope();
    }
    if (C->getTag() == dwarf::DW_TAG_array_type) return ditype(C->getBaseType()) + " []";
    return k + n;
  }
  return T->getName().str();
}
std::string flags(const Instruction& I) {
  std::string r;
  if (auto* O = dyn_cast<OverflowingBinaryOperator>(&I)) {
    if (O->hasNoUnsignedWrap()) r += "u";
    if (O->hasNoSignedWrap()) r += "s";
  }
  return r;
}
void inst(const Instruction& I) {
  J->object([&] {
    auto ops = [&](unsigned n) { J->attributeArray("a", [&] { for (unsigned i = 0; i < n; i++) val(I.getOperand(i)); }); };
    loc(I);
    if (!I.getType()->isVoidTy()) { J->attribute("d", Ids[&I]); J->attributeBegin("t"); type(I.getType()); J->attributeEnd(); }
    if (auto* A = dyn_cast<AllocaInst>(&I)) {
      J->attribute("o", "alloca");
      auto s = A->getAllocationSize(*DL);
      J->attribute("size", s ? (int64_t)s->getFixedValue() : -1);
      std::string n; raw_string_ostream o(n); A->getAllocatedType()->print(o, false, true);
      J->attribute("ty", o.str());
      return;
    }
    if (auto* L = dyn_cast<LoadInst>(&I)) { J->attribute("o", "load"); ops(1); (void)L; return; }
    if (auto* S = dyn_cast<StoreInst>(&I)) {
      J->attribute("o", "store"); J->attributeBegin("vt"); type(S->getValueOperand()->getType()); J->attributeEnd(); ops(2); return;
    }
    if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
      J->attribute("o", "gep");
      MapVector<Value*, APInt> vars; APInt c(64, 0);
      bool ok = cast<GEPOperator>(G)->collectOffset(*DL, 64, vars, c);
      J->attribute("ok", ok);
      J->attributeArray("a", [&] { val(G->getPointerOperand()); for (auto& p : vars) val(p.first); });
      J->attributeArray("sc", [&] { for (auto& p : vars) J->value(p.second.getSExtValue()); });
      J->attribute("c", c.getSExtValue());
      J->attribute("inb", G->isInBounds());
      return;
    }
    if (auto* C = dyn_cast<CallBase>(&I)) {
      if (isa<CallInst>(C)) J->attribute("o", "call");
      else { J->attribute("o", "invoke"); J->attributeArray("s", [&] { J->value(Ids[cast<InvokeInst>(C)->getNormalDest()]); J->value(Ids[cast<InvokeInst>(C)->getUnwindDest()]); }); }
      J->attributeBegin("f"); val(C->getCalledOperand()); J->attributeEnd();
      J->attributeArray("a", [&] { for (auto& u : C->args()) { if (isa<MetadataAsValue>(u.get())) J->array([&]{J->value("?");}); else val(u.get()); } });
      J->attributeArray("at", [&] { for (auto& u : C->args()) { if (u->getType()->isMetadataTy()) J->value("md"); else type(u->getType()); } });
      if (C->arg_size() && C->paramHasAttr(0, Attribute::StructRet)) J->attribute("sret", 0);
      else if (C->arg_size() > 1 && C->paramHasAttr(1, Attribute::StructRet)) J->attribute("sret", 1);
      if (C->doesNotReturn()) J->attribute("noret", true);
      return;
    }
    if (auto* B = dyn_cast<BranchInst>(&I)) {
      J->attribute("o", "br");
      if (B->isConditional()) J->attributeArray("a", [&] { val(B->getCondition()); });
      J->attributeArray("s", [&] { for (unsigned i = 0; i < B->getNumSuccessors(); i++) J->value(Ids[B->getSuccessor(i)]); });
      return;
    }
    if (auto* S = dyn_cast<SwitchInst>(&I)) {
      J->attribute("o", "switch"); J->attributeArray("a", [&] { val(S->getCondition()); });
      J->attributeArray("cases", [&] { for (auto& c : S->cases()) J->array([&] { SmallString<40> s; c.getCaseValue()->getValue().toStringUnsigned(s); J->value(StringRef(s)); J->value(Ids[c.getCaseSuccessor()]); }); });
      J->attribute("def", Ids[S->getDefaultDest()]);
      return;
    }
    if (auto* P = dyn_cast<PHINode>(&I)) {
      J->attribute("o", "phi");
      J->attributeArray("in", [&] { for (unsigned i = 0; i < P->getNumIncomingValues(); i++) J->array([&] { J->value(Ids[P->getIncomingBlock(i)]); val(P->getIncomingValue(i)); }); });
      return;
    }
    if (auto* C = dyn_cast<CmpInst>(&I)) {
      J->attribute("o", isa<ICmpInst>(C) ? "icmp" : "fcmp"); J->attribute("p", CmpInst::getPredicateName(C->getPredicate()));
      J->attributeBegin("ot"); type(C->getOperand(0)->getType()); J->attributeEnd(); ops(2); return;
    }
    if (auto* C = dyn_cast<CastInst>(&I)) {
      J->attribute("o", C->getOpcodeName()); J->attributeBegin("ot"); type(C->getOperand(0)->getType()); J->attributeEnd(); ops(1); return;
    }
    if (auto* E = dyn_cast<ExtractValueInst>(&I)) {
      J->attribute("o", "extractvalue"); J->attributeArray("i", [&] { for (auto x : E->indices()) J->value((int64_t)x); }); ops(1);
      J->attributeBegin("ot"); type(E->getOperand(0)->getType()); J->attributeEnd(); return;
    }
    if (auto* E = dyn_cast<InsertValueInst>(&I)) {
      J->attribute("o", "insertvalue"); J->attributeArray("i", [&] { for (auto x : E->indices()) J->value((int64_t)x); }); ops(2); return;
    }
    J->attribute("o", I.getOpcodeName());
    std::string fl = flags(I); if (!fl.empty()) J->attribute("fl", fl);
    ops(I.getNumOperands());
  });
}
std::string baseKind(const DIType* T) {
  while (T) {
    if (auto* D = dyn_cast<DIDerivedType>(T)) {
      if (D->getTag() == dwarf::DW_TAG_pointer_type || D->getTag() == dwarf::DW_TAG_reference_type || D->getTag() == dwarf::DW_TAG_rvalue_reference_type) return "ptr";
      T = D->getBaseType(); continue;
    }
    if (auto* C = dyn_cast<DICompositeType>(T)) return C->getTag() == dwarf::DW_TAG_enumeration_type ? "enum" : C->getTag() == dwarf::DW_TAG_array_type ? "array" : "class";
    if (auto* B = dyn_cast<DIBasicType>(T)) {
      if (B->getEncoding() == dwarf::DW_ATE_boolean) return "bool";
      if (B->getEncoding() == dwarf::DW_ATE_float) return "float";
      if (B->getEncoding() == dwarf::DW_ATE_signed) return "sint";
      if (B->getEncoding() == dwarf::DW_ATE_unsigned) return "uint";
      return "char";
    }
    return "other";
  }
  return "void";
}
}  // namespace
int main(int argc, char** argv) {
  if (argc < 3) { errs() << "usage: irdump in.bc repo-prefix > out.json\n"; return 2; }
  LLVMContext Ctx; SMDiagnostic Err;
  auto M = parseIRFile(argv[1], Err, Ctx);
  if (!M) { Err.print(argv[0], errs()); return 2; }
  std::string prefix = argv[2];
  DL = &M->getDataLayout();
  json::OStream O(outs()); J = &O;
  O.object([&] {
    O.attribute("source", M->getSourceFileName());
    O.attributeObject("globals", [&] {
      for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        O.attributeObject(G.getName(), [&] {
          O.attribute("dem", demangle(G.getName()));
          O.attribute("const", G.isConstant()); O.attribute("decl", G.isDeclaration());
          O.attribute("size", G.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G.getValueType()) : -1);
          O.attribute("local", G.hasLocalLinkage()); O.attribute("tls", G.isThreadLocal());
          SmallVector<DIGlobalVariableExpression*, 1> dis; G.getDebugInfo(dis);
          if (!dis.empty()) { auto* v = dis[0]->getVariable(); O.attribute("file", fileId(v->getFile())); O.attribute("line", (int64_t)v->getLine()); O.attribute("dity", ditype(v->getType())); }
          if (G.hasInitializer()) O.attributeArray("init", [&] { constFlat(G.getInitializer(), 0); });
        });
      }
    });
    O.attributeObject("aliases", [&] {
      for (auto& A : M->aliases()) O.attribute(A.getName(), A.getAliaseeObject()->getName());
    });
    O.attributeArray("ctors", [&] {
      if (auto* G = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* A = dyn_cast<ConstantArray>(G->getInitializer()))
          for (auto& U : A->operands()) O.value(cast<Constant>(U)->getAggregateElement(1)->getName());
    });
    O.attributeObject("functions", [&] {
      for (auto& F : *M) {
        if (F.isIntrinsic()) continue;
        O.attributeObject(F.getName(), [&] {
          O.attribute("dem", demangle(F.getName()));
          O.attribute("local", F.hasLocalLinkage());
          O.attributeArray("params", [&] { for (auto& A : F.args()) type(A.getType()); });
          O.attributeBegin("ret"); type(F.getReturnType()); O.attributeEnd();
          if (F.arg_size() && F.hasParamAttribute(0, Attribute::StructRet)) O.attribute("sret", 0);
          else if (F.arg_size() > 1 && F.hasParamAttribute(1, Attribute::StructRet)) O.attribute("sret", 1);
          if (F.isDeclaration()) { O.attribute("decl", true); return; }
          if (auto* SP = F.getSubprogram()) {
            O.attribute("file", fileId(SP->getFile())); O.attribute("line", (int64_t)SP->getLine());
            O.attribute("repo", StringRef(path(SP->getFile())).starts_with(prefix));
            if (SP->getDeclaration() && SP->getDeclaration()->isArtificial()) O.attribute("artificial", true);
          }
          Ids.clear(); int bi = 0, ii = 0;
          for (auto& B : F) { Ids[&B] = bi++; for (auto& I : B) Ids[&I] = ii++; }
          O.attributeObject("vars", [&] {
            std::set<int> seen;
            for (auto& B : F) for (auto& I : B) if (auto* D = dyn_cast<DbgDeclareInst>(&I)) {
              const Value* a = D->getAddress(); if (!a) continue;
              if (!isa<AllocaInst>(a)) continue;
              if (!seen.insert(Ids[a]).second) continue;
              O.attributeArray(std::to_string(Ids[a]), [&] { O.value(D->getVariable()->getName()); O.value(ditype(D->getVariable()->getType())); O.value(baseKind(D->getVariable()->getType())); });
            }
          });
          O.attributeArray("blocks", [&] {
            for (auto& B : F) O.array([&] { for (auto& I : B) { if (isa<DbgInfoIntrinsic>(&I)) continue; inst(I); } });
          });
        });
      }
    });
    DebugInfoFinder Fd; Fd.processModule(*M);
    O.attributeObject("structs", [&] {
      std::set<std::string> seen;
      for (auto* T : Fd.types()) {
        auto* C = dyn_cast<DICompositeType>(T); if (!C) continue;
        if (C->getTag() != dwarf::DW_TAG_class_type && C->getTag() != dwarf::DW_TAG_structure_type) continue;
        if (!C->getFile() || C->isForwardDecl()) continue;
        bool repo = StringRef(path(C->getFile())).starts_with(prefix);
        if (!repo && !StringRef(path(C->getFile())).contains("/verif/")) continue;
        std::string n = ditype(C); if (!seen.insert(n).second) continue;
        O.attributeObject(n, [&] {
          O.attribute("size", (int64_t)C->getSizeInBits() / 8);
          O.attribute("file", fileId(C->getFile())); O.attribute("line", (int64_t)C->getLine());
          O.attributeArray("members", [&] {
            for (auto* E : C->getElements()) if (auto* D = dyn_cast<DIDerivedType>(E)) {
              if (D->isStaticMember()) continue;
              if (D->getTag() == dwarf::DW_TAG_member || D->getTag() == dwarf::DW_TAG_inheritance)
                O.array([&] { O.value(D->getTag() == dwarf::DW_TAG_inheritance ? std::string("<base>") : D->getName().str()); O.value((int64_t)D->getOffsetInBits() / 8); O.value(ditype(D->getBaseType())); O.value(baseKind(D->getBaseType())); O.value((int64_t)(D->getTag() == dwarf::DW_TAG_inheritance ? 0 : D->getSizeInBits() / 8)); });
            }
          });
        });
      }
    });
    O.attributeObject("enums", [&] {
      std::set<std::string> seen;
      for (auto* T : Fd.types()) {
        auto* C = dyn_cast<DICompositeType>(T); if (!C || C->getTag() != dwarf::DW_TAG_enumeration_type) continue;
        if (!C->getFile()) continue;
        std::string n = ditype(C); if (!seen.insert(n).second) continue;
        std::string p = path(C->getFile());
        if (!StringRef(p).starts_with(prefix) && p.find("google/protobuf/struct.pb.h") == std::string::npos) continue;
        O.attributeObject(n, [&] { for (auto* E : C->getElements()) if (auto* D = dyn_cast<DIEnumerator>(E)) O.attribute(D->getName(), (int64_t)D->getValue().getSExtValue()); });
      }
    });
    O.attributeArray("files", [&] { for (auto& f : FileList) O.value(f); });
  });
  return 0;
}
