// irdump: LLVM module -> JSON, for the Python analyses in /verif/vpa.
// usage: irdump file.bc > out.json
#include "llvm/ADT/SmallVector.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace llvm;
using json::Array;
using json::Object;
typedef json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value *, int> ids;

static std::string tyname(Type *t) {
  std::string s;
  raw_string_ostream os(s);
  t->print(os, false, true);
  return os.str();
}

static int64_t sizeOf(Type *t) {
  if (!t->isSized()) return 0;
  return (int64_t)DL->getTypeAllocSize(t).getFixedValue();
}

static JV constval(const Constant *c);

static JV op(const llvm::Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return constval(c);
  if (isa<MetadataAsValue>(v)) return Array{"md"};
  if (isa<InlineAsm>(v)) return Array{"asm"};
  auto it = ids.find(v);
  if (it == ids.end()) return Array{"unk"};
  return Array{"r", it->second};
}

static JV constval(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    if (ci->getBitWidth() <= 64) return Array{"i", (int64_t)ci->getSExtValue(), (int)ci->getBitWidth()};
    return Array{"unk"};
  }
  if (isa<ConstantPointerNull>(c)) return Array{"null"};
  if (isa<UndefValue>(c)) return Array{"undef"};
  if (auto *f = dyn_cast<Function>(c)) return Array{"f", f->getName().str()};
  if (auto *g = dyn_cast<GlobalVariable>(c)) return Array{"g", g->getName().str(), 0};
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constval(a->getAliasee());
  if (auto *cf = dyn_cast<ConstantFP>(c)) {
    double d = 0;
    if (cf->getType()->isDoubleTy()) d = cf->getValueAPF().convertToDouble();
    else if (cf->getType()->isFloatTy()) d = cf->getValueAPF().convertToFloat();
    std::string s; raw_string_ostream os(s); os << format("%.17g", d);
    return Array{"fp", os.str()};
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getType()->isPointerTy()) {
      APInt off(DL->getIndexSizeInBits(0), 0);
      const llvm::Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
      if (auto *g = dyn_cast<GlobalVariable>(b)) return Array{"g", g->getName().str(), (int64_t)off.getSExtValue()};
      if (auto *f = dyn_cast<Function>(b)) return Array{"f", f->getName().str()};
      if (ce->getOpcode() == Instruction::IntToPtr) {
        if (auto *ci = dyn_cast<ConstantInt>(ce->getOperand(0)))
          return Array{"iptr", (int64_t)ci->getSExtValue()};
      }
    }
    if (ce->getOpcode() == Instruction::PtrToInt) return constval(ce->getOperand(0));
    return Array{"unk"};
  }
  return Array{"unk"};
}

static void flatten(const Constant *c, int64_t off, Array &out) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c)) { out.push_back(Array{off, "zero", sizeOf(t)}); return; }
  if (isa<UndefValue>(c)) return;
  if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
    if (cds->isString() || cds->getElementType()->isIntegerTy(8)) {
      std::string hex;
      StringRef r = cds->getRawDataValues();
      for (unsigned char ch : r) { char b[3]; snprintf(b, 3, "%02x", ch); hex += b; }
      out.push_back(Array{off, "bytes", hex});
      return;
    }
    int64_t es = sizeOf(cds->getElementType());
    for (unsigned i = 0; i < cds->getNumElements(); ++i) flatten(cds->getElementAsConstant(i), off + i * es, out);
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    int64_t es = sizeOf(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatten(ca->getOperand(i), off + i * es, out);
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) flatten(cs->getOperand(i), off + (int64_t)sl->getElementOffset(i).getFixedValue(), out);
    return;
  }
  out.push_back(Array{off, "v", constval(c), sizeOf(t)});
}


static const DIType *strip(const DIType *t, std::string *tdname = nullptr) {
  while (t) {
    auto *d = dyn_cast<DIDerivedType>(t);
    if (!d) return t;
    switch (d->getTag()) {
    case dwarf::DW_TAG_typedef:
      if (tdname && tdname->empty()) *tdname = d->getName().str();
      LLVM_FALLTHROUGH;
    case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
    case dwarf::DW_TAG_atomic_type:
      t = d->getBaseType();
      break;
    default: return t;
    }
  }
  return t;
}

static std::string diName(const DIType *t) {
  std::string td;
  const DIType *s = strip(t, &td);
  if (!s) return "void";
  if (auto *d = dyn_cast<DIDerivedType>(s)) {
    if (d->getTag() == dwarf::DW_TAG_pointer_type) return diName(d->getBaseType()) + "*";
  }
  if (auto *c = dyn_cast<DICompositeType>(s)) {
    if (c->getTag() == dwarf::DW_TAG_array_type) {
      std::string r = diName(c->getBaseType());
      for (auto *e : c->getElements())
        if (auto *sr = dyn_cast<DISubrange>(e)) {
          int64_t n = -1;
          if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) n = ci->getSExtValue();
          r += "[" + std::to_string(n) + "]";
        }
      return r;
    }
    if (!c->getName().empty()) return c->getName().str();
  }
  if (isa<DISubroutineType>(s)) return "fn";
  if (!td.empty()) return td;
  return s->getName().str();
}

int main(int argc, char **argv) {
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, ctx);
  if (!M) { err.print(argv[0], errs()); return 2; }
  {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, "function(sroa<preserve-cfg>,instsimplify)")) { errs() << "pipeline\n"; return 2; }
    MPM.run(*M, MAM);
  }
  DataLayout dl = M->getDataLayout();
  DL = &dl;
  Object root;

  // debug-info composite types by name: members with byte offsets
  DebugInfoFinder finder;
  finder.processModule(*M);
  Object structs, enums;
  std::set<std::string> structfiles;
  for (auto *t : finder.types()) {
    auto *c = dyn_cast<DICompositeType>(t);
    if (!c) continue;
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
      Object e;
      for (auto *el : c->getElements())
        if (auto *en = dyn_cast<DIEnumerator>(el)) e[en->getName()] = (int64_t)en->getValue().getSExtValue();
      std::string nm = c->getName().str();
      if (nm.empty()) nm = "@" + c->getFilename().str() + ":" + std::to_string(c->getLine());
      enums[nm] = std::move(e);
    }
    if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->getName().empty() && !c->isForwardDecl()) {
      Array mem;
      for (auto *el : c->getElements())
        if (auto *d = dyn_cast<DIDerivedType>(el))
          if (d->getTag() == dwarf::DW_TAG_member) {
            Array sub;
            const DIType *bt = strip(d->getBaseType());
            if (auto *bc = dyn_cast_or_null<DICompositeType>(bt))
              if (bc->getTag() == dwarf::DW_TAG_union_type || (bc->getTag() == dwarf::DW_TAG_structure_type && bc->getName().empty()))
                for (auto *el2 : bc->getElements())
                  if (auto *d2 = dyn_cast<DIDerivedType>(el2))
                    if (d2->getTag() == dwarf::DW_TAG_member)
                      sub.push_back(Array{d2->getName().str(), (int64_t)(d2->getOffsetInBits() / 8), (int64_t)(d2->getSizeInBits() / 8), diName(d2->getBaseType())});
            mem.push_back(Array{d->getName().str(), (int64_t)(d->getOffsetInBits() / 8), (int64_t)(d->getSizeInBits() / 8), diName(d->getBaseType()), std::move(sub)});
          }
      structs[c->getName()] = Object{{"size", (int64_t)(c->getSizeInBits() / 8)}, {"members", std::move(mem)}};
    }
  }
  root["structs"] = std::move(structs);
  root["enums"] = std::move(enums);

  Object globals;
  for (auto &g : M->globals()) {
    Object o;
    o["const"] = g.isConstant();
    o["internal"] = g.hasLocalLinkage();
    o["tls"] = g.isThreadLocal();
    o["size"] = sizeOf(g.getValueType());
    o["ty"] = tyname(g.getValueType());
    o["decl"] = g.isDeclaration();
    SmallVector<DIGlobalVariableExpression *, 1> gv;
    g.getDebugInfo(gv);
    if (!gv.empty()) {
      auto *v = gv[0]->getVariable();
      o["dname"] = v->getName().str();
      o["dtype"] = diName(v->getType());
      o["file"] = v->getFilename().str();
      o["line"] = (int)v->getLine();
      if (auto *sp = dyn_cast_or_null<DISubprogram>(v->getScope())) o["scope"] = sp->getName().str();
      const DIType *t = v->getType();
      bool cst = false;
      while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_const_type) { cst = true; }
        if (d->getTag() == dwarf::DW_TAG_pointer_type || d->getTag()==dwarf::DW_TAG_member) break;
        t = d->getBaseType();
      }
      o["dconst"] = cst;
    }
    if (g.hasInitializer() && !g.getInitializer()->getType()->isEmptyTy()) {
      Array init;
      flatten(g.getInitializer(), 0, init);
      o["init"] = std::move(init);
    }
    globals[g.getName()] = std::move(o);
  }
  root["globals"] = std::move(globals);

  Object funcs;
  for (auto &F : *M) {
    if (F.isIntrinsic() && F.getName().starts_with("llvm.dbg")) continue;
    Object fo;
    fo["decl"] = F.isDeclaration();
    fo["internal"] = F.hasLocalLinkage();
    fo["noreturn"] = F.doesNotReturn();
    fo["vararg"] = F.isVarArg();
    fo["ret"] = tyname(F.getReturnType());
    fo["hidden"] = F.hasHiddenVisibility();
    if (auto *sp = F.getSubprogram()) {
      fo["file"] = sp->getFilename().str();
      fo["line"] = (int)sp->getLine();
      fo["dname"] = sp->getName().str();
      if (auto *st = sp->getType()) {
        Array ts;
        for (auto *t : st->getTypeArray()) ts.push_back(t ? diName(t) : std::string("void"));
        fo["sig"] = std::move(ts);
      }
    }
    if (!F.isDeclaration()) {
      ids.clear();
      int n = 0;
      Array args;
      for (auto &a : F.args()) { ids[&a] = n; args.push_back(Array{n, tyname(a.getType()), a.getName().str()}); ++n; }
      fo["args"] = std::move(args);
      std::map<const BasicBlock *, int> bid;
      int bn = 0;
      for (auto &B : F) {
        bid[&B] = bn++;
        for (auto &I : B) ids[&I] = n++;
      }
      fo["nvals"] = n;
      Array blocks;
      // variable names for SSA values (dbg.value)
      Object names;
      for (auto &B : F) {
        Array instrs;
        for (auto &I : B) {
          if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&I)) {
            if (auto *dd = dyn_cast<DbgValueInst>(&I)) {
              if (dd->getNumVariableLocationOps() == 1) {
                auto *v = dd->getVariableLocationOp(0);
                auto it = ids.find(v);
                if (it != ids.end()) names[std::to_string(it->second)] = dv->getVariable()->getName().str();
              }
            } else if (auto *dc = dyn_cast<DbgDeclareInst>(&I)) {
              auto it = ids.find(dc->getAddress());
              if (dc->getAddress() && it != ids.end()) names[std::to_string(it->second)] = dv->getVariable()->getName().str();
            }
            continue;
          }
          if (isa<DbgInfoIntrinsic>(&I)) continue;
          Object o;
          o["id"] = ids[&I];
          o["op"] = I.getOpcodeName();
          o["ty"] = tyname(I.getType());
          if (auto &dloc = I.getDebugLoc()) {
            auto *sc = dloc->getScope();
            o["loc"] = Array{sc->getFilename().str(), (int)dloc.getLine(), (int)dloc.getCol()};
          }
          Array ops;
          if (auto *phi = dyn_cast<PHINode>(&I)) {
            for (unsigned i = 0; i < phi->getNumIncomingValues(); ++i)
              ops.push_back(Array{bid[phi->getIncomingBlock(i)], op(phi->getIncomingValue(i))});
          } else if (auto *br = dyn_cast<BranchInst>(&I)) {
            if (br->isConditional()) ops.push_back(op(br->getCondition()));
            Array s;
            for (unsigned i = 0; i < br->getNumSuccessors(); ++i) s.push_back(bid[br->getSuccessor(i)]);
            o["succ"] = std::move(s);
          } else if (auto *sw = dyn_cast<SwitchInst>(&I)) {
            ops.push_back(op(sw->getCondition()));
            Array cs;
            for (auto &c : sw->cases()) cs.push_back(Array{(int64_t)c.getCaseValue()->getSExtValue(), bid[c.getCaseSuccessor()]});
            o["cases"] = std::move(cs);
            o["dflt"] = bid[sw->getDefaultDest()];
          } else if (auto *cb = dyn_cast<CallBase>(&I)) {
            o["op"] = "call";
            for (auto &a : cb->args()) ops.push_back(op(a.get()));
            auto *callee = cb->getCalledOperand()->stripPointerCasts();
            o["callee"] = op(callee);
            if (auto *f = dyn_cast<Function>(callee)) { if (f->isIntrinsic()) o["intr"] = true; }
            if (cb->doesNotReturn()) o["noret"] = true;
            if (auto *iv = dyn_cast<InvokeInst>(cb)) {
              Array s; s.push_back(bid[iv->getNormalDest()]); s.push_back(bid[iv->getUnwindDest()]);
              o["succ"] = std::move(s); o["invoke"] = true;
            }
            Array at;
            for (auto &a : cb->args()) at.push_back(tyname(a->getType()));
            o["aty"] = std::move(at);
          } else if (auto *gep = dyn_cast<GetElementPtrInst>(&I)) {
            ops.push_back(op(gep->getPointerOperand()));
            MapVector<llvm::Value *, APInt> vo;
            APInt co(DL->getIndexSizeInBits(0), 0);
            if (gep->collectOffset(*DL, DL->getIndexSizeInBits(0), vo, co)) {
              o["off"] = (int64_t)co.getSExtValue();
              Array vs;
              for (auto &p : vo) vs.push_back(Array{op(p.first), (int64_t)p.second.getSExtValue()});
              o["vars"] = std::move(vs);
            } else o["off"] = nullptr;
            o["sty"] = tyname(gep->getSourceElementType());
            o["ssize"] = sizeOf(gep->getSourceElementType());
          } else if (auto *cmp = dyn_cast<CmpInst>(&I)) {
            o["pred"] = CmpInst::getPredicateName(cmp->getPredicate()).str();
            for (auto &a : I.operands()) ops.push_back(op(a.get()));
            o["w"] = cmp->getOperand(0)->getType()->isIntegerTy() ? (int)cmp->getOperand(0)->getType()->getIntegerBitWidth() : 64;
          } else if (auto *al = dyn_cast<AllocaInst>(&I)) {
            o["size"] = sizeOf(al->getAllocatedType());
            if (al->isArrayAllocation()) { ops.push_back(op(al->getArraySize())); o["arr"] = true; }
            o["aty"] = tyname(al->getAllocatedType());
          } else if (auto *ld = dyn_cast<LoadInst>(&I)) {
            ops.push_back(op(ld->getPointerOperand()));
            o["size"] = sizeOf(ld->getType());
            o["vol"] = ld->isVolatile();
          } else if (auto *st = dyn_cast<StoreInst>(&I)) {
            ops.push_back(op(st->getValueOperand()));
            ops.push_back(op(st->getPointerOperand()));
            o["size"] = sizeOf(st->getValueOperand()->getType());
            o["vty"] = tyname(st->getValueOperand()->getType());
          } else {
            for (auto &a : I.operands()) {
              if (isa<BasicBlock>(a.get())) ops.push_back(Array{"bb", bid[cast<BasicBlock>(a.get())]});
              else ops.push_back(op(a.get()));
            }
            if (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy()) o["w"] = (int)I.getOperand(0)->getType()->getIntegerBitWidth();
            if (auto *ev = dyn_cast<ExtractValueInst>(&I)) { Array ix; for (auto i : ev->indices()) ix.push_back((int)i); o["idx"] = std::move(ix); }
            if (auto *ev = dyn_cast<InsertValueInst>(&I)) { Array ix; for (auto i : ev->indices()) ix.push_back((int)i); o["idx"] = std::move(ix); }
            if (isa<OverflowingBinaryOperator>(I) && I.hasNoSignedWrap()) o["nsw"] = true;
          }
          o["ops"] = std::move(ops);
          instrs.push_back(std::move(o));
        }
        blocks.push_back(std::move(instrs));
      }
      fo["blocks"] = std::move(blocks);
      fo["names"] = std::move(names);
    }
    funcs[F.getName()] = std::move(fo);
  }
  root["functions"] = std::move(funcs);
  outs() << JV(std::move(root)) << "\n";
  return 0;
}
