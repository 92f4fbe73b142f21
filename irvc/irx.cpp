// irx: dump (part of) an LLVM module as JSON for the irvc verification-condition generator.
// Only the functions reachable from the roots (prefix vc_c_ / vcs_) are written.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <map>
#include <set>
#include <deque>
#include <string>
using namespace llvm;
static raw_ostream& O = outs();
static const DataLayout* DL;
static std::deque<const Function*> work;
static std::set<const Function*> seen;
static std::deque<const GlobalVariable*> gwork;
static std::set<const GlobalVariable*> gseen;

static std::string esc(StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string ty(Type* t) {
  if (t->isVoidTy()) return "void";
  if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
  if (t->isDoubleTy()) return "double";
  if (t->isFloatTy()) return "float";
  if (t->isX86_FP80Ty()) return "x87";
  if (t->isPointerTy()) return "ptr";
  if (auto* s = dyn_cast<StructType>(t)) {
    std::string r = "{";
    if (s->isOpaque()) return "{}";
    const StructLayout* L = DL->getStructLayout(s);
    for (unsigned i = 0; i < s->getNumElements(); i++) {
      if (i) r += ",";
      r += std::to_string((uint64_t)L->getElementOffset(i)) + ":" + ty(s->getElementType(i));
    }
    return r + "|" + std::to_string(DL->getTypeAllocSize(t)) + "}";
  }
  if (auto* a = dyn_cast<ArrayType>(t))
    return "[" + std::to_string(a->getNumElements()) + "x" + std::to_string(DL->getTypeAllocSize(a->getElementType())) + ":" + ty(a->getElementType()) + "]";
  if (auto* a = dyn_cast<FixedVectorType>(t))
    return "<" + std::to_string(a->getNumElements()) + "x" + std::to_string(DL->getTypeAllocSize(a->getElementType())) + ":" + ty(a->getElementType()) + ">";
  return "?";
}
static void noteFn(const Function* f) { if (seen.insert(f).second) work.push_back(f); }
static void noteG(const GlobalVariable* g) { if (gseen.insert(g).second) gwork.push_back(g); }

static std::string apstr(const APInt& v) { SmallString<40> s; v.toStringUnsigned(s); return std::string(s.str()); }

// resolve constant pointer to global + offset
static std::string constVal(const Constant* c);
static std::string constPtr(const Constant* c) {
  int64_t off = 0;
  const Value* v = c;
  for (;;) {
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        APInt o(64, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, o)) return "[\"unk\"]";
        off += o.getSExtValue();
        v = ce->getOperand(0);
        continue;
      }
      if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::AddrSpaceCast) { v = ce->getOperand(0); continue; }
      if (ce->getOpcode() == Instruction::IntToPtr) {
        if (auto* ci = dyn_cast<ConstantInt>(ce->getOperand(0))) return "[\"abs\"," + std::to_string(ci->getZExtValue() + off) + "]";
      }
      return "[\"unk\"]";
    }
    break;
  }
  if (auto* a = dyn_cast<GlobalAlias>(v)) v = a->getAliaseeObject();
  if (auto* f = dyn_cast<Function>(v)) { noteFn(f); return "[\"fn\"," + esc(f->getName()) + "]"; }
  if (auto* g = dyn_cast<GlobalVariable>(v)) { noteG(g); return "[\"g\"," + esc(g->getName()) + "," + std::to_string(off) + "]"; }
  if (isa<ConstantPointerNull>(v)) return "[\"abs\"," + std::to_string(off) + "]";
  return "[\"unk\"]";
}
static std::string fbits(const APFloat& f) {
  return apstr(f.bitcastToAPInt());
}
static std::string constVal(const Constant* c) {
  Type* t = c->getType();
  if (auto* ci = dyn_cast<ConstantInt>(c)) return "[\"i\"," + std::to_string(ci->getBitWidth()) + ",\"" + apstr(ci->getValue()) + "\"]";
  if (auto* cf = dyn_cast<ConstantFP>(c)) return "[\"f\",\"" + ty(t) + "\",\"" + fbits(cf->getValueAPF()) + "\"]";
  if (isa<UndefValue>(c)) return "[\"undef\",\"" + ty(t) + "\"]";
  if (t->isPointerTy()) return constPtr(c);
  if (isa<ConstantAggregateZero>(c)) return "[\"zero\",\"" + ty(t) + "\"]";
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    std::string r = "[\"agg\",\"" + ty(t) + "\"";
    for (auto& o : ca->operands()) r += "," + constVal(cast<Constant>(&*o));
    return r + "]";
  }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
    std::string r = "[\"agg\",\"" + ty(t) + "\"";
    for (unsigned i = 0; i < cd->getNumElements(); i++) r += "," + constVal(cd->getElementAsConstant(i));
    return r + "]";
  }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::PtrToInt) return "[\"p2i\"," + std::to_string(t->getIntegerBitWidth()) + "," + constPtr(ce->getOperand(0)) + "]";
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add)
      return "[\"cebin\",\"" + std::string(ce->getOpcodeName()) + "\"," + constVal(ce->getOperand(0)) + "," + constVal(ce->getOperand(1)) + "]";
  }
  return "[\"unk\"]";
}
int main(int argc, char** argv) {
  LLVMContext C; SMDiagnostic E;
  auto M = parseIRFile(argv[1], E, C);
  if (!M) { E.print("irx", errs()); return 2; }
  DataLayout dl(M.get()); DL = &dl;
  for (auto& F : *M) {
    if (F.isDeclaration()) continue;
    StringRef n = F.getName();
    if (n.starts_with("vc_c_") || n.starts_with("vcs_")) noteFn(&F);
    for (int i = 2; i < argc; i++) if (n == argv[i]) noteFn(&F);
  }
  O << "{\"opts\":{";
  { bool f1 = true;
    for (auto& G : M->globals()) if (G.getName().starts_with("vc_o_") && G.hasInitializer()) {
      std::string v;
      if (auto* cd = dyn_cast<ConstantDataArray>(G.getInitializer())) v = cd->getAsCString().str();
      O << (f1 ? "" : ",") << "\"" << G.getName().drop_front(5).str() << "\":\"" << v << "\""; f1 = false;
    } }
  O << "},\"functions\":{";
  bool first = true;
  std::set<const Function*> done;
  std::string GS;
  while (!work.empty() || !gwork.empty()) {
    if (work.empty()) {
      const GlobalVariable* G = gwork.front(); gwork.pop_front();
      if (!GS.empty()) GS += ",\n";
      GS += esc(G->getName()) + ":{\"sz\":" + std::to_string(G->getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(G->getValueType()) : 0)
        + ",\"const\":" + (G->isConstant() ? "true" : "false") + ",\"t\":\"" + ty(G->getValueType()) + "\"";
      if (G->hasInitializer()) GS += ",\"init\":" + constVal(G->getInitializer());
      GS += "}";
      continue;
    }
    const Function* Fc = work.front(); work.pop_front();
    Function& F = *const_cast<Function*>(Fc);
    if (!first) O << ",\n"; first = false;
    O << esc(F.getName()) << ":{\"dem\":" << esc(demangle(F.getName().str())) << ",\"ret\":\"" << ty(F.getReturnType()) << "\"";
    if (auto* sp = F.getSubprogram()) O << ",\"file\":" << esc(sp->getFilename()) << ",\"line\":" << sp->getLine();
    O << ",\"noreturn\":" << (F.doesNotReturn() ? "true" : "false");
    std::map<const Value*, int> id; int n = 0;
    O << ",\"args\":[";
    for (auto& a : F.args()) {
      if (n) O << ",";
      O << "[\"" << ty(a.getType()) << "\"";
      if (a.hasByValAttr()) O << ",\"byval\"," << DL->getTypeAllocSize(a.getParamByValType());
      else if (a.hasStructRetAttr()) O << ",\"sret\"," << DL->getTypeAllocSize(a.getParamStructRetType());
      O << "]";
      id[&a] = n++;
    }
    O << "]";
    if (F.isDeclaration()) { O << ",\"decl\":true}"; continue; }
    std::map<const BasicBlock*, int> bid; int nb = 0;
    for (auto& B : F) bid[&B] = nb++;
    for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) id[&I] = n++;
    DominatorTree DT(F); LoopInfo LI(DT);
    O << ",\"loops\":[";
    bool fl = true;
    for (Loop* L : LI.getLoopsInPreorder()) {
      if (!fl) O << ","; fl = false;
      O << "{\"h\":" << bid[L->getHeader()] << ",\"b\":[";
      bool f2 = true;
      for (auto* B : L->blocks()) { if (!f2) O << ","; f2 = false; O << bid[B]; }
      O << "]}";
    }
    O << "],\"blocks\":[";
    auto val = [&](const Value* v) -> std::string {
      auto it = id.find(v);
      if (it != id.end()) return std::to_string(it->second);
      if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
      return "[\"unk\"]";
    };
    bool fb = true;
    for (auto& B : F) {
      if (!fb) O << ",\n "; fb = false;
      O << "[";
      bool fi = true;
      for (auto& I : B) {
        if (isa<DbgInfoIntrinsic>(&I)) continue;
        if (!fi) O << ","; fi = false;
        O << "{\"o\":\"" << I.getOpcodeName() << "\"";
        if (!I.getType()->isVoidTy()) O << ",\"r\":" << id[&I];
        O << ",\"t\":\"" << ty(I.getType()) << "\"";
        if (auto& d = I.getDebugLoc()) O << ",\"l\":" << d.getLine();
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (ob->hasNoSignedWrap()) O << ",\"nsw\":1";
          if (ob->hasNoUnsignedWrap()) O << ",\"nuw\":1";
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
          O << ",\"b\":" << val(g->getPointerOperand()) << ",\"in\":" << (g->isInBounds() ? 1 : 0) << ",\"ix\":[";
          int64_t off = 0; bool f2 = true;
          if (g->getType()->isVectorTy()) { errs() << "vector gep\n"; }
          for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) {
            Value* ix = gti.getOperand();
            if (StructType* st = gti.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            else {
              int64_t sc = DL->getTypeAllocSize(gti.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * sc;
              else { if (!f2) O << ","; f2 = false; O << "[" << val(ix) << "," << sc << "," << ix->getType()->getIntegerBitWidth() << "]"; }
            }
          }
          O << "],\"off\":" << off;
        } else if (auto* p = dyn_cast<PHINode>(&I)) {
          O << ",\"in\":[";
          for (unsigned i = 0; i < p->getNumIncomingValues(); i++) { if (i) O << ","; O << "[" << val(p->getIncomingValue(i)) << "," << bid[p->getIncomingBlock(i)] << "]"; }
          O << "]";
        } else if (auto* a = dyn_cast<AllocaInst>(&I)) {
          O << ",\"sz\":" << DL->getTypeAllocSize(a->getAllocatedType()) << ",\"n\":" << val(a->getArraySize()) << ",\"nm\":" << esc(a->getName());
        } else if (auto* c = dyn_cast<CmpInst>(&I)) {
          O << ",\"p\":\"" << CmpInst::getPredicateName(c->getPredicate()).str() << "\",\"ot\":\"" << ty(c->getOperand(0)->getType()) << "\",\"a\":[" << val(c->getOperand(0)) << "," << val(c->getOperand(1)) << "]";
        } else if (auto* cb = dyn_cast<CallBase>(&I)) {
          const Value* cv = cb->getCalledOperand()->stripPointerCasts();
          if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
          if (auto* cf = dyn_cast<Function>(cv)) { noteFn(cf); O << ",\"f\":" << esc(cf->getName()); }
          else if (cb->isInlineAsm()) O << ",\"f\":\"<asm>\"";
          else O << ",\"fp\":" << val(cv);
          O << ",\"a\":[";
          for (unsigned i = 0; i < cb->arg_size(); i++) { if (i) O << ","; O << val(cb->getArgOperand(i)); }
          O << "],\"at\":[";
          for (unsigned i = 0; i < cb->arg_size(); i++) {
            if (i) O << ","; O << "\"" << ty(cb->getArgOperand(i)->getType()) << "\"";
          }
          O << "],\"bv\":[";
          for (unsigned i = 0; i < cb->arg_size(); i++) {
            if (i) O << ","; O << (cb->isByValArgument(i) ? (int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
          }
          O << "]";
          if (auto* iv = dyn_cast<InvokeInst>(&I)) O << ",\"nd\":" << bid[iv->getNormalDest()] << ",\"ud\":" << bid[iv->getUnwindDest()];
        } else if (auto* br = dyn_cast<BranchInst>(&I)) {
          if (br->isConditional()) O << ",\"c\":" << val(br->getCondition()) << ",\"s\":[" << bid[br->getSuccessor(0)] << "," << bid[br->getSuccessor(1)] << "]";
          else O << ",\"s\":[" << bid[br->getSuccessor(0)] << "]";
        } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
          O << ",\"c\":" << val(sw->getCondition()) << ",\"d\":" << bid[sw->getDefaultDest()] << ",\"cs\":[";
          bool f2 = true;
          for (auto& cs : sw->cases()) { if (!f2) O << ","; f2 = false; O << "[\"" << apstr(cs.getCaseValue()->getValue()) << "\"," << bid[cs.getCaseSuccessor()] << "]"; }
          O << "]";
        } else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
          O << ",\"a\":[" << val(ev->getAggregateOperand()) << "],\"ix\":[";
          for (unsigned i = 0; i < ev->getNumIndices(); i++) { if (i) O << ","; O << ev->getIndices()[i]; }
          O << "]";
        } else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
          O << ",\"a\":[" << val(iv->getAggregateOperand()) << "," << val(iv->getInsertedValueOperand()) << "],\"ix\":[";
          for (unsigned i = 0; i < iv->getNumIndices(); i++) { if (i) O << ","; O << iv->getIndices()[i]; }
          O << "]";
        } else if (auto* sv = dyn_cast<ShuffleVectorInst>(&I)) {
          O << ",\"a\":[" << val(sv->getOperand(0)) << "," << val(sv->getOperand(1)) << "],\"m\":[";
          bool f2 = true; for (int m : sv->getShuffleMask()) { if (!f2) O << ","; f2 = false; O << m; }
          O << "]";
        } else {
          O << ",\"a\":[";
          for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) O << ","; O << val(I.getOperand(i)); }
          O << "],\"ot\":\"" << (I.getNumOperands() ? ty(I.getOperand(0)->getType()) : "void") << "\"";
        }
        O << "}";
      }
      O << "]";
    }
    O << "]}";
  }
  O << "},\n\"globals\":{" << GS << "}}\n";
  return 0;
}
