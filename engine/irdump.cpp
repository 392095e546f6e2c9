// irdump: LLVM bitcode -> JSON for the VC generator (vcg.py).
// Purely syntactic: prints every instruction of every function reachable from
// the roots given on the command line. No semantics is decided here, except
// that GEPs are decomposed with the module's DataLayout into
// constant offset + sum(index * scale).
#include <cxxabi.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/PostDominators.h>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;
using std::string;

static const DataLayout* DL;
static std::set<const Function*> seenF;
static std::deque<const Function*> workF;
static std::set<const GlobalVariable*> seenG;
static std::deque<const GlobalVariable*> workG;
static std::map<const Value*, unsigned> ids;

static string esc(StringRef s) {
  string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static string demangle(const string& n) {
  int st = 0;
  char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
  string r = (st == 0 && d) ? d : n;
  free(d);
  return r;
}
static string ty(Type* t) {
  if (t->isVoidTy()) return "\"void\"";
  if (t->isPointerTy()) return "\"ptr\"";
  if (t->isFloatTy()) return "\"float\"";
  if (t->isDoubleTy()) return "\"double\"";
  if (t->isX86_FP80Ty()) return "\"fp80\"";
  if (auto* i = dyn_cast<IntegerType>(t)) return "\"i" + std::to_string(i->getBitWidth()) + "\"";
  if (auto* s = dyn_cast<StructType>(t)) {
    string r = "{\"k\":\"struct\",\"sz\":";
    r += s->isSized() ? std::to_string(DL->getTypeAllocSize(s).getFixedValue()) : "0";
    if (s->hasName()) r += ",\"n\":" + esc(s->getName());
    r += ",\"e\":[";
    if (s->isSized()) {
      auto* L = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); ++i) {
        if (i) r += ",";
        r += "[" + std::to_string(L->getElementOffset(i).getFixedValue()) + "," + ty(s->getElementType(i)) + "]";
      }
    }
    return r + "]}";
  }
  if (auto* a = dyn_cast<ArrayType>(t))
    return "{\"k\":\"array\",\"n\":" + std::to_string(a->getNumElements()) + ",\"es\":" +
           std::to_string(DL->getTypeAllocSize(a->getElementType()).getFixedValue()) + ",\"e\":" + ty(a->getElementType()) + "}";
  if (auto* v = dyn_cast<FixedVectorType>(t))
    return "{\"k\":\"vec\",\"n\":" + std::to_string(v->getNumElements()) + ",\"e\":" + ty(v->getElementType()) + "}";
  return "\"other\"";
}
static unsigned vid(const Value* v) {
  auto it = ids.find(v);
  if (it != ids.end()) return it->second;
  unsigned n = ids.size();
  ids[v] = n;
  return n;
}
static string val(const Value* v);
static string gep(const GEPOperator* g) {
  unsigned bw = DL->getIndexTypeSizeInBits(g->getType());
  MapVector<Value*, APInt> vars;
  APInt c(bw, 0);
  string r = "[\"gep\"," + val(g->getPointerOperand());
  if (!g->collectOffset(*DL, bw, vars, c)) return "[\"unk\",\"gep\"]";
  r += "," + std::to_string(c.getSExtValue()) + ",[";
  bool first = true;
  for (auto& p : vars) {
    if (!first) r += ",";
    first = false;
    r += "[" + val(p.first) + "," + std::to_string(p.second.getSExtValue()) + "]";
  }
  return r + "]]";
}
static string val(const Value* v) {
  if (auto* ci = dyn_cast<ConstantInt>(v)) {
    SmallString<40> s;
    ci->getValue().toString(s, 10, false);
    return "[\"c\"," + std::to_string(ci->getBitWidth()) + ",\"" + string(s.str()) + "\"]";
  }
  if (auto* f = dyn_cast<ConstantFP>(v)) {
    SmallString<64> s;
    APFloat a = f->getValueAPF();
    bool li;
    a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
    char b[64];
    snprintf(b, 64, "%a", a.convertToDouble());
    return "[\"fp\",\"" + string(b) + "\"," + ty(v->getType()) + "]";
  }
  if (isa<ConstantPointerNull>(v)) return "[\"null\"]";
  if (isa<UndefValue>(v)) return "[\"undef\"," + ty(v->getType()) + "]";
  if (auto* f = dyn_cast<Function>(v)) {
    if (seenF.insert(f).second) workF.push_back(f);
    return "[\"f\"," + esc(f->getName()) + "]";
  }
  if (auto* a = dyn_cast<GlobalAlias>(v)) return val(a->getAliasee());
  if (auto* g = dyn_cast<GlobalVariable>(v)) {
    if (seenG.insert(g).second) workG.push_back(g);
    return "[\"g\"," + esc(g->getName()) + "]";
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return gep(g);
    string r = "[\"ce\"," + esc(ce->getOpcodeName()) + "," + ty(ce->getType());
    for (auto& o : ce->operands()) r += "," + val(o);
    return r + "]";
  }
  if (isa<ConstantAggregateZero>(v)) return "[\"zero\"," + ty(v->getType()) + "]";
  if (auto* ca = dyn_cast<ConstantDataSequential>(v)) {
    string r = "[\"agg\"," + ty(v->getType()) + ",[";
    for (unsigned i = 0; i < ca->getNumElements(); ++i) {
      if (i) r += ",";
      r += val(ca->getElementAsConstant(i));
    }
    return r + "]]";
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(v)) {
    string r = "[\"agg\"," + ty(v->getType()) + ",[";
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
      if (i) r += ",";
      r += val(ca->getOperand(i));
    }
    return r + "]]";
  }
  if (isa<Instruction>(v) || isa<Argument>(v)) return "[\"v\"," + std::to_string(vid(v)) + "]";
  if (isa<InlineAsm>(v)) return "[\"unk\",\"asm\"]";
  return "[\"unk\",\"val\"]";
}

static void dumpFunc(const Function* f, raw_ostream& os) {
  ids.clear();
  os << "{\"n\":" << esc(f->getName()) << ",\"d\":" << esc(demangle(f->getName().str())) << ",\"rt\":" << ty(f->getReturnType());
  if (auto* sp = f->getSubprogram()) os << ",\"file\":" << esc(sp->getFilename()) << ",\"line\":" << sp->getLine();
  os << ",\"va\":" << (f->isVarArg() ? 1 : 0);
  os << ",\"args\":[";
  bool first = true;
  for (auto& a : f->args()) {
    if (!first) os << ",";
    first = false;
    os << "[" << vid(&a) << "," << ty(a.getType()) << "," << (a.hasByValAttr() ? DL->getTypeAllocSize(a.getParamByValType()).getFixedValue() : 0)
       << "," << (a.hasStructRetAttr() ? 1 : 0) << "," << a.getDereferenceableBytes() << "]";
  }
  os << "]";
  if (f->isDeclaration()) { os << "}"; return; }
  std::map<const BasicBlock*, unsigned> bi;
  for (auto& b : *f) { unsigned n = bi.size(); bi[&b] = n; }
  DominatorTree DT(*const_cast<Function*>(f));
  LoopInfo LI(DT);
  PostDominatorTree PDT(*const_cast<Function*>(f));
  os << ",\"pdom\":[";
  first = true;
  for (auto& b : *f) {
    if (!first) os << ",";
    first = false;
    auto* nd = PDT.getNode(const_cast<BasicBlock*>(&b));
    auto* ip = nd ? nd->getIDom() : nullptr;
    if (ip && ip->getBlock()) os << bi[ip->getBlock()]; else os << -1;
  }
  os << "]";
  os << ",\"loops\":[";
  first = true;
  for (auto* L : LI.getLoopsInPreorder()) {
    if (!first) os << ",";
    first = false;
    os << "{\"h\":" << bi[L->getHeader()] << ",\"b\":[";
    bool ff = true;
    for (auto* b : L->blocks()) { if (!ff) os << ","; ff = false; os << bi[b]; }
    os << "]}";
  }
  os << "],\"blocks\":[";
  bool fb = true;
  for (auto& b : *f) {
    if (!fb) os << ",\n";
    fb = false;
    os << "[";
    bool fi = true;
    for (auto& I : b) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      if (!fi) os << ",";
      fi = false;
      unsigned line = 0;
      if (auto& dl = I.getDebugLoc()) line = dl.getLine();
      os << "{\"i\":" << vid(&I) << ",\"t\":" << ty(I.getType()) << ",\"l\":" << line;
      auto ops = [&](const char* name) {
        os << ",\"o\":\"" << name << "\",\"a\":[";
        bool q = true;
        for (auto& o : I.operands()) {
          if (isa<BasicBlock>(o)) continue;
          if (!q) os << ",";
          q = false;
          os << val(o);
        }
        os << "]";
      };
      if (auto* x = dyn_cast<AllocaInst>(&I)) {
        os << ",\"o\":\"alloca\",\"at\":" << ty(x->getAllocatedType()) << ",\"sz\":" << DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue()
           << ",\"cnt\":" << val(x->getArraySize());
      } else if (auto* x = dyn_cast<LoadInst>(&I)) {
        os << ",\"o\":\"load\",\"p\":" << val(x->getPointerOperand()) << ",\"sz\":" << DL->getTypeStoreSize(x->getType()).getFixedValue();
      } else if (auto* x = dyn_cast<StoreInst>(&I)) {
        os << ",\"o\":\"store\",\"p\":" << val(x->getPointerOperand()) << ",\"v\":" << val(x->getValueOperand())
           << ",\"vt\":" << ty(x->getValueOperand()->getType()) << ",\"sz\":" << DL->getTypeStoreSize(x->getValueOperand()->getType()).getFixedValue();
      } else if (auto* x = dyn_cast<GetElementPtrInst>(&I)) {
        os << ",\"o\":\"gep\",\"g\":" << gep(cast<GEPOperator>(x)) << ",\"et\":" << ty(x->getSourceElementType()) << ",\"ib\":" << (x->isInBounds() ? 1 : 0);
      } else if (auto* x = dyn_cast<PHINode>(&I)) {
        os << ",\"o\":\"phi\",\"in\":[";
        for (unsigned k = 0; k < x->getNumIncomingValues(); ++k) {
          if (k) os << ",";
          os << "[" << bi[x->getIncomingBlock(k)] << "," << val(x->getIncomingValue(k)) << "]";
        }
        os << "]";
      } else if (auto* x = dyn_cast<BranchInst>(&I)) {
        if (x->isUnconditional()) os << ",\"o\":\"br\",\"d\":" << bi[x->getSuccessor(0)];
        else os << ",\"o\":\"cbr\",\"c\":" << val(x->getCondition()) << ",\"d\":[" << bi[x->getSuccessor(0)] << "," << bi[x->getSuccessor(1)] << "]";
      } else if (auto* x = dyn_cast<SwitchInst>(&I)) {
        os << ",\"o\":\"switch\",\"c\":" << val(x->getCondition()) << ",\"dd\":" << bi[x->getDefaultDest()] << ",\"cs\":[";
        bool q = true;
        for (auto& c : x->cases()) {
          if (!q) os << ",";
          q = false;
          os << "[" << val(c.getCaseValue()) << "," << bi[c.getCaseSuccessor()] << "]";
        }
        os << "]";
      } else if (auto* x = dyn_cast<CallBase>(&I)) {
        os << ",\"o\":\"" << (isa<InvokeInst>(x) ? "invoke" : "call") << "\",\"f\":" << val(x->getCalledOperand()->stripPointerCasts()) << ",\"a\":[";
        for (unsigned k = 0; k < x->arg_size(); ++k) {
          if (k) os << ",";
          if (isa<MetadataAsValue>(x->getArgOperand(k))) os << "[\"unk\",\"md\"]";
          else os << val(x->getArgOperand(k));
        }
        os << "]";
        string bv;
        for (unsigned k = 0; k < x->arg_size(); ++k)
          if (x->isByValArgument(k)) bv += (bv.empty() ? "" : ",") + ("[" + std::to_string(k) + "," + std::to_string(DL->getTypeAllocSize(x->getParamByValType(k)).getFixedValue()) + "]");
        if (!bv.empty()) os << ",\"bv\":[" << bv << "]";
        if (auto* iv = dyn_cast<InvokeInst>(x)) os << ",\"d\":[" << bi[iv->getNormalDest()] << "," << bi[iv->getUnwindDest()] << "]";
      } else if (auto* x = dyn_cast<CmpInst>(&I)) {
        os << ",\"o\":\"" << (isa<ICmpInst>(x) ? "icmp" : "fcmp") << "\",\"p\":" << esc(CmpInst::getPredicateName(x->getPredicate())) << ",\"a\":[" << val(x->getOperand(0)) << "," << val(x->getOperand(1)) << "],\"ot\":" << ty(x->getOperand(0)->getType());
      } else if (auto* x = dyn_cast<ReturnInst>(&I)) {
        os << ",\"o\":\"ret\"";
        if (x->getReturnValue()) os << ",\"v\":" << val(x->getReturnValue());
      } else if (auto* x = dyn_cast<ExtractValueInst>(&I)) {
        os << ",\"o\":\"extractvalue\",\"a\":[" << val(x->getAggregateOperand()) << "],\"ix\":[";
        for (unsigned k = 0; k < x->getNumIndices(); ++k) os << (k ? "," : "") << x->getIndices()[k];
        os << "]";
      } else if (auto* x = dyn_cast<InsertValueInst>(&I)) {
        os << ",\"o\":\"insertvalue\",\"a\":[" << val(x->getAggregateOperand()) << "," << val(x->getInsertedValueOperand()) << "],\"ix\":[";
        for (unsigned k = 0; k < x->getNumIndices(); ++k) os << (k ? "," : "") << x->getIndices()[k];
        os << "]";
      } else if (auto* x = dyn_cast<AtomicRMWInst>(&I)) {
        os << ",\"o\":\"atomicrmw\",\"op\":" << esc(AtomicRMWInst::getOperationName(x->getOperation())) << ",\"p\":" << val(x->getPointerOperand()) << ",\"v\":" << val(x->getValOperand()) << ",\"sz\":" << DL->getTypeStoreSize(x->getType()).getFixedValue();
      } else if (auto* x = dyn_cast<AtomicCmpXchgInst>(&I)) {
        os << ",\"o\":\"cmpxchg\",\"p\":" << val(x->getPointerOperand()) << ",\"cv\":" << val(x->getCompareOperand()) << ",\"nv\":" << val(x->getNewValOperand()) << ",\"sz\":" << DL->getTypeStoreSize(x->getCompareOperand()->getType()).getFixedValue();
      } else if (isa<LandingPadInst>(&I)) {
        os << ",\"o\":\"landingpad\"";
      } else if (auto* x = dyn_cast<CastInst>(&I)) {
        os << ",\"st\":" << ty(x->getSrcTy());
        ops(I.getOpcodeName());
      } else {
        string fl;
        if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&I)) {
          if (ob->hasNoSignedWrap()) fl += "s";
          if (ob->hasNoUnsignedWrap()) fl += "u";
        }
        if (!fl.empty()) os << ",\"fl\":\"" << fl << "\"";
        ops(I.getOpcodeName());
      }
      os << "}";
    }
    os << "]";
  }
  os << "]}";
}

int main(int argc, char** argv) {
  // irdump in.bc out.json root...   (root "*" = all defined functions; "@file" = stop list)
  LLVMContext C;
  SMDiagnostic err;
  auto M = parseIRFile(argv[1], err, C);
  if (!M) { err.print("irdump", errs()); return 2; }
  DL = &M->getDataLayout();
  std::set<string> stop;
  for (int i = 3; i < argc; ++i) {
    string a = argv[i];
    if (a == "*") {
      for (auto& f : *M) if (!f.isDeclaration() && seenF.insert(&f).second) workF.push_back(&f);
      continue;
    }
    if (a[0] == '^') {  // prefix
      for (auto& f : *M) if (f.getName().starts_with(a.substr(1)) && seenF.insert(&f).second) workF.push_back(&f);
      continue;
    }
    auto* f = M->getFunction(a);
    if (f && seenF.insert(f).second) workF.push_back(f);
  }
  std::error_code ec;
  raw_fd_ostream os(argv[2], ec);
  os << "{\"functions\":[\n";
  bool first = true;
  std::vector<string> gl;
  while (!workF.empty() || !workG.empty()) {
    if (!workF.empty()) {
      auto* f = workF.front();
      workF.pop_front();
      if (f->getName().starts_with("vp_init_")) {  // stands for the dynamic initialisation of that source file
        if (auto* g = M->getFunction(("_GLOBAL__sub_I_" + f->getName().substr(8) + ".cpp").str()))
          if (seenF.insert(g).second) workF.push_back(g);
      }
      if (!first) os << ",\n";
      first = false;
      dumpFunc(f, os);
    } else {
      auto* g = workG.front();
      workG.pop_front();
      string r = "{\"n\":" + esc(g->getName()) + ",\"d\":" + esc(demangle(g->getName().str())) + ",\"t\":" + ty(g->getValueType()) + ",\"sz\":" +
                 std::to_string(g->getValueType()->isSized() ? DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 0) + ",\"const\":" + (g->isConstant() ? "1" : "0");
      if (g->hasInitializer()) r += ",\"init\":" + val(g->getInitializer());
      gl.push_back(r + "}");
    }
  }
  os << "],\n\"globals\":[\n";
  for (size_t i = 0; i < gl.size(); ++i) os << (i ? ",\n" : "") << gl[i];
  os << "],\n\"structs\":{";
  bool f1 = true;
  for (auto* s : M->getIdentifiedStructTypes()) {
    if (!s->isSized()) continue;
    if (!f1) os << ",";
    f1 = false;
    os << esc(s->getName()) << ":" << DL->getTypeAllocSize(s).getFixedValue();
  }
  os << "}}\n";
  return 0;
}
