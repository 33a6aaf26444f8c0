// irx: read LLVM bitcode (or textual IR), normalise it, and write it as JSON for the rules.
//
//   irx IN.bc OUT.json [--passes=PIPELINE] [--keep=FILE] [--inline=FILE] [--only=FILE] [--outbc=FILE]
//
// --keep    functions listed there are kept as they are; every other function defined in the
//           module is treated as an extracted helper and inlined into its callers
// --inline  functions listed there are inlined even if kept
// --only    functions to export (default: every definition)
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <fstream>
#include <set>
#include <map>
#include <string>
using namespace llvm;

static std::set<std::string> readset(const std::string& p) {
  std::set<std::string> s; std::ifstream f(p); std::string l;
  while (std::getline(f, l)) { if (!l.empty() && l[0] != '#') s.insert(l); }
  return s;
}

static void js(raw_ostream& o, StringRef s) {
  o << '"';
  for (unsigned char c : s) {
    if (c == '"') o << "\\\"";
    else if (c == '\\') o << "\\\\";
    else if (c == '\n') o << "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o << b; }
    else o << (char)c;
  }
  o << '"';
}

static DenseMap<const Value*, unsigned> ids;
static DenseMap<const BasicBlock*, unsigned> bbs;
static const DataLayout* DL;

static std::string tystr(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) if (st->hasName()) return st->getName().str();
  std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

static bool cstr(const Value* v, std::string& out) {
  if (auto* g = dyn_cast<GlobalVariable>(v)) if (g->hasInitializer() && g->isConstant() && g->hasPrivateLinkage()) {
    if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) { out = d->getAsCString().str(); return true; }
    if (isa<ConstantAggregateZero>(g->getInitializer()) && g->getValueType()->isArrayTy() && g->getValueType()->getArrayElementType()->isIntegerTy(8)) { out = ""; return true; }
  }
  return false;
}

static std::string gepdesc(const GEPOperator* g);

static std::string opd(const Value* v) {
  std::string s;
  if (auto* c = dyn_cast<ConstantInt>(v)) {
    SmallString<32> t; if (c->getBitWidth() == 1) return c->isZero() ? "#0:1" : "#1:1";
    c->getValue().toStringSigned(t); return "#" + t.str().str() + ":" + std::to_string(c->getBitWidth());
  }
  if (auto* c = dyn_cast<ConstantFP>(v)) { SmallString<32> t; c->getValueAPF().toString(t); return "#f" + t.str().str() + (c->getType()->isFloatTy() ? ":f32" : ":f64"); }
  if (isa<ConstantPointerNull>(v)) return "null";
  if (isa<UndefValue>(v)) return "undef";
  if (cstr(v, s)) return "\"" + s;
  if (auto* g = dyn_cast<GlobalValue>(v)) return "@" + g->getName().str();
  if (auto* a = dyn_cast<Argument>(v)) return "$" + std::to_string(a->getArgNo());
  if (auto* b = dyn_cast<BasicBlock>(v)) return "!" + std::to_string(bbs[b]);
  if (isa<Instruction>(v)) return "%" + std::to_string(ids[v]);
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    std::string r = "(" + std::string(ce->getOpcodeName());
    if (auto* g = dyn_cast<GEPOperator>(ce)) r += " " + gepdesc(g);
    for (auto& o : ce->operands()) r += " " + opd(o.get());
    return r + ")";
  }
  if (isa<ConstantAggregateZero>(v)) return "#zero";
  if (isa<InlineAsm>(v)) return "asm";
  if (isa<MetadataAsValue>(v)) return "md";
  std::string t; raw_string_ostream o(t); v->printAsOperand(o, false); return "?" + o.str();
}

static std::string gepdesc(const GEPOperator* g) { return tystr(g->getSourceElementType()); }

static void constjs(raw_ostream& o, const Constant* c, int depth = 0) {
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) {
    if (d->isString() && depth == 0) { o << "["; js(o, "\"" + d->getAsString().rtrim('\0').str()); o << "]"; return; }
    o << "["; for (unsigned i = 0; i < d->getNumElements(); i++) { if (i) o << ","; js(o, opd(d->getElementAsConstant(i))); } o << "]"; return;
  }
  if (isa<ConstantArray>(c) || isa<ConstantStruct>(c)) {
    o << "["; for (unsigned i = 0; i < c->getNumOperands(); i++) { if (i) o << ","; constjs(o, cast<Constant>(c->getOperand(i)), depth + 1); } o << "]"; return;
  }
  js(o, opd(c));
}

int main(int argc, char** argv) {
  std::string in = argv[1], out = argv[2], passes, outbc; std::set<std::string> keep, inl, only; bool hk = false, ho = false;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i]; auto val = a.substr(a.find('=') + 1);
    if (a.rfind("--passes=", 0) == 0) passes = val;
    else if (a.rfind("--keep=", 0) == 0) { keep = readset(val); hk = true; }
    else if (a.rfind("--inline=", 0) == 0) inl = readset(val);
    else if (a.rfind("--only=", 0) == 0) { only = readset(val); ho = true; }
    else if (a.rfind("--outbc=", 0) == 0) outbc = val;
    else { errs() << "irx: bad argument " << a << "\n"; return 2; }
  }
  LLVMContext ctx; SMDiagnostic err;
  auto m = parseIRFile(in, err, ctx);
  if (!m) { err.print("irx", errs()); return 2; }
  DL = &m->getDataLayout();
  // debug info is collected before passes drop parts of it
  DebugInfoFinder F; F.processModule(*m);
  std::map<std::string, std::map<uint64_t, std::pair<std::string, std::string>>> di;  // struct -> offset -> (field, type)
  std::map<std::string, long long> enums; std::map<std::string, std::string> enumof;
  auto tn = [](DIType* t) -> std::string {
    std::string s; int ptr = 0;
    while (t) {
      if (auto* d = dyn_cast<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type) { ptr++; t = d->getBaseType(); continue; }
        if (d->getTag() == dwarf::DW_TAG_typedef && !d->getName().empty()) { s = d->getName().str(); break; }
        t = d->getBaseType(); continue;
      }
      if (isa<DISubroutineType>(t)) { s = "fn"; break; }
      s = t->getName().str(); break;
    }
    if (!t) s = "void";
    return s + std::string(ptr, '*');
  };
  // calling signature: every type by what the calling convention sees of it
  auto abi = [](DIType* t) -> std::string {
    while (t) {
      if (auto* d = dyn_cast<DIDerivedType>(t)) { if (d->getTag() == dwarf::DW_TAG_pointer_type) return "ptr"; t = d->getBaseType(); continue; }
      if (auto* b = dyn_cast<DIBasicType>(t)) {
        std::string k = b->getEncoding() == dwarf::DW_ATE_float ? "f" : (b->getEncoding() == dwarf::DW_ATE_unsigned || b->getEncoding() == dwarf::DW_ATE_unsigned_char || b->getEncoding() == dwarf::DW_ATE_boolean) ? "u" : "i";
        return k + std::to_string(b->getSizeInBits());
      }
      if (auto* c = dyn_cast<DICompositeType>(t)) { if (c->getTag() == dwarf::DW_TAG_enumeration_type) return "i" + std::to_string(c->getSizeInBits()); return "agg" + std::to_string(c->getSizeInBits()); }
      return "other";
    }
    return "void";
  };
  auto sigof = [&](DISubroutineType* st) -> std::string {
    std::string s; auto a = st->getTypeArray();
    for (unsigned i = 0; i < a.size(); i++) { auto* t = a[i]; s += (i ? "," : ""); if (!t && i) s += "..."; else s += abi(t); if (i == 0) s += "<-"; }
    if (!a.size()) s = "void<-";
    return s;
  };
  std::map<std::string, std::map<std::string, std::string>> sigs; std::map<std::string, std::string> fnsigs;
  for (auto* t : F.types()) if (auto* c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_structure_type && !c->getName().empty())
    for (auto* e : c->getElements()) if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) {
      DIType* x = d->getBaseType(); bool ptr = false;
      while (auto* y = dyn_cast_or_null<DIDerivedType>(x)) { if (y->getTag() == dwarf::DW_TAG_pointer_type) ptr = true; x = y->getBaseType(); }
      if (ptr) if (auto* st = dyn_cast_or_null<DISubroutineType>(x)) sigs["struct." + c->getName().str()][d->getName().str()] = sigof(st);
    }
  for (auto& f : *m) if (auto* sp = f.getSubprogram()) fnsigs[f.getName().str()] = sigof(sp->getType());
  for (auto* t : F.types()) if (auto* c = dyn_cast<DICompositeType>(t)) {
    if (c->getTag() == dwarf::DW_TAG_structure_type && !c->getName().empty()) {
      auto& mm = di["struct." + c->getName().str()];
      for (auto* e : c->getElements()) if (auto* d = dyn_cast_or_null<DIDerivedType>(e)) mm[d->getOffsetInBits() / 8] = {d->getName().str(), tn(d->getBaseType())};
    }
    if (c->getTag() == dwarf::DW_TAG_enumeration_type) for (auto* e : c->getElements()) if (auto* d = dyn_cast_or_null<DIEnumerator>(e)) enums[d->getName().str()] = d->getValue().getSExtValue();
  }
  if (hk || !inl.empty()) {
    for (auto& f : *m) if (!f.isDeclaration()) {
      std::string n = f.getName().str();
      { auto d = n.rfind('.'); if (d != std::string::npos && d + 1 < n.size() && n.find_first_not_of("0123456789", d + 1) == std::string::npos) n = n.substr(0, d); }
      if ((hk && !keep.count(n)) || inl.count(n)) {
        bool rec = false;
        for (auto& b : f) for (auto& i : b) if (auto* cb = dyn_cast<CallBase>(&i)) if (cb->getCalledFunction() == &f) rec = true;
        if (!rec && !f.isVarArg() && f.getName() != "main") { f.removeFnAttr(Attribute::NoInline); f.addFnAttr(Attribute::AlwaysInline); }
      }
    }
  }
  if (!passes.empty()) {
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, passes)) { errs() << "irx: " << toString(std::move(e)) << "\n"; return 2; }
    MPM.run(*m, MAM);
  }
  if (!outbc.empty()) { std::error_code ec; raw_fd_ostream o(outbc, ec); WriteBitcodeToFile(*m, o); }
  std::error_code ec; raw_fd_ostream o(out, ec);
  o << "{\"structs\":{"; bool first = true;
  for (auto* st : m->getIdentifiedStructTypes()) {
    if (st->isOpaque()) continue;
    if (!first) o << ",\n"; first = false;
    js(o, st->getName()); o << ":[";
    auto* sl = DL->getStructLayout(st); auto it = di.find(st->getName().str());
    for (unsigned i = 0; i < st->getNumElements(); i++) {
      if (i) o << ","; uint64_t off = sl->getElementOffset(i); std::string n = "f" + std::to_string(i), t;
      if (it != di.end()) { auto f = it->second.find(off); if (f != it->second.end()) { n = f->second.first; t = f->second.second; } }
      o << "["; js(o, n); o << "," << off << ","; js(o, tystr(st->getElementType(i))); o << ","; js(o, t); o << "]";
    }
    o << "]";
  }
  o << "},\n\"distructs\":{"; first = true;
  for (auto& p : di) { if (!first) o << ",\n"; first = false; js(o, p.first); o << ":["; bool f2 = true; for (auto& q : p.second) { if (!f2) o << ","; f2 = false; o << "["; js(o, q.second.first); o << "," << q.first << ","; js(o, q.second.second); o << "]"; } o << "]"; }
  o << "},\n\"sigs\":{"; first = true;
  for (auto& p : sigs) { if (!first) o << ",\n"; first = false; js(o, p.first); o << ":{"; bool f2 = true; for (auto& q : p.second) { if (!f2) o << ","; f2 = false; js(o, q.first); o << ":"; js(o, q.second); } o << "}"; }
  o << "},\n\"fnsigs\":{"; first = true;
  for (auto& p : fnsigs) { if (!first) o << ",\n"; first = false; js(o, p.first); o << ":"; js(o, p.second); }
  o << "},\n\"enums\":{"; first = true;
  for (auto& p : enums) { if (!first) o << ","; first = false; js(o, p.first); o << ":" << p.second; }
  o << "},\n\"globals\":{"; first = true;
  for (auto& g : m->globals()) {
    std::string s; if (cstr(&g, s)) continue;
    if (!first) o << ",\n"; first = false;
    js(o, g.getName()); o << ":{\"const\":" << (g.isConstant() ? 1 : 0) << ",\"type\":"; js(o, tystr(g.getValueType()));
    if (g.hasInitializer()) { o << ",\"init\":"; constjs(o, g.getInitializer()); }
    o << "}";
  }
  o << "},\n\"files\":[";
  std::map<std::string, unsigned> files; std::string body; { raw_string_ostream b(body);
  bool ff = true;
  for (auto& f : *m) {
    if (f.isDeclaration()) continue;
    if (ho && !only.count(f.getName().str())) continue;
    ids.clear(); bbs.clear(); unsigned n = 0, k = 0;
    for (auto& bb : f) { bbs[&bb] = k++; for (auto& i : bb) if (!isa<DbgInfoIntrinsic>(i) && !i.isLifetimeStartOrEnd() && !isa<AssumeInst>(i)) ids[&i] = n++; }
    DenseMap<const Value*, std::string> anames;
    for (auto& bb : f) for (auto& i : bb) if (auto* dd = dyn_cast<DbgDeclareInst>(&i)) if (auto* ad = dd->getAddress()) anames[ad] = dd->getVariable()->getName().str();
    if (!ff) b << ",\n"; ff = false;
    auto* sp = f.getSubprogram();
    b << "{\"name\":"; js(b, f.getName()); b << ",\"file\":"; js(b, sp ? sp->getFilename() : ""); b << ",\"line\":" << (sp ? sp->getLine() : 0);
    b << ",\"local\":" << (f.hasLocalLinkage() ? 1 : 0) << ",\"ret\":"; js(b, tystr(f.getReturnType())); b << ",\"params\":[";
    { bool p1 = true; std::vector<std::string> names(f.arg_size());
      if (sp) for (auto* nd : sp->getRetainedNodes()) if (auto* lv = dyn_cast<DILocalVariable>(nd)) if (lv->getArg() && lv->getArg() <= names.size()) names[lv->getArg() - 1] = lv->getName().str();
      for (auto& a : f.args()) { if (!p1) b << ","; p1 = false; std::string nm = names[a.getArgNo()]; if (nm.empty()) nm = a.getName().str(); b << "["; js(b, nm); b << ","; js(b, tystr(a.getType())); b << "]"; } }
    b << "],\"blocks\":[";
    bool fb = true;
    for (auto& bb : f) {
      if (!fb) b << ",\n "; fb = false; b << "["; bool fi = true;
      for (auto& i : bb) {
        if (!ids.count(&i)) continue;
        if (!fi) b << ",\n  "; fi = false;
        b << "[" << ids[&i] << ","; js(b, i.getOpcodeName()); b << ","; js(b, tystr(i.getType())); b << ",[";
        if (auto* p = dyn_cast<PHINode>(&i)) { for (unsigned q = 0; q < p->getNumIncomingValues(); q++) { if (q) b << ","; js(b, opd(p->getIncomingValue(q))); b << ","; js(b, "!" + std::to_string(bbs[p->getIncomingBlock(q)])); } }
        else if (auto* br = dyn_cast<BranchInst>(&i)) { if (br->isConditional()) { js(b, opd(br->getCondition())); b << ","; js(b, opd(br->getSuccessor(0))); b << ","; js(b, opd(br->getSuccessor(1))); } else js(b, opd(br->getSuccessor(0))); }
        else if (auto* cb = dyn_cast<CallBase>(&i)) { js(b, opd(cb->getCalledOperand())); for (auto& a : cb->args()) { b << ","; js(b, opd(a.get())); } }
        else { bool f3 = true; for (auto& a : i.operands()) { if (!f3) b << ","; f3 = false; js(b, opd(a.get())); } }
        b << "],";
        if (auto* g = dyn_cast<GEPOperator>(&i)) js(b, gepdesc(g));
        else if (auto* c = dyn_cast<CmpInst>(&i)) js(b, CmpInst::getPredicateName(c->getPredicate()));
        else if (auto* a = dyn_cast<AllocaInst>(&i)) { std::string d = tystr(a->getAllocatedType()) + "|" + anames[a]; js(b, d); }
        else if (auto* st = dyn_cast<StoreInst>(&i)) js(b, tystr(st->getValueOperand()->getType()));
        else if (auto* c = dyn_cast<CastInst>(&i)) js(b, tystr(c->getSrcTy()));
        else if (auto* r = dyn_cast<AtomicRMWInst>(&i)) js(b, AtomicRMWInst::getOperationName(r->getOperation()));
        else if (auto* ev = dyn_cast<ExtractValueInst>(&i)) { std::string s; for (auto x : ev->getIndices()) s += std::to_string(x) + ","; js(b, s); }
        else b << "\"\"";
        if (auto& dl = i.getDebugLoc()) {
          auto* sc = cast<DIScope>(dl.getScope()); std::string fn = sc->getFilename().str();
          auto it = files.find(fn); unsigned fi2; if (it == files.end()) { fi2 = files.size(); files[fn] = fi2; } else fi2 = it->second;
          b << "," << fi2 << "," << dl.getLine();
        } else b << ",-1,0";
        b << "]";
      }
      b << "]";
    }
    b << "]}";
  } }
  { std::vector<std::string> fv(files.size()); for (auto& p : files) fv[p.second] = p.first; bool f1 = true; for (auto& s : fv) { if (!f1) o << ","; f1 = false; js(o, s); } }
  o << "],\n\"funcs\":[" << body << "]}\n";
  return 0;
}
