// cwdir: link LLVM bitcode of libcwd translation units, optionally inline, and
// export the program as JSON for the rules in /verif/lint.
//
// usage: cwdir OUT.json MODE ROOTFILE IN.bc...
//   MODE     raw : promote locals to SSA only (every call stays a call)
//            inl : inline every function of the repository (and the small
//                  library wrappers selected below) into its callers.
//   ROOTFILE lines: "repo PREFIX"   source directory prefix that counts as repository
//                   "noinline RE"   demangled name (without arguments) regex, never inlined
//                   "inline RE"     demangled name regex of non-repository functions to inline
//                   "dump RE"       demangled name regex of functions to export in inl mode (roots)
#include "llvm/ADT/SmallString.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <functional>
#include <map>
#include <regex>
#include <set>

using namespace llvm;

static std::vector<std::string> repo_prefixes;
static std::vector<std::regex> re_noinline, re_inline, re_dump;

static std::string dem(StringRef n) { return demangle(n.str()); }

// Strip the argument list (and what follows) of a demangled function name.
static std::string base_name(std::string const& d)
{
  // Find the '(' that opens the parameter list: the first '(' at template depth 0 that is not
  // part of "operator()" or "(anonymous namespace)".
  int depth = 0;
  for (size_t i = 0; i < d.size(); ++i)
  {
    if (d.compare(i, 21, "(anonymous namespace)") == 0)
    {
      i += 20;
      continue;
    }
    if (d.compare(i, 10, "operator()") == 0)
    {
      i += 9;
      continue;
    }
    if (d.compare(i, 8, "operator") == 0)
    {
      size_t j = i + 8;
      while (j < d.size() && (d[j] == '<' || d[j] == '>' || d[j] == '=' || d[j] == '-'))
        ++j;
      if (j > i + 8)
      {
        i = j - 1;
        continue;
      }
    }
    char c = d[i];
    if (c == '<')
      ++depth;
    else if (c == '>')
      --depth;
    else if (c == '(' && depth == 0)
    {
      if (d.compare(i, 8, "('lambda") == 0 || d.compare(i, 9, "(.anonymo") == 0)
        continue;
      return d.substr(0, i);
    }
  }
  return d;
}

// Remove a leading return type (present for template functions).
static std::string fname(StringRef n)
{
  std::string d = base_name(dem(n));
  int depth = 0;
  size_t cut = 0;
  for (size_t i = 0; i < d.size(); ++i)
  {
    char c = d[i];
    if (d.compare(i, 8, "operator") == 0)
      break;
    if (d.compare(i, 21, "(anonymous namespace)") == 0)
    {
      i += 20;
      continue;
    }
    if (c == '<' || c == '(' || c == '{' || c == '\'')
      ++depth;
    else if (c == '>' || c == ')' || c == '}')
      --depth;
    else if (c == ' ' && depth == 0)
      cut = i + 1;
  }
  return d.substr(cut);
}

// The name of a function, with those of the functions that it is local to without their arguments: f::$_0::operator().
static std::string nested_name(StringRef m)
{
  std::string d = dem(m);
  std::string n = fname(m);
  std::string out = n;
  for (;;)
  {
    std::string b = base_name(d);
    if (b.size() >= d.size() || d[b.size()] != '(')
      return out;
    size_t i = b.size();
    int depth = 0;
    for (; i < d.size(); ++i)
    {
      if (d[i] == '(')
        ++depth;
      else if (d[i] == ')' && --depth == 0)
        break;
    }
    if (i >= d.size())
      return out;
    ++i;
    for (char const* q : {" const", " volatile", " &", " &&", " noexcept"})
      if (d.compare(i, strlen(q), q) == 0)
        i += strlen(q);
    if (d.compare(i, 5, "[abi:") == 0)
      i = d.find(']', i) + 1;
    if (d.compare(i, 2, "::") != 0)
      return out;
    d = d.substr(i + 2);
    out += "::" + base_name(d);
  }
}

static bool in_repo_file(StringRef dir, StringRef file)
{
  SmallString<256> p;
  if (!file.starts_with("/"))
  {
    p = dir;
    p += "/";
  }
  p += file;
  for (auto& r : repo_prefixes)
    if (StringRef(p).starts_with(r))
      return true;
  return false;
}

static bool is_repo(Function const& F)
{
  if (DISubprogram* sp = F.getSubprogram())
    return in_repo_file(sp->getDirectory(), sp->getFilename());
  return F.getName().starts_with("_GLOBAL__sub_I_") || F.getName().starts_with("__cxx_global_var_init");
}

static bool match_any(std::vector<std::regex> const& v, std::string const& s)
{
  for (auto& r : v)
    if (std::regex_search(s, r))
      return true;
  return false;
}

// ---------------------------------------------------------------------------
// Field annotation.

static std::string struct_path(GEPOperator* gep)
{
  // "Struct|i.j" for the constant struct indices of this gep.
  Type* t = gep->getSourceElementType();
  std::string out;
  auto* st = dyn_cast<StructType>(t);
  if (st && st->hasName())
    out = st->getName().str();
  else
    return "";
  out += "|";
  bool first = true;
  Type* cur = t;
  unsigned n = 0;
  for (auto it = gep->idx_begin(); it != gep->idx_end(); ++it, ++n)
  {
    if (n == 0)
      continue;
    auto* ci = dyn_cast<ConstantInt>(*it);
    if (auto* s = dyn_cast<StructType>(cur))
    {
      if (!ci)
        return "";
      if (!first)
        out += ".";
      first = false;
      out += std::to_string(ci->getZExtValue());
      cur = s->getElementType(ci->getZExtValue());
    }
    else
      break;
  }
  if (first)
    return "";
  return out;
}

static void annotate(Module& M)
{
  LLVMContext& C = M.getContext();
  for (Function& F : M)
    for (Instruction& I : instructions(F))
    {
      if (auto* g = dyn_cast<GetElementPtrInst>(&I))
      {
        std::string s = struct_path(cast<GEPOperator>(g));
        if (!s.empty())
          I.setMetadata("cwd.g", MDNode::get(C, {MDString::get(C, s)}));
        continue;
      }
      Value* p = nullptr;
      if (auto* l = dyn_cast<LoadInst>(&I))
        p = l->getPointerOperand();
      else if (auto* s = dyn_cast<StoreInst>(&I))
        p = s->getPointerOperand();
      else if (auto* a = dyn_cast<AtomicRMWInst>(&I))
        p = a->getPointerOperand();
      else if (auto* a = dyn_cast<AtomicCmpXchgInst>(&I))
        p = a->getPointerOperand();
      if (!p)
        continue;
      if (auto* g = dyn_cast<GEPOperator>(p))
      {
        std::string s = struct_path(g);
        if (!s.empty())
          I.setMetadata("cwd.f", MDNode::get(C, {MDString::get(C, s)}));
      }
    }
}

// ---------------------------------------------------------------------------
// Virtual calls: remember "class#slot" on the call instruction.

// (class type-id, slot) -> function name, from debug info.
static std::map<std::pair<std::string, unsigned>, std::string> vslots;
static std::map<std::string, std::string> base_of; // first base, for inherited slots

static void collect_vslots(Module& M)
{
  DebugInfoFinder F;
  F.processModule(M);
  for (DIType* t : F.types())
  {
    auto* ct = dyn_cast<DICompositeType>(t);
    if (!ct || ct->getIdentifier().empty())
      continue;
    for (auto* el : ct->getElements())
    {
      if (auto* sp = dyn_cast<DISubprogram>(el))
      {
        if (sp->getVirtuality() && sp->getVirtualIndex() != ~0U && !sp->getName().starts_with("~"))
        {
          std::string n = dem(StringRef(ct->getIdentifier().substr(4)).str());
          std::string cls = demangle(("_Z" + ct->getIdentifier().substr(4)).str());
          std::string f = cls + "::" + sp->getName().str();
          vslots[{ct->getIdentifier().str(), sp->getVirtualIndex()}] = f;
        }
      }
      else if (auto* d = dyn_cast<DIDerivedType>(el))
      {
        if (d->getTag() == dwarf::DW_TAG_inheritance)
          if (auto* b = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
            if (!base_of.count(ct->getIdentifier().str()))
              base_of[ct->getIdentifier().str()] = b->getIdentifier().str();
      }
    }
  }
}

static std::string lookup_vslot(std::string cls, unsigned slot)
{
  for (int i = 0; i < 20; ++i)
  {
    auto it = vslots.find({cls, slot});
    if (it != vslots.end())
      return it->second;
    auto b = base_of.find(cls);
    if (b == base_of.end())
      break;
    cls = b->second;
  }
  return "";
}

static void annotate_virtual(Module& M)
{
  LLVMContext& C = M.getContext();
  for (Function& F : M)
    for (Instruction& I : instructions(F))
    {
      auto* cb = dyn_cast<CallBase>(&I);
      if (!cb || cb->getCalledFunction())
        continue;
      auto* l = dyn_cast<LoadInst>(cb->getCalledOperand());
      if (!l)
        continue;
      Value* vt = l->getPointerOperand();
      unsigned slot = 0;
      if (auto* g = dyn_cast<GetElementPtrInst>(vt))
      {
        auto* ci = dyn_cast<ConstantInt>(g->getOperand(1));
        if (!ci)
          continue;
        slot = ci->getZExtValue();
        vt = g->getPointerOperand();
      }
      std::string cls;
      for (User* u : vt->users())
        if (auto* c2 = dyn_cast<CallBase>(u))
          if (Function* f = c2->getCalledFunction())
            if (f->getName() == "llvm.type.test" || f->getName() == "llvm.public.type.test")
              if (auto* mv = dyn_cast<MetadataAsValue>(c2->getArgOperand(1)))
                if (auto* ms = dyn_cast<MDString>(mv->getMetadata()))
                  cls = ms->getString().str();
      if (cls.empty())
        continue;
      std::string n = lookup_vslot(cls, slot);
      if (n.empty())
        n = cls + "#" + std::to_string(slot);
      I.setMetadata("cwd.v", MDNode::get(C, {MDString::get(C, n)}));
    }
}

// Layouts of the named structs of every module, taken before linking (the linker merges isomorphic types).
static std::map<std::string, std::vector<std::pair<int64_t, std::string>>> struct_layouts;

static void collect_structs(Module& M)
{
  auto& DL = M.getDataLayout();
  for (StructType* st : M.getIdentifiedStructTypes())
  {
    if (!st->hasName() || st->isOpaque() || !st->isSized())
      continue;
    auto& v = struct_layouts[st->getName().str()];
    if (!v.empty())
      continue;
    auto* sl = DL.getStructLayout(st);
    for (unsigned i = 0; i < st->getNumElements(); ++i)
    {
      std::string s;
      raw_string_ostream os(s);
      st->getElementType(i)->print(os, false, true);
      v.emplace_back((int64_t)sl->getElementOffset(i).getFixedValue(), os.str());
    }
  }
}

// ---------------------------------------------------------------------------
// Export.

struct Exporter
{
  Module& M;
  DataLayout const& DL;
  raw_ostream& OS;
  json::OStream J;
  std::map<Value const*, int> ids;

  Exporter(Module& m, raw_ostream& os) : M(m), DL(m.getDataLayout()), OS(os), J(os) { }

  static std::string type_str(Type* t)
  {
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
  }

  json::Value constant(Constant const* c, int depth = 0)
  {
    if (depth > 8)
      return json::Object{{"u", 1}};
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
      if (ci->getBitWidth() > 64)
        return json::Object{{"u", 1}};
      return json::Object{{"c", ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue()}};
    }
    if (isa<ConstantPointerNull>(c))
      return json::Object{{"n", 1}};
    if (auto* f = dyn_cast<ConstantFP>(c))
    {
      SmallString<32> s;
      f->getValueAPF().toString(s);
      return json::Object{{"fp", s.str().str()}};
    }
    if (auto* g = dyn_cast<GlobalVariable>(c))
    {
      json::Object o{{"g", g->getName().str()}};
      if (g->isConstant() && g->hasInitializer())
      {
        if (auto* cd = dyn_cast<ConstantDataSequential>(g->getInitializer()))
        {
          if (cd->isString() && cd->getNumElements() < 2000)
          {
            StringRef s = cd->isCString() ? cd->getAsCString() : cd->getAsString();
            if (json::isUTF8(s))
              o["s"] = s.str();
          }
        }
        else if (isa<ConstantAggregateZero>(g->getInitializer()) && g->getName().starts_with(".str"))
          o["s"] = "";
      }
      return o;
    }
    if (auto* f = dyn_cast<Function>(c))
      return json::Object{{"f", f->getName().str()}};
    if (isa<UndefValue>(c))
      return json::Object{{"u", 1}};
    if (isa<ConstantAggregateZero>(c))
    {
      json::Array a;
      uint64_t n = 0;
      if (auto* at = dyn_cast<ArrayType>(c->getType()))
        n = at->getNumElements();
      else if (auto* st = dyn_cast<StructType>(c->getType()))
        n = st->getNumElements();
      if (n > 5000)
        return json::Object{{"z", (int64_t)n}};
      for (uint64_t i = 0; i < n; ++i)
        a.push_back(constant(c->getAggregateElement(i), depth + 1));
      return json::Object{{"a", std::move(a)}};
    }
    if (isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c))
    {
      json::Array a;
      for (unsigned i = 0;; ++i)
      {
        Constant* e = c->getAggregateElement(i);
        if (!e || i > 5000)
          break;
        a.push_back(constant(e, depth + 1));
      }
      return json::Object{{"a", std::move(a)}};
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
      if (ce->getOpcode() == Instruction::GetElementPtr)
      {
        auto* g = cast<GEPOperator>(ce);
        APInt off(DL.getIndexTypeSizeInBits(g->getType()), 0);
        json::Object o{{"ce", "gep"}, {"b", constant(cast<Constant>(g->getPointerOperand()), depth + 1)}};
        if (g->accumulateConstantOffset(DL, off))
          o["o"] = off.getSExtValue();
        return o;
      }
      json::Array a;
      for (auto& op : ce->operands())
        a.push_back(constant(cast<Constant>(op), depth + 1));
      json::Object o{{"ce", ce->getOpcodeName()}, {"a", std::move(a)}};
      if (ce->isCompare())
        o["pred"] = CmpInst::getPredicateName((CmpInst::Predicate)ce->getPredicate()).str();
      return o;
    }
    if (auto* ga = dyn_cast<GlobalAlias>(c))
      return json::Object{{"g", ga->getName().str()}};
    return json::Object{{"u", 1}};
  }

  json::Value operand(Value const* v)
  {
    auto it = ids.find(v);
    if (it != ids.end())
      return it->second;
    if (auto* c = dyn_cast<Constant>(v))
      return constant(c);
    return json::Object{{"u", 1}};
  }

  json::Value loc(DebugLoc const& d)
  {
    json::Array a;
    DILocation* l = d.get();
    while (l)
    {
      DISubprogram* sp = l->getScope()->getSubprogram();
      std::string fn = sp ? (sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()) : "";
      a.push_back(json::Array{l->getFilename().str(), (int64_t)l->getLine(), fn});
      l = l->getInlinedAt();
    }
    return a;
  }

  void function(Function& F)
  {
    ids.clear();
    int n = 0;
    for (auto& a : F.args())
      ids[&a] = n++;
    for (auto& B : F)
      ids[&B] = n++;
    for (auto& B : F)
      for (auto& I : B)
        ids[&I] = n++;
    J.objectBegin();
    J.attribute("name", F.getName());
    J.attribute("dem", dem(F.getName()));
    J.attribute("base", fname(F.getName()));
    J.attribute("repo", is_repo(F));
    J.attribute("ret", type_str(F.getReturnType()));
    J.attribute("noreturn", F.doesNotReturn());
    J.attribute("nounwind", F.doesNotThrow());
    J.attribute("linkage", F.hasInternalLinkage() ? "internal" : (F.hasLinkOnceLinkage() || F.hasLinkOnceODRLinkage()) ? "linkonce" : "external");
    if (DISubprogram* sp = F.getSubprogram())
    {
      J.attribute("file", sp->getFilename());
      J.attribute("line", (int64_t)sp->getLine());
    }
    J.attributeBegin("args");
    J.arrayBegin();
    for (auto& a : F.args())
      J.value(json::Array{a.getName().str(), type_str(a.getType())});
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("blocks");
    J.arrayBegin();
    for (auto& B : F)
    {
      J.objectBegin();
      J.attribute("id", ids[&B]);
      J.attributeBegin("ins");
      J.arrayBegin();
      for (auto& I : B)
      {
        if (isa<DbgInfoIntrinsic>(&I))
          continue;
        J.objectBegin();
        J.attribute("i", ids[&I]);
        J.attribute("op", I.getOpcodeName());
        if (!I.getType()->isVoidTy())
          J.attribute("t", type_str(I.getType()));
        if (I.getDebugLoc())
          J.attribute("loc", loc(I.getDebugLoc()));
        if (I.hasName())
          J.attribute("nm", I.getName());
        if (auto* md = I.getMetadata("cwd.f"))
          J.attribute("fld", cast<MDString>(md->getOperand(0))->getString());
        if (auto* md = I.getMetadata(LLVMContext::MD_tbaa))
        {
          if (md->getNumOperands() >= 3 && isa<MDNode>(md->getOperand(0)))
          {
            auto* bt = cast<MDNode>(md->getOperand(0));
            auto* off = mdconst::dyn_extract<ConstantInt>(md->getOperand(2));
            if (bt->getNumOperands() && isa<MDString>(bt->getOperand(0)) && off)
              J.attribute("tbaa", json::Array{cast<MDString>(bt->getOperand(0))->getString().str(), off->getSExtValue()});
          }
        }
        if (auto* cb = dyn_cast<CallBase>(&I))
        {
          if (Function* f = cb->getCalledFunction())
          {
            J.attribute("callee", f->getName());
          }
          else if (isa<InlineAsm>(cb->getCalledOperand()))
            J.attribute("callee", "asm");
          else
          {
            if (auto* md = I.getMetadata("cwd.v"))
              J.attribute("vcall", cast<MDString>(md->getOperand(0))->getString());
            J.attribute("fp", operand(cb->getCalledOperand()));
          }
          J.attributeBegin("ops");
          J.arrayBegin();
          for (auto& a : cb->args())
            J.value(operand(a.get()));
          J.arrayEnd();
          J.attributeEnd();
          if (cb->doesNotReturn())
            J.attribute("noreturn", true);
          if (cb->doesNotThrow())
            J.attribute("nounwind", true);
          if (auto* iv = dyn_cast<InvokeInst>(cb))
          {
            J.attribute("normal", ids[iv->getNormalDest()]);
            J.attribute("unwind", ids[iv->getUnwindDest()]);
          }
        }
        else if (auto* phi = dyn_cast<PHINode>(&I))
        {
          J.attributeBegin("in");
          J.arrayBegin();
          for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k)
            J.value(json::Array{operand(phi->getIncomingValue(k)), ids[phi->getIncomingBlock(k)]});
          J.arrayEnd();
          J.attributeEnd();
        }
        else if (auto* br = dyn_cast<BranchInst>(&I))
        {
          if (br->isConditional())
          {
            J.attribute("cond", operand(br->getCondition()));
            J.attribute("succ", json::Array{ids[br->getSuccessor(0)], ids[br->getSuccessor(1)]});
          }
          else
            J.attribute("succ", json::Array{ids[br->getSuccessor(0)]});
        }
        else if (auto* sw = dyn_cast<SwitchInst>(&I))
        {
          J.attribute("cond", operand(sw->getCondition()));
          J.attribute("dflt", ids[sw->getDefaultDest()]);
          J.attributeBegin("cases");
          J.arrayBegin();
          for (auto& cs : sw->cases())
            J.value(json::Array{cs.getCaseValue()->getSExtValue(), ids[cs.getCaseSuccessor()]});
          J.arrayEnd();
          J.attributeEnd();
        }
        else
        {
          if (auto* g = dyn_cast<GetElementPtrInst>(&I))
          {
            APInt off(DL.getIndexTypeSizeInBits(g->getType()), 0);
            if (g->accumulateConstantOffset(DL, off))
              J.attribute("off", off.getSExtValue());
            else
            {
              // Constant part and (index, scale) pairs of variable indices.
              MapVector<Value*, APInt> vo;
              APInt co(DL.getIndexTypeSizeInBits(g->getType()), 0);
              if (g->collectOffset(DL, DL.getIndexTypeSizeInBits(g->getType()), vo, co))
              {
                J.attribute("coff", co.getSExtValue());
                J.attributeBegin("voff");
                J.arrayBegin();
                for (auto& kv : vo)
                  J.value(json::Array{operand(kv.first), kv.second.getSExtValue()});
                J.arrayEnd();
                J.attributeEnd();
              }
            }
            if (auto* st = dyn_cast<StructType>(g->getSourceElementType()))
              if (st->hasName())
                J.attribute("st", st->getName());
            J.attribute("et", type_str(g->getSourceElementType()));
            if (auto* md = I.getMetadata("cwd.g"))
              J.attribute("path", cast<MDString>(md->getOperand(0))->getString());
          }
          if (auto* c = dyn_cast<CmpInst>(&I))
            J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
          if (auto* a = dyn_cast<AllocaInst>(&I))
          {
            J.attribute("at", type_str(a->getAllocatedType()));
            if (auto sz = a->getAllocationSize(DL))
              J.attribute("sz", (int64_t)sz->getFixedValue());
          }
          if (auto* a = dyn_cast<AtomicRMWInst>(&I))
            J.attribute("rmw", AtomicRMWInst::getOperationName(a->getOperation()));
          if (auto* l = dyn_cast<LoadInst>(&I))
            if (l->isAtomic())
              J.attribute("atomic", (int64_t)l->getOrdering());
          if (auto* s = dyn_cast<StoreInst>(&I))
          {
            if (s->isAtomic())
              J.attribute("atomic", (int64_t)s->getOrdering());
            J.attribute("vt", type_str(s->getValueOperand()->getType()));
          }
          if (auto* ev = dyn_cast<ExtractValueInst>(&I))
          {
            json::Array a;
            for (unsigned k : ev->indices())
              a.push_back((int64_t)k);
            J.attribute("idx", std::move(a));
          }
          if (auto* ev = dyn_cast<InsertValueInst>(&I))
          {
            json::Array a;
            for (unsigned k : ev->indices())
              a.push_back((int64_t)k);
            J.attribute("idx", std::move(a));
          }
          if (auto* lp = dyn_cast<LandingPadInst>(&I))
          {
            J.attribute("cleanup", lp->isCleanup());
            J.attribute("clauses", (int64_t)lp->getNumClauses());
          }
          J.attributeBegin("ops");
          J.arrayBegin();
          for (auto& o : I.operands())
            J.value(operand(o.get()));
          J.arrayEnd();
          J.attributeEnd();
        }
        J.objectEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    J.objectEnd();
  }

  void run(bool roots_only)
  {
    J.objectBegin();
    J.attributeBegin("decls");
    J.objectBegin();
    for (auto& F : M)
    {
      J.attributeBegin(F.getName());
      J.value(json::Array{fname(F.getName()), dem(F.getName()), F.isDeclaration(), F.doesNotReturn(), F.doesNotThrow()});
      J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    J.attributeBegin("functions");
    J.arrayBegin();
    for (auto& F : M)
    {
      if (F.isDeclaration())
        continue;
      if (roots_only)
      {
        if (!match_any(re_dump, fname(F.getName())))
          continue;
      }
      else if (!is_repo(F) && !match_any(re_inline, fname(F.getName())))
        continue;
      function(F);
    }
    J.arrayEnd();
    J.attributeEnd();
    J.attributeBegin("globals");
    J.arrayBegin();
    ids.clear();
    for (auto& G : M.globals())
    {
      if (G.getName().starts_with(".str") || G.getName().starts_with("_ZTS"))
        continue;
      J.objectBegin();
      J.attribute("name", G.getName());
      J.attribute("dem", dem(G.getName()));
      J.attribute("const", G.isConstant());
      J.attribute("tls", G.isThreadLocal());
      J.attribute("type", type_str(G.getValueType()));
      if (G.getValueType()->isSized())
        J.attribute("size", (int64_t)DL.getTypeAllocSize(G.getValueType()).getFixedValue());
      SmallVector<DIGlobalVariableExpression*, 2> ge;
      G.getDebugInfo(ge);
      bool repo = false;
      if (!ge.empty())
      {
        auto* v = ge[0]->getVariable();
        J.attribute("file", v->getFilename());
        J.attribute("line", (int64_t)v->getLine());
        repo = in_repo_file(v->getDirectory(), v->getFilename());
      }
      J.attribute("repo", repo);
      if (G.hasInitializer() && (repo || G.getName().starts_with("_ZTV") || G.getName().starts_with("switch.table")))
        J.attribute("init", constant(G.getInitializer()));
      J.objectEnd();
    }
    J.arrayEnd();
    J.attributeEnd();
    // Record layouts from debug info: identifier -> members.
    J.attributeBegin("records");
    J.objectBegin();
    DebugInfoFinder F;
    F.processModule(M);
    std::set<std::string> seen;
    for (DIType* t : F.types())
    {
      auto* ct = dyn_cast<DICompositeType>(t);
      if (!ct || ct->getIdentifier().empty() || ct->isForwardDecl())
        continue;
      if (ct->getTag() != dwarf::DW_TAG_class_type && ct->getTag() != dwarf::DW_TAG_structure_type && ct->getTag() != dwarf::DW_TAG_union_type)
        continue;
      if (!in_repo_file(ct->getDirectory(), ct->getFilename()))
        continue;
      if (!seen.insert(ct->getIdentifier().str()).second)
        continue;
      J.attributeBegin(ct->getIdentifier());
      J.objectBegin();
      J.attribute("size", (int64_t)ct->getSizeInBits() / 8);
      J.attribute("name", demangle(("_Z" + ct->getIdentifier().substr(4)).str()));
      J.attributeBegin("members");
      J.arrayBegin();
      for (auto* el : ct->getElements())
        if (auto* d = dyn_cast<DIDerivedType>(el))
        {
          if (d->isStaticMember() || (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance))
            continue;
          DIType* bt = d->getBaseType();
          std::string ty;
          DIType* x = bt;
          std::string kind;
          while (x)
          {
            if (auto* dd = dyn_cast<DIDerivedType>(x))
            {
              if (dd->getTag() == dwarf::DW_TAG_pointer_type)
                kind += "*";
              else if (dd->getTag() == dwarf::DW_TAG_reference_type)
                kind += "&";
              x = dd->getBaseType();
              continue;
            }
            if (auto* cc = dyn_cast<DICompositeType>(x))
            {
              if (cc->getTag() == dwarf::DW_TAG_array_type)
              {
                kind += "[]";
                x = cc->getBaseType();
                continue;
              }
              ty = cc->getIdentifier().empty() ? cc->getName().str() : cc->getIdentifier().str();
            }
            else
              ty = x->getName().str();
            break;
          }
          J.value(json::Array{d->getTag() == dwarf::DW_TAG_inheritance ? "<base>" : d->getName().str(),
                              (int64_t)d->getOffsetInBits() / 8, ty, kind, (int64_t)(bt ? bt->getSizeInBits() / 8 : 0)});
        }
      J.arrayEnd();
      J.attributeEnd();
      J.objectEnd();
      J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    // LLVM struct layouts (byte offset of each element).
    J.attributeBegin("structs");
    J.objectBegin();
    for (auto& st : struct_layouts)
    {
      J.attributeBegin(st.first);
      json::Array a;
      for (auto& e : st.second)
        a.push_back(json::Array{e.first, e.second});
      J.value(std::move(a));
      J.attributeEnd();
    }
    J.objectEnd();
    J.attributeEnd();
    J.objectEnd();
  }
};

int main(int argc, char** argv)
{
  if (argc < 5)
  {
    errs() << "usage: cwdir OUT.json raw|inl CONFIG IN.bc...\n";
    return 2;
  }
  std::string out = argv[1], mode = argv[2];
  {
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line))
    {
      auto sp = line.find(' ');
      if (line.empty() || line[0] == '#' || sp == std::string::npos)
        continue;
      std::string k = line.substr(0, sp), v = line.substr(sp + 1);
      if (k == "repo")
        repo_prefixes.push_back(v);
      else if (k == "noinline")
        re_noinline.emplace_back(v);
      else if (k == "inline")
        re_inline.emplace_back(v);
      else if (k == "dump")
        re_dump.emplace_back(v);
    }
  }
  LLVMContext C;
  SMDiagnostic err;
  std::unique_ptr<Module> M;
  for (int i = 4; i < argc; ++i)
  {
    auto m = parseIRFile(argv[i], err, C);
    if (!m)
    {
      err.print("cwdir", errs());
      return 2;
    }
    // constructor aliases: call what they stand for
    for (auto& A : m->aliases())
      if (auto* F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts()))
        A.replaceAllUsesWith(F);
    collect_structs(*m);
    annotate(*m);
    collect_vslots(*m);
    annotate_virtual(*m);
    if (!M)
      M = std::move(m);
    else if (Linker::linkModules(*M, std::move(m)))
      return 2;
  }
  for (auto& A : M->aliases())
    if (auto* F = dyn_cast<Function>(A.getAliasee()->stripPointerCasts()))
      A.replaceAllUsesWith(F);
  // COMDAT/available_externally do not matter here.

  PassBuilder PB;
  LoopAnalysisManager LAM;
  FunctionAnalysisManager FAM;
  CGSCCAnalysisManager CGAM;
  ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM);
  PB.registerCGSCCAnalyses(CGAM);
  PB.registerFunctionAnalyses(FAM);
  PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);

  auto run = [&](char const* pipeline) {
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, pipeline))
    {
      errs() << toString(std::move(e)) << "\n";
      exit(2);
    }
    MPM.run(*M, MAM);
  };

  if (mode == "raw")
  {
    run("function(sroa,simplifycfg)");
  }
  else
  {
    // Find functions on a call-graph cycle: they can not be inlined.
    for (Function& F : *M)
    {
      F.removeFnAttr(Attribute::OptimizeNone);
      if (F.isDeclaration())
        continue;
      std::string n = fname(F.getName());
      bool inl = (is_repo(F) || match_any(re_inline, n)) && !match_any(re_noinline, nested_name(F.getName()));
      // Direct recursion.
      if (inl)
        for (Instruction& I : instructions(F))
          if (auto* cb = dyn_cast<CallBase>(&I))
            if (cb->getCalledFunction() == &F)
              inl = false;
      if (inl)
      {
        F.removeFnAttr(Attribute::NoInline);
        F.addFnAttr(Attribute::AlwaysInline);
        if (!F.hasLocalLinkage())
          F.setLinkage(GlobalValue::ExternalLinkage);
      }
      else
      {
        F.removeFnAttr(Attribute::AlwaysInline);
        F.addFnAttr(Attribute::NoInline);
        if (!F.hasLocalLinkage())
          F.setLinkage(GlobalValue::ExternalLinkage);
      }
      if (match_any(re_dump, n))
        F.setLinkage(GlobalValue::ExternalLinkage);
      F.setComdat(nullptr);
    }
    run("always-inline");
    run("function(sroa,simplifycfg,early-cse<memssa>,simplifycfg)");
  }
  std::error_code ec;
  raw_fd_ostream os(out, ec);
  if (ec)
    return 2;
  Exporter X(*M, os);
  X.run(mode == "inl");
  return 0;
}
