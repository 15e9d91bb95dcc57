// irdump: read an LLVM 18 bitcode/IR file and print it as JSON with all data-layout
// facts (sizes, struct offsets, GEP strides) resolved.  It performs no analysis.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/IR/ModuleSlotTracker.h>
#include <map>
#include <set>
#include <deque>
using namespace llvm;

static const DataLayout* DL;
static json::Array jint(APInt const& v)
{
  SmallString<40> s;
  v.toStringUnsigned(s, 10);
  return json::Array{"i", (int64_t)v.getBitWidth(), s.str().str()};
}

static json::Value jtype(Type* t)
{
  if (t->isVoidTy()) return json::Array{"v"};
  if (t->isIntegerTy()) return json::Array{"i", (int64_t)t->getIntegerBitWidth()};
  if (t->isPointerTy()) return json::Array{"p"};
  if (t->isFloatingPointTy()) return json::Array{"f", (int64_t)t->getPrimitiveSizeInBits().getFixedValue(), (int64_t)DL->getTypeAllocSize(t)};
  if (auto* st = dyn_cast<StructType>(t)) {
    if (st->isOpaque()) return json::Array{"o"};
    auto* sl = DL->getStructLayout(st);
    json::Array f;
    for (unsigned i = 0; i < st->getNumElements(); ++i)
      f.push_back(json::Array{(int64_t)sl->getElementOffset(i), jtype(st->getElementType(i))});
    return json::Array{"s", (int64_t)DL->getTypeAllocSize(t), std::move(f)};
  }
  if (auto* at = dyn_cast<ArrayType>(t))
    return json::Array{"a", (int64_t)at->getNumElements(), jtype(at->getElementType()), (int64_t)DL->getTypeAllocSize(at->getElementType())};
  if (auto* vt = dyn_cast<FixedVectorType>(t))
    return json::Array{"x", (int64_t)vt->getNumElements(), jtype(vt->getElementType()), (int64_t)DL->getTypeAllocSize(vt->getElementType())};
  return json::Array{"?"};
}

static std::map<Value const*, int64_t> ids;
static json::Value operand(Value const* v);

static json::Value gepinfo(GEPOperator const* gep)
{
  // base, constant offset, list of (index, stride)
  APInt off(64, 0);
  MapVector<Value*, APInt> var;
  const_cast<GEPOperator*>(gep)->collectOffset(*DL, 64, var, off);
  json::Array idx;
  for (auto& p : var)
    idx.push_back(json::Array{operand(p.first), (int64_t)p.second.getSExtValue(), (int64_t)p.first->getType()->getIntegerBitWidth()});
  return json::Array{"gep", operand(gep->getPointerOperand()), (int64_t)off.getSExtValue(), std::move(idx), gep->isInBounds()};
}

static json::Value operand(Value const* v)
{
  auto it = ids.find(v);
  if (it != ids.end()) return json::Array{"r", it->second};
  if (auto* c = dyn_cast<ConstantInt>(v)) return jint(c->getValue());
  if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
  if (isa<UndefValue>(v)) return json::Array{"u", jtype(v->getType())};
  if (auto* c = dyn_cast<ConstantFP>(v)) {
    SmallString<40> s;
    c->getValueAPF().bitcastToAPInt().toStringUnsigned(s, 10);
    return json::Array{"fp", (int64_t)v->getType()->getPrimitiveSizeInBits().getFixedValue(), s.str().str()};
  }
  if (auto* g = dyn_cast<GlobalAlias>(v)) return operand(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
  if (isa<ConstantAggregateZero>(v)) return json::Array{"z", jtype(v->getType())};
  if (auto* c = dyn_cast<ConstantAggregate>(v)) {
    json::Array a;
    for (auto& o : c->operands()) a.push_back(operand(o.get()));
    return json::Array{"agg", jtype(v->getType()), std::move(a)};
  }
  if (auto* c = dyn_cast<ConstantDataSequential>(v)) {
    json::Array a;
    for (unsigned i = 0; i < c->getNumElements(); ++i) a.push_back(operand(c->getElementAsConstant(i)));
    return json::Array{"agg", jtype(v->getType()), std::move(a)};
  }
  if (auto* ce = dyn_cast<ConstantExpr>(v)) {
    if (auto* g = dyn_cast<GEPOperator>(ce)) return gepinfo(g);
    json::Array a;
    for (auto& o : ce->operands()) a.push_back(operand(o.get()));
    return json::Array{"ce", ce->getOpcodeName(), jtype(ce->getType()), std::move(a), jtype(ce->getOperand(0)->getType())};
  }
  if (isa<MetadataAsValue>(v)) return json::Array{"m"};
  if (isa<InlineAsm>(v)) return json::Array{"asm"};
  return json::Array{"?", (int64_t)v->getValueID()};
}

static json::Value initializer(Constant const* c)
{
  if (auto* cds = dyn_cast<ConstantDataSequential>(c))
    if (cds->getElementType()->isIntegerTy(8)) {
      std::string hex;
      static char const* d = "0123456789abcdef";
      for (unsigned char ch : cds->getRawDataValues()) { hex += d[ch >> 4]; hex += d[ch & 15]; }
      return json::Array{"b", hex};
    }
  if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
    json::Array a;
    for (auto& o : ca->operands()) a.push_back(initializer(cast<Constant>(o.get())));
    return json::Array{"agg", jtype(c->getType()), std::move(a)};
  }
  return operand(c);
}

int main(int argc, char** argv)
{
  LLVMContext ctx;
  SMDiagnostic err;
  auto m = parseIRFile(argv[1], err, ctx);
  if (!m) { err.print("irdump", errs()); return 2; }
  DL = &m->getDataLayout();
  json::OStream J(outs());
  J.objectBegin();
  J.attributeBegin("globals");
  J.arrayBegin();
  for (auto& g : m->globals()) {
    J.objectBegin();
    J.attribute("name", g.getName().str());
    J.attribute("size", g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : -1);
    J.attribute("type", jtype(g.getValueType()));
    J.attribute("const", g.isConstant());
    J.attribute("tls", g.isThreadLocal());
    J.attribute("ext", g.isDeclaration());
    if (g.hasInitializer()) J.attribute("init", initializer(g.getInitializer()));
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();
  J.attributeBegin("aliases");
  J.objectBegin();
  for (auto& a : m->aliases()) J.attribute(a.getName(), operand(a.getAliasee()));
  J.objectEnd();
  J.attributeEnd();
  J.attributeBegin("functions");
  J.arrayBegin();
  for (auto& f : *m) {
    J.objectBegin();
    J.attribute("name", f.getName().str());
    J.attribute("decl", f.isDeclaration());
    J.attribute("noreturn", f.doesNotReturn());
    J.attribute("vararg", f.isVarArg());
    J.attribute("ret", jtype(f.getReturnType()));
    ids.clear();
    int64_t n = 0;
    json::Array args;
    for (auto& a : f.args()) {
      ids[&a] = n++;
      json::Array x{ids[&a], jtype(a.getType()), a.getName().str()};
      if (a.hasStructRetAttr()) x.push_back("sret");
      if (a.hasByValAttr()) { x.push_back("byval"); x.push_back((int64_t)DL->getTypeAllocSize(a.getParamByValType())); }
      args.push_back(std::move(x));
    }
    J.attribute("args", std::move(args));
    if (!f.isDeclaration()) {
      if (auto* sp = f.getSubprogram()) { J.attribute("file", sp->getFilename().str()); J.attribute("line", (int64_t)sp->getLine()); }
      std::map<BasicBlock const*, int64_t> bbs;
      int64_t bn = 0;
      for (auto& b : f) { bbs[&b] = bn++; for (auto& i : b) ids[&i] = n++; }
      J.attributeBegin("blocks");
      J.arrayBegin();
      for (auto& b : f) {
        J.arrayBegin();
        for (auto& i : b) {
          if (isa<DbgInfoIntrinsic>(&i)) continue;
          json::Object o;
          o["op"] = i.getOpcodeName();
          if (!i.getType()->isVoidTy()) { o["id"] = ids[&i]; o["ty"] = jtype(i.getType()); }
          if (auto const& dl = i.getDebugLoc()) {
            o["ln"] = (int64_t)dl.getLine();
            if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) o["fl"] = sc->getFilename().str();
          }
          auto addops = [&]() {
            json::Array a;
            for (auto& op : i.operands()) a.push_back(operand(op.get()));
            o["ops"] = std::move(a);
          };
          if (auto* ai = dyn_cast<AllocaInst>(&i)) {
            o["size"] = (int64_t)DL->getTypeAllocSize(ai->getAllocatedType());
            o["aty"] = jtype(ai->getAllocatedType());
            o["n"] = operand(ai->getArraySize());
            o["vn"] = ai->getName().str();
          } else if (auto* gep = dyn_cast<GEPOperator>(&i)) {
            o["gep"] = gepinfo(gep);
          } else if (auto* c = dyn_cast<CmpInst>(&i)) {
            o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
            o["oty"] = jtype(c->getOperand(0)->getType());
            addops();
          } else if (auto* cb = dyn_cast<CallBase>(&i)) {
            json::Array a;
            for (unsigned k = 0; k < cb->arg_size(); ++k) a.push_back(operand(cb->getArgOperand(k)));
            o["args"] = std::move(a);
            json::Array ts;
            for (unsigned k = 0; k < cb->arg_size(); ++k) ts.push_back(jtype(cb->getArgOperand(k)->getType()));
            o["atys"] = std::move(ts);
            o["callee"] = operand(cb->getCalledOperand());
            o["noreturn"] = cb->doesNotReturn();
            o["nounwind"] = cb->doesNotThrow();
            if (auto* inv = dyn_cast<InvokeInst>(&i)) { o["normal"] = bbs[inv->getNormalDest()]; o["unwind"] = bbs[inv->getUnwindDest()]; }
          } else if (auto* br = dyn_cast<BranchInst>(&i)) {
            if (br->isConditional()) { o["cond"] = operand(br->getCondition()); o["dst"] = json::Array{bbs[br->getSuccessor(0)], bbs[br->getSuccessor(1)]}; }
            else o["dst"] = json::Array{bbs[br->getSuccessor(0)]};
          } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
            o["cond"] = operand(sw->getCondition());
            o["w"] = (int64_t)sw->getCondition()->getType()->getIntegerBitWidth();
            o["default"] = bbs[sw->getDefaultDest()];
            json::Array cs;
            for (auto& cse : sw->cases()) {
              SmallString<40> s; cse.getCaseValue()->getValue().toStringUnsigned(s, 10);
              cs.push_back(json::Array{s.str().str(), bbs[cse.getCaseSuccessor()]});
            }
            o["cases"] = std::move(cs);
          } else if (auto* phi = dyn_cast<PHINode>(&i)) {
            json::Array in;
            for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k)
              in.push_back(json::Array{bbs[phi->getIncomingBlock(k)], operand(phi->getIncomingValue(k))});
            o["in"] = std::move(in);
            o["vn"] = phi->getName().str();
          } else {
            addops();
            if (auto* c = dyn_cast<CastInst>(&i)) { o["sty"] = jtype(c->getSrcTy()); }
            if (auto* s = dyn_cast<StoreInst>(&i)) { o["sty"] = jtype(s->getValueOperand()->getType()); }
            if (auto* bo = dyn_cast<OverflowingBinaryOperator>(&i)) { o["nsw"] = bo->hasNoSignedWrap(); o["nuw"] = bo->hasNoUnsignedWrap(); }
            if (auto* e = dyn_cast<ExtractValueInst>(&i)) { json::Array x; for (auto k : e->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); o["sty"] = jtype(e->getAggregateOperand()->getType()); }
            if (auto* e = dyn_cast<InsertValueInst>(&i)) { json::Array x; for (auto k : e->indices()) x.push_back((int64_t)k); o["idx"] = std::move(x); }
            if (auto* e = dyn_cast<AtomicRMWInst>(&i)) { o["rmw"] = AtomicRMWInst::getOperationName(e->getOperation()).str(); }
            if (auto* e = dyn_cast<ShuffleVectorInst>(&i)) { json::Array x; for (int k : e->getShuffleMask()) x.push_back((int64_t)k); o["mask"] = std::move(x); }
          }
          J.value(std::move(o));
        }
        J.arrayEnd();
      }
      J.arrayEnd();
      J.attributeEnd();
    }
    J.objectEnd();
  }
  J.arrayEnd();
  J.attributeEnd();
  J.objectEnd();
  outs() << "\n";
}
