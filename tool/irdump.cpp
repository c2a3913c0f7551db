// irdump: reads one LLVM bitcode module (all translation units of /repo linked
// together), normalises it (SROA / mem2reg / instsimplify / simplifycfg, no inlining),
// and prints it as JSON lines for the analyses in /verif/an.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
#include <set>
using namespace llvm;
namespace J = llvm::json;

static std::map<const Value*, int> ids;
static const DataLayout* DL;

static std::string tyname(Type* t)
{
   std::string s;
   raw_string_ostream os(s);
   if(auto* st = dyn_cast<StructType>(t); st && st->hasName()) return st->getName().str();
   t->print(os);
   return os.str();
}

static J::Value opnd(const Value* v, int depth = 0);

static J::Value constant(const Constant* c, int depth)
{
   if(auto* i = dyn_cast<ConstantInt>(c))
   {
      SmallString<32> s;
      i->getValue().toString(s, 10, false);
      if(i->getBitWidth() <= 64) return J::Array{"c", i->getBitWidth(), s.str().str()};
      return J::Array{"c", i->getBitWidth(), s.str().str()};
   }
   if(auto* f = dyn_cast<ConstantFP>(c))
   {
      SmallString<32> s;
      f->getValueAPF().bitcastToAPInt().toString(s, 10, false);
      return J::Array{"f", (int)f->getType()->getPrimitiveSizeInBits(), s.str().str()};
   }
   if(isa<ConstantPointerNull>(c)) return J::Array{"null"};
   if(isa<PoisonValue>(c)) return J::Array{"poison"};
   if(isa<UndefValue>(c)) return J::Array{"undef"};
   if(isa<ConstantAggregateZero>(c)) return J::Array{"zero", tyname(c->getType()), (int64_t)DL->getTypeAllocSize(c->getType())};
   if(auto* g = dyn_cast<GlobalValue>(c)) return J::Array{"g", g->getName().str()};
   if(auto* e = dyn_cast<ConstantExpr>(c))
   {
      if(auto* gep = dyn_cast<GEPOperator>(e))
      {
         APInt off(64, 0);
         if(gep->accumulateConstantOffset(*DL, off))
            return J::Array{"gepc", opnd(gep->getPointerOperand(), depth + 1), (int64_t)off.getSExtValue()};
      }
      J::Array a{"ce", e->getOpcodeName()};
      for(auto& o : e->operands()) a.push_back(opnd(o, depth + 1));
      return a;
   }
   if(auto* cds = dyn_cast<ConstantDataSequential>(c))
   {
      J::Array a;
      for(unsigned i = 0; i < cds->getNumElements(); i++)
      {
         if(cds->getElementType()->isIntegerTy()) a.push_back((int64_t)cds->getElementAsInteger(i));
         else a.push_back(constant(cds->getElementAsConstant(i), depth + 1));
      }
      return J::Array{"data", (int64_t)DL->getTypeAllocSize(cds->getElementType()), std::move(a)};
   }
   if(isa<ConstantArray>(c) || isa<ConstantStruct>(c) || isa<ConstantVector>(c))
   {
      J::Array a;
      for(unsigned i = 0; i < c->getNumOperands(); i++)
      {
         int64_t off = 0;
         if(auto* st = dyn_cast<StructType>(c->getType())) off = DL->getStructLayout(st)->getElementOffset(i);
         else if(auto* at = dyn_cast<ArrayType>(c->getType())) off = i * DL->getTypeAllocSize(at->getElementType());
         a.push_back(J::Array{off, (int64_t)DL->getTypeAllocSize(c->getOperand(i)->getType()), opnd(c->getOperand(i), depth + 1)});
      }
      return J::Array{"agg", std::move(a)};
   }
   return J::Array{"unk"};
}

static J::Value opnd(const Value* v, int depth)
{
   if(auto* c = dyn_cast<Constant>(v)) return constant(c, depth);
   if(isa<Argument>(v)) return J::Array{"a", (int)cast<Argument>(v)->getArgNo()};
   if(auto* bb = dyn_cast<BasicBlock>(v)) return J::Array{"b", ids[bb]};
   if(isa<Instruction>(v)) return J::Array{"i", ids[v]};
   return J::Array{"unk"};
}

static std::string scopeName(const DIScope* s)
{
   std::string r;
   while(s)
   {
      if(isa<DICompositeType>(s) || isa<DINamespace>(s))
      {
         r = s->getName().str() + (r.empty() ? "" : "::" + r);
      }
      s = s->getScope();
   }
   return r;
}

static std::string ditype(const DIType* t)
{
   if(!t) return "void";
   if(auto* d = dyn_cast<DIDerivedType>(t))
   {
      std::string b = ditype(d->getBaseType());
      switch(d->getTag())
      {
         case dwarf::DW_TAG_pointer_type: return b + "*";
         case dwarf::DW_TAG_reference_type: return b + "&";
         case dwarf::DW_TAG_rvalue_reference_type: return b + "&&";
         case dwarf::DW_TAG_const_type: return "const " + b;
         case dwarf::DW_TAG_typedef: return b;
         default: return b;
      }
   }
   if(auto* c = dyn_cast<DICompositeType>(t))
   {
      if(c->getTag() == dwarf::DW_TAG_array_type) return ditype(c->getBaseType()) + "[]";
      std::string s = scopeName(c->getScope());
      return (s.empty() ? "" : s + "::") + c->getName().str();
   }
   return t->getName().str();
}

int main(int argc, char** argv)
{
   LLVMContext ctx;
   SMDiagnostic err;
   auto M = parseIRFile(argv[1], err, ctx);
   if(!M)
   {
      err.print("irdump", errs());
      return 2;
   }
   DL = &M->getDataLayout();
   LoopAnalysisManager LAM;
   FunctionAnalysisManager FAM;
   CGSCCAnalysisManager CAM;
   ModuleAnalysisManager MAM;
   PassBuilder PB;
   PB.registerModuleAnalyses(MAM);
   PB.registerCGSCCAnalyses(CAM);
   PB.registerFunctionAnalyses(FAM);
   PB.registerLoopAnalyses(LAM);
   PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
   ModulePassManager MPM;
   std::string pipe = argc > 2 ? argv[2] : "function(sroa<preserve-cfg>,instsimplify,simplifycfg<no-switch-to-lookup;no-switch-range-to-icmp;no-sink-common-insts;no-hoist-common-insts;no-forward-switch-cond>)";
   if(auto e = PB.parsePassPipeline(MPM, pipe))
   {
      errs() << "pipeline: " << toString(std::move(e)) << "\n";
      return 2;
   }
   MPM.run(*M, MAM);

   // types
   DebugInfoFinder finder;
   finder.processModule(*M);
   std::set<std::string> seen;
   for(auto* t : finder.types())
   {
      auto* c = dyn_cast<DICompositeType>(t);
      if(!c || c->isForwardDecl()) continue;
      if(c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type && c->getTag() != dwarf::DW_TAG_enumeration_type) continue;
      std::string nm = ditype(c);
      if(c->getTag() == dwarf::DW_TAG_enumeration_type)
      {
         if(nm.empty() || !seen.insert(nm).second) continue;
         J::Array en;
         for(auto* e : c->getElements()) if(auto* en1 = dyn_cast<DIEnumerator>(e)) en.push_back(J::Array{en1->getName().str(), en1->getValue().getSExtValue()});
         outs() << J::Value(J::Object{{"k", "enum"}, {"name", nm}, {"vals", std::move(en)}}) << "\n";
         continue;
      }
      if(nm.empty()) continue;
      if(!seen.insert(nm).second) continue;
      J::Array mem, bases;
      for(auto* e : c->getElements())
      {
         auto* d = dyn_cast<DIDerivedType>(e);
         if(!d) continue;
         if(d->getTag() == dwarf::DW_TAG_member && !(d->getFlags() & DINode::FlagStaticMember))
            mem.push_back(J::Array{d->getName().str(), (int64_t)d->getOffsetInBits() / 8, (int64_t)d->getSizeInBits() / 8, ditype(d->getBaseType())});
         if(d->getTag() == dwarf::DW_TAG_inheritance)
            bases.push_back(J::Array{ditype(d->getBaseType()), (int64_t)d->getOffsetInBits() / 8});
      }
      outs() << J::Value(J::Object{{"k", "type"}, {"name", nm}, {"size", (int64_t)c->getSizeInBits() / 8}, {"file", c->getFilename().str()}, {"line", c->getLine()}, {"members", std::move(mem)}, {"bases", std::move(bases)}}) << "\n";
   }
   for(auto& g : M->globals())
   {
      J::Object o{{"k", "global"}, {"name", g.getName().str()}, {"dem", demangle(g.getName().str())}, {"const", g.isConstant()}, {"size", g.getValueType()->isSized() ? (int64_t)DL->getTypeAllocSize(g.getValueType()) : 0}, {"ty", tyname(g.getValueType())}};
      if(g.hasInitializer()) o["init"] = opnd(g.getInitializer());
      SmallVector<DIGlobalVariableExpression*, 2> gv;
      g.getDebugInfo(gv);
      if(!gv.empty())
      {
         o["file"] = gv[0]->getVariable()->getFilename().str();
         o["line"] = gv[0]->getVariable()->getLine();
         o["dity"] = ditype(gv[0]->getVariable()->getType());
      }
      SmallVector<MDNode*, 2> tm;
      g.getMetadata(LLVMContext::MD_type, tm);
      J::Array ta;
      for(auto* n : tm)
         if(auto* s = dyn_cast<MDString>(n->getOperand(1)))
            ta.push_back(J::Array{(int64_t)mdconst::extract<ConstantInt>(n->getOperand(0))->getSExtValue(), s->getString().str()});
      if(!ta.empty()) o["vt"] = std::move(ta);
      outs() << J::Value(std::move(o)) << "\n";
   }
   for(auto& F : *M)
   {
      J::Object o{{"k", "fn"}, {"name", F.getName().str()}, {"dem", demangle(F.getName().str())}, {"decl", F.isDeclaration()}, {"ret", tyname(F.getReturnType())}, {"nounwind", F.doesNotThrow()}, {"noreturn", F.doesNotReturn()}};
      J::Array as;
      for(auto& a : F.args()) as.push_back(J::Object{{"ty", tyname(a.getType())}, {"name", a.getName().str()}, {"sret", a.hasStructRetAttr()}, {"sretty", a.hasStructRetAttr() ? tyname(a.getParamStructRetType()) : ""}, {"noalias", a.hasNoAliasAttr()}, {"byval", a.hasByValAttr() ? (int64_t)DL->getTypeAllocSize(a.getParamByValType()) : (int64_t)0}});
      o["args"] = std::move(as);
      if(auto* sp = F.getSubprogram())
      {
         o["file"] = sp->getFilename().str();
         o["line"] = sp->getLine();
         o["cls"] = scopeName(dyn_cast_or_null<DICompositeType>(sp->getScope()));
         o["sname"] = sp->getName().str();
         auto* d = sp->getDeclaration() ? sp->getDeclaration() : sp;
         unsigned fl = d->getFlags() & DINode::FlagAccessibility;
         o["acc"] = fl == DINode::FlagPublic ? "public" : fl == DINode::FlagPrivate ? "private" : fl == DINode::FlagProtected ? "protected" : "";
         o["artificial"] = sp->isArtificial() || d->isArtificial();
         J::Array ta;
         if(sp->getType()) for(auto* t : sp->getType()->getTypeArray()) ta.push_back(ditype(t));
         o["sig"] = std::move(ta);
      }
      if(!F.isDeclaration())
      {
         int n = 0;
         ids.clear();
         for(auto& B : F)
         {
            ids[&B] = n++;
         }
         n = 0;
         for(auto& B : F) for(auto& I : B) ids[&I] = n++;
         J::Array blocks;
         for(auto& B : F)
         {
            J::Array ins;
            for(auto& I : B)
            {
               if(isa<DbgInfoIntrinsic>(I)) continue;
               if(auto* ii = dyn_cast<IntrinsicInst>(&I))
                  if(ii->isLifetimeStartOrEnd() ) continue;
               J::Object r{{"i", ids[&I]}, {"op", I.getOpcodeName()}, {"ty", tyname(I.getType())}};
               if(I.getType()->isIntegerTy()) r["w"] = (int)I.getType()->getIntegerBitWidth();
               if(I.getType()->isSized() && !I.getType()->isVoidTy()) r["sz"] = (int64_t)DL->getTypeStoreSize(I.getType());
               if(auto& dl = I.getDebugLoc())
               {
                  auto* sc = cast<DIScope>(dl.getScope());
                  J::Array L{sc->getFilename().str(), (int)dl.getLine(), (int)dl.getCol()};
                  r["l"] = std::move(L);
               }
               if(auto* gep = dyn_cast<GetElementPtrInst>(&I))
               {
                  MapVector<Value*, APInt> var;
                  APInt off(64, 0);
                  r["sty"] = tyname(gep->getSourceElementType());
                  r["inb"] = gep->isInBounds();
                  cast<GEPOperator>(gep)->collectOffset(*DL, 64, var, off);
                  J::Array va;
                  for(auto& [v, s] : var) va.push_back(J::Array{opnd(v), (int64_t)s.getSExtValue(), (int)v->getType()->getIntegerBitWidth()});
                  r["args"] = J::Array{opnd(gep->getPointerOperand())};
                  r["off"] = (int64_t)off.getSExtValue();
                  r["var"] = std::move(va);
               }
               else if(auto* cb = dyn_cast<CallBase>(&I))
               {
                  J::Array a;
                  for(auto& x : cb->args()) a.push_back(opnd(x));
                  r["args"] = std::move(a);
                  J::Array by;
                  for(unsigned k = 0; k < cb->arg_size(); k++) if(cb->isByValArgument(k)) by.push_back((int)k);
                  if(!by.empty()) r["byval"] = std::move(by);
                  if(auto* f = cb->getCalledFunction()) r["callee"] = f->getName().str();
                  else if(auto* al = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) r["callee"] = al->getAliasee()->stripPointerCasts()->getName().str();
                  else if(cb->isInlineAsm()) r["callee"] = "<asm>";
                  else r["fp"] = opnd(cb->getCalledOperand());
                  if(cb->getType()->isIntegerTy()) r["w"] = (int)cb->getType()->getIntegerBitWidth();
                  if(cb->doesNotThrow()) r["nt"] = true;
                  if(cb->doesNotReturn()) r["nr"] = true;
                  if(auto* inv = dyn_cast<InvokeInst>(&I))
                  {
                     r["normal"] = ids[inv->getNormalDest()];
                     r["unwind"] = ids[inv->getUnwindDest()];
                  }
                  // !type test metadata argument
                  if(cb->arg_size() == 2)
                     if(auto* mv = dyn_cast<MetadataAsValue>(cb->getArgOperand(1)))
                        if(auto* ms = dyn_cast<MDString>(mv->getMetadata())) r["md"] = ms->getString().str();
               }
               else if(auto* ph = dyn_cast<PHINode>(&I))
               {
                  J::Array a;
                  for(unsigned k = 0; k < ph->getNumIncomingValues(); k++) a.push_back(J::Array{ids[ph->getIncomingBlock(k)], opnd(ph->getIncomingValue(k))});
                  r["inc"] = std::move(a);
                  if(I.getType()->isIntegerTy()) r["w"] = (int)I.getType()->getIntegerBitWidth();
               }
               else if(auto* br = dyn_cast<BranchInst>(&I))
               {
                  if(br->isConditional()) r["args"] = J::Array{opnd(br->getCondition())};
                  J::Array s;
                  for(unsigned q = 0; q < br->getNumSuccessors(); q++) s.push_back(ids[br->getSuccessor(q)]);
                  r["succ"] = std::move(s);
               }
               else if(auto* sw = dyn_cast<SwitchInst>(&I))
               {
                  r["args"] = J::Array{opnd(sw->getCondition())};
                  r["def"] = ids[sw->getDefaultDest()];
                  J::Array c;
                  for(auto& cs : sw->cases())
                  {
                     SmallString<32> s;
                     cs.getCaseValue()->getValue().toString(s, 10, false);
                     c.push_back(J::Array{s.str().str(), ids[cs.getCaseSuccessor()]});
                  }
                  r["cases"] = std::move(c);
               }
               else
               {
                  J::Array a;
                  for(auto& x : I.operands())
                  {
                     if(isa<BasicBlock>(x)) continue;
                     a.push_back(opnd(x));
                  }
                  r["args"] = std::move(a);
                  if(auto* c = dyn_cast<CmpInst>(&I))
                  {
                     r["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                     Type* t = c->getOperand(0)->getType();
                     r["ow"] = t->isIntegerTy() ? (int)t->getIntegerBitWidth() : t->isPointerTy() ? 64 : (int)t->getPrimitiveSizeInBits();
                     r["oty"] = tyname(t);
                  }
                  if(auto* c = dyn_cast<CastInst>(&I))
                  {
                     Type* t = c->getSrcTy();
                     r["ow"] = t->isIntegerTy() ? (int)t->getIntegerBitWidth() : t->isPointerTy() ? 64 : (int)t->getPrimitiveSizeInBits();
                     r["oty"] = tyname(t);
                  }
                  if(auto* s = dyn_cast<StoreInst>(&I))
                  {
                     r["sz"] = (int64_t)DL->getTypeStoreSize(s->getValueOperand()->getType());
                     r["vty"] = tyname(s->getValueOperand()->getType());
                     r["vol"] = s->isVolatile();
                  }
                  if(auto* al = dyn_cast<AllocaInst>(&I))
                  {
                     r["aty"] = tyname(al->getAllocatedType());
                     r["asz"] = (int64_t)DL->getTypeAllocSize(al->getAllocatedType());
                     r["name"] = al->getName().str();
                  }
                  if(auto* ev = dyn_cast<ExtractValueInst>(&I))
                  {
                     J::Array ix;
                     for(auto k : ev->indices()) ix.push_back((int)k);
                     r["idx"] = std::move(ix);
                  }
                  if(auto* iv = dyn_cast<InsertValueInst>(&I))
                  {
                     J::Array ix;
                     for(auto k : iv->indices()) ix.push_back((int)k);
                     r["idx"] = std::move(ix);
                  }
                  if(auto* lp = dyn_cast<LandingPadInst>(&I))
                  {
                     r["cleanup"] = lp->isCleanup();
                     J::Array cl;
                     for(unsigned k = 0; k < lp->getNumClauses(); k++) cl.push_back(opnd(lp->getClause(k)));
                     r["clauses"] = std::move(cl);
                  }
                  if(auto* bo = dyn_cast<OverflowingBinaryOperator>(&I))
                  {
                     if(bo->hasNoSignedWrap()) r["nsw"] = true;
                     if(bo->hasNoUnsignedWrap()) r["nuw"] = true;
                  }
               }
               ins.push_back(std::move(r));
            }
            blocks.push_back(J::Object{{"id", ids[&B]}, {"ins", std::move(ins)}});
         }
         o["blocks"] = std::move(blocks);
      }
      outs() << J::Value(std::move(o)) << "\n";
   }
   for(auto& A : M->aliases())
      outs() << J::Value(J::Object{{"k", "alias"}, {"name", A.getName().str()}, {"to", A.getAliasee()->stripPointerCasts()->getName().str()}}) << "\n";
   return 0;
}
