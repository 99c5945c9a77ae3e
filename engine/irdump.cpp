// irdump: reads an LLVM module (bitcode or text) and writes the JSON form that
// engine/ldtvc.py executes symbolically.  It performs no transformation: every
// function body, constant and global initialiser reachable from the roots is
// written out exactly as it is in the module.
#include "llvm/IR/Module.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Support/Regex.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include <map>
#include <set>
#include <deque>
using namespace llvm;
using json::Value; using json::Array; using json::Object;
static const DataLayout *DL;
static std::set<const GlobalValue*> seen; static std::deque<const GlobalValue*> work;
static void need(const GlobalValue*g){ if(seen.insert(g).second) work.push_back(g); }
static json::Value ty(Type*t){
  if(t->isVoidTy()) return "void";
  if(t->isIntegerTy()) return "i"+std::to_string(t->getIntegerBitWidth());
  if(t->isDoubleTy()) return "double"; if(t->isFloatTy()) return "float"; if(t->isX86_FP80Ty()) return "x86_fp80";
  if(t->isPointerTy()) return "ptr";
  if(auto*s=dyn_cast<StructType>(t)){ Array a; a.push_back("struct"); if(s->isSized()){ auto*l=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++){ Array f; f.push_back((int64_t)(uint64_t)l->getElementOffset(i)); f.push_back(ty(s->getElementType(i))); a.push_back(std::move(f)); } } return std::move(a);}
  if(auto*s=dyn_cast<ArrayType>(t)){ Array a; a.push_back("array"); a.push_back((int64_t)s->getNumElements()); a.push_back((int64_t)DL->getTypeAllocSize(s->getElementType())); a.push_back(ty(s->getElementType())); return std::move(a);}
  if(auto*s=dyn_cast<FixedVectorType>(t)){ Array a; a.push_back("vector"); a.push_back((int64_t)s->getNumElements()); a.push_back(ty(s->getElementType())); return std::move(a);}
  return "other";
}
static std::map<const llvm::Value*,int> ids;
static json::Value opnd(const llvm::Value*v){
  if(auto*ci=dyn_cast<ConstantInt>(v)){ Array a; a.push_back("c"); a.push_back((int64_t)ci->getBitWidth()); SmallString<32> s; ci->getValue().toString(s,10,true); a.push_back(std::string(s)); return std::move(a);}
  if(auto*cf=dyn_cast<ConstantFP>(v)){ Array a; a.push_back("f"); APFloat f=cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); a.push_back(std::to_string(f.bitcastToAPInt().getZExtValue())); a.push_back(ty(v->getType())); return std::move(a);}
  if(isa<ConstantPointerNull>(v)) return Array{"null"};
  if(isa<UndefValue>(v)) {Array a; a.push_back("undef"); a.push_back(ty(v->getType())); return std::move(a);}
  if(isa<ConstantAggregateZero>(v)) {Array a; a.push_back("zero"); a.push_back(ty(v->getType())); return std::move(a);}
  if(auto*g=dyn_cast<GlobalValue>(v)){ if(auto*ga=dyn_cast<GlobalAlias>(g)){ return opnd(ga->getAliasee()); } need(g); Array a; a.push_back(isa<Function>(g)?"fn":"g"); a.push_back(g->getName().str()); a.push_back(0); return std::move(a);}
  if(auto*ce=dyn_cast<ConstantExpr>(v)){
    if(ce->getType()->isPointerTy()){ APInt off(64,0); const llvm::Value*b=ce->stripAndAccumulateConstantOffsets(*DL,off,true); if(b!=v){ auto r=opnd(b); if(auto*ar=r.getAsArray()) if(ar->size()>=3 && ((*ar)[0]=="g"||(*ar)[0]=="fn")){ int64_t o=*(*ar)[2].getAsInteger(); (*ar)[2]=o+off.getSExtValue(); } return r; } }
    Array a; a.push_back("ce"); a.push_back(ce->getOpcodeName()); a.push_back(ty(ce->getType())); Array o; for(auto&x:ce->operands()) o.push_back(opnd(x)); a.push_back(std::move(o)); return std::move(a);
  }
  if(auto*ca=dyn_cast<ConstantAggregate>(v)){ Array a; a.push_back("agg"); a.push_back(ty(v->getType())); Array o; for(auto&x:ca->operands()) o.push_back(opnd(x)); a.push_back(std::move(o)); return std::move(a);}
  if(auto*cd=dyn_cast<ConstantDataSequential>(v)){ Array a; a.push_back("agg"); a.push_back(ty(v->getType())); Array o; for(unsigned i=0;i<cd->getNumElements();i++) o.push_back(opnd(cd->getElementAsConstant(i))); a.push_back(std::move(o)); return std::move(a);}
  auto it=ids.find(v); if(it!=ids.end()){ Array a; a.push_back("v"); a.push_back(it->second); return std::move(a);}
  return Array{"?"};
}
static void flat(const Constant*c,int64_t off,Array&out){
  Type*t=c->getType();
  if(auto*s=dyn_cast<StructType>(t)){ auto*l=DL->getStructLayout(s); if(isa<ConstantAggregateZero>(c)||isa<ConstantStruct>(c)) {for(unsigned i=0;i<s->getNumElements();i++) flat(c->getAggregateElement(i),off+(uint64_t)l->getElementOffset(i),out); return;} }
  if(auto*s=dyn_cast<ArrayType>(t)){ uint64_t n=s->getNumElements(); if(n>4096) return; uint64_t es=DL->getTypeAllocSize(s->getElementType()); for(uint64_t i=0;i<n;i++){ auto*e=c->getAggregateElement((unsigned)i); if(e) flat(e,off+i*es,out);} return; }
  Array a; a.push_back(off); a.push_back((int64_t)DL->getTypeStoreSize(t)); a.push_back(ty(t)); a.push_back(opnd(c)); out.push_back(std::move(a));
}
static int prep(const char*in,const char*out,const char*rxfile){
  // marks the functions whose demangled name matches one of the given regular
  // expressions (library models, replaced contracts) as noinline; bodies untouched
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(in,E,C); if(!M){E.print("irdump",errs());return 2;}
  std::vector<Regex> rx; { auto mb=MemoryBuffer::getFile(rxfile); if(!mb) return 2; SmallVector<StringRef,64> ls; (*mb)->getBuffer().split(ls,'\n'); for(auto l:ls) if(!l.empty()) rx.emplace_back(l); }
  for(auto&F:*M){ std::string d=demangle(F.getName().str()); bool m=M->getFunction(("replace__"+F.getName()).str())!=nullptr; if(!m) for(auto&r:rx) if(r.match(d)){m=true;break;}
    if(m){ F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); } }
  std::error_code ec; raw_fd_ostream os(out,ec); WriteBitcodeToFile(*M,os); return 0; }
int main(int argc,char**argv){
  if(argc>4 && std::string(argv[1])=="--prep") return prep(argv[2],argv[3],argv[4]);
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){E.print("irdump",errs());return 2;} DL=&M->getDataLayout();
  std::string prefix=argc>2?argv[2]:"h_";
  for(auto&F:*M) if(!F.isDeclaration()){ auto n=F.getName(); if(n.starts_with(prefix)||n.starts_with("cand_")||n.starts_with("replace__")) need(&F);} 
  Object funcs, globals;
  while(!work.empty()){
    const GlobalValue*g=work.front(); work.pop_front();
    if(auto*gv=dyn_cast<GlobalVariable>(g)){ Object o; o["const"]=gv->isConstant(); o["size"]=(int64_t)DL->getTypeAllocSize(gv->getValueType()); o["ty"]=ty(gv->getValueType()); o["tls"]=gv->isThreadLocal(); if(gv->hasInitializer()){ Array a; flat(gv->getInitializer(),0,a); o["init"]=std::move(a);} globals[g->getName()]=std::move(o); continue; }
    auto*F=const_cast<Function*>(dyn_cast<Function>(g)); if(!F) continue;
    Object fo; fo["dem"]=demangle(F->getName().str()); fo["ret"]=ty(F->getReturnType());
    { Array ps; for(auto&A:F->args()) {ps.push_back(ty(A.getType()));} fo["params"]=std::move(ps);} 
    fo["nounwind"]=F->doesNotThrow();
    { Array ps; for(auto&A:F->args()) {ps.push_back(A.hasByValAttr()? (int64_t)DL->getTypeAllocSize(A.getParamByValType()):(int64_t)0);} fo["byval"]=std::move(ps);} 
    if(!F->isDeclaration()){
      ids.clear(); int n=0; std::map<const BasicBlock*,int> bid; int b=0;
      for(auto&A:F->args()) ids[&A]=n++;
      for(auto&B:*F){ bid[&B]=b++; for(auto&I:B) ids[&I]=n++; }
      DominatorTree DT(*F); LoopInfo LI(DT);
      Array loops; { std::function<void(Loop*)> rec=[&](Loop*L){ Object lo; lo["header"]=bid[L->getHeader()]; Array bs; for(auto*x:L->blocks()) bs.push_back(bid[x]); lo["blocks"]=std::move(bs); lo["depth"]=(int64_t)L->getLoopDepth(); loops.push_back(std::move(lo)); for(auto*S:L->getSubLoops()) rec(S);}; for(auto*L:LI) rec(L);} 
      fo["loops"]=std::move(loops);
      { Array a; for(auto&A:F->args()) a.push_back(ids[&A]); fo["args"]=std::move(a);} 
      Array blocks;
      for(auto&B:*F){ Array ins;
        for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; Object o; o["id"]=ids[&I]; o["op"]=I.getOpcodeName(); o["ty"]=ty(I.getType());
          if(auto dl=I.getDebugLoc()){ if(dl.get()) o["ln"]=(int64_t)dl.getLine(); }
          if(auto*p=dyn_cast<PHINode>(&I)){ Array inc; for(unsigned i=0;i<p->getNumIncomingValues();i++){ Array e; e.push_back(bid[p->getIncomingBlock(i)]); e.push_back(opnd(p->getIncomingValue(i))); inc.push_back(std::move(e)); } o["inc"]=std::move(inc); }
          else if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ o["cond"]=opnd(br->getCondition()); o["t"]=bid[br->getSuccessor(0)]; o["f"]=bid[br->getSuccessor(1)]; } else o["t"]=bid[br->getSuccessor(0)]; }
          else if(auto*sw=dyn_cast<SwitchInst>(&I)){ o["cond"]=opnd(sw->getCondition()); o["def"]=bid[sw->getDefaultDest()]; Array cs; for(auto&c:sw->cases()){ Array e; e.push_back(opnd(c.getCaseValue())); e.push_back(bid[c.getCaseSuccessor()]); cs.push_back(std::move(e)); } o["cases"]=std::move(cs); }
          else if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ MapVector<llvm::Value*,APInt> var; APInt co(64,0); bool ok=cast<GEPOperator>(g)->collectOffset(*DL,64,var,co); o["base"]=opnd(g->getPointerOperand()); o["ok"]=ok; o["off"]=co.getSExtValue(); Array vs; for(auto&kv:var){ Array e; e.push_back(opnd(kv.first)); e.push_back(kv.second.getSExtValue()); e.push_back((int64_t)kv.first->getType()->getIntegerBitWidth()); vs.push_back(std::move(e)); } o["vars"]=std::move(vs); o["ib"]=g->isInBounds(); }
          else if(auto*cb=dyn_cast<CallBase>(&I)){ o["callee"]=opnd(cb->getCalledOperand()); Array as; for(auto&a:cb->args()) { if(a->getType()->isMetadataTy()) as.push_back(Array{"md"}); else as.push_back(opnd(a)); } o["args"]=std::move(as); Array bv; for(unsigned i=0;i<cb->arg_size();i++) bv.push_back(cb->isByValArgument(i)?(int64_t)DL->getTypeAllocSize(cb->getParamByValType(i)):(int64_t)0); o["byval"]=std::move(bv); if(auto*iv=dyn_cast<InvokeInst>(cb)){ o["t"]=bid[iv->getNormalDest()]; o["u"]=bid[iv->getUnwindDest()]; } 
             if(cb->arg_size()>0 && cb->getType()->isVoidTy()==false){} }
          else { Array as; for(auto&x:I.operands()) as.push_back(opnd(x)); o["ops"]=std::move(as);
            if(auto*c=dyn_cast<CmpInst>(&I)){ o["pred"]=CmpInst::getPredicateName(c->getPredicate()).str(); o["oty"]=ty(I.getOperand(0)->getType()); }
            if(auto*obo=dyn_cast<OverflowingBinaryOperator>(&I)){ o["nsw"]=obo->hasNoSignedWrap(); o["nuw"]=obo->hasNoUnsignedWrap(); }
            if(isa<PossiblyExactOperator>(&I)) o["exact"]=cast<PossiblyExactOperator>(&I)->isExact();
            if(auto*c=dyn_cast<CastInst>(&I)) o["from"]=ty(c->getSrcTy());
            if(auto*a=dyn_cast<AllocaInst>(&I)){ o["size"]=(int64_t)DL->getTypeAllocSize(a->getAllocatedType()); o["aty"]=ty(a->getAllocatedType()); }
            if(isa<StoreInst>(&I)) o["vty"]=ty(I.getOperand(0)->getType());
            if(auto*e=dyn_cast<ExtractValueInst>(&I)){ Array x; for(auto i:e->indices()) x.push_back((int64_t)i); o["idx"]=std::move(x);} 
            if(auto*e=dyn_cast<InsertValueInst>(&I)){ Array x; for(auto i:e->indices()) x.push_back((int64_t)i); o["idx"]=std::move(x);} 
            if(auto*lp=dyn_cast<LandingPadInst>(&I)){ Array cl; for(unsigned i=0;i<lp->getNumClauses();i++){ Array e; e.push_back(lp->isCatch(i)?"catch":"filter"); e.push_back(opnd(lp->getClause(i))); cl.push_back(std::move(e)); } o["clauses"]=std::move(cl); o["cleanup"]=lp->isCleanup(); }
          }
          ins.push_back(std::move(o)); }
        blocks.push_back(std::move(ins)); }
      fo["blocks"]=std::move(blocks);
    }
    funcs[F->getName()]=std::move(fo);
  }
  Object top; top["functions"]=std::move(funcs); top["globals"]=std::move(globals);
  outs()<<json::Value(std::move(top))<<"\n"; return 0;
}
