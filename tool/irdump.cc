// irdump: link LLVM bitcode, force-inline everything that is not a kept API
// function, run a normalising pass pipeline and dump the result as JSON for
// the Python analyses.  It never executes the analysed program.
//
//   irdump -o out.json -keep keepfile -passes "..." [-only fn,fn] in.bc...
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include <set>
#include <map>
#include <fstream>
#include <sstream>
using namespace llvm;

static std::string tyStr(Type *t){ std::string s; raw_string_ostream o(s); t->print(o,false,true); return o.str(); }

struct Dumper {
  Module &M; const DataLayout &DL; json::OStream &J;
  DenseMap<const Value*, int> ids;
  Dumper(Module &m, json::OStream &j):M(m),DL(m.getDataLayout()),J(j){}

  void constant(const Constant *c){
    if(auto *ci=dyn_cast<ConstantInt>(c)){ J.arrayBegin(); J.value("c"); if(ci->getBitWidth()<=64) J.value(ci->getSExtValue()); else J.value(0); J.value(ci->getBitWidth()); J.arrayEnd(); return; }
    if(auto *cf=dyn_cast<ConstantFP>(c)){ J.arrayBegin(); J.value("f");
      APFloat v=cf->getValueAPF(); bool li; v.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li);
      double d=v.convertToDouble(); char buf[64]; snprintf(buf,64,"%.17g",d); J.value(buf); J.value(tyStr(c->getType())); J.arrayEnd(); return; }
    if(isa<ConstantPointerNull>(c)){ J.arrayBegin(); J.value("null"); J.arrayEnd(); return; }
    if(isa<UndefValue>(c)){ J.arrayBegin(); J.value("undef"); J.value(tyStr(c->getType())); J.arrayEnd(); return; }
    if(auto *f=dyn_cast<Function>(c)){ J.arrayBegin(); J.value("fn"); J.value(f->getName()); J.arrayEnd(); return; }
    if(auto *g=dyn_cast<GlobalVariable>(c)){ J.arrayBegin(); J.value("g"); J.value(g->getName()); J.arrayEnd(); return; }
    if(auto *a=dyn_cast<GlobalAlias>(c)){ constant(a->getAliasee()); return; }
    if(isa<ConstantAggregateZero>(c)){ J.arrayBegin(); J.value("zero"); J.value(tyStr(c->getType())); J.arrayEnd(); return; }
    if(auto *s=dyn_cast<ConstantDataSequential>(c)){
      J.arrayBegin(); J.value("data"); 
      if(s->isString()){ J.value("str"); std::string x=s->getAsString().str(); J.value(json::fixUTF8(x)); }
      else { J.value("seq"); J.arrayBegin(); for(unsigned i=0;i<s->getNumElements();i++) constant(s->getElementAsConstant(i)); J.arrayEnd(); }
      J.arrayEnd(); return; }
    if(auto *a=dyn_cast<ConstantAggregate>(c)){ J.arrayBegin(); J.value("agg"); J.value(tyStr(c->getType())); J.arrayBegin(); for(auto &o: a->operands()) constant(cast<Constant>(o)); J.arrayEnd(); J.arrayEnd(); return; }
    if(auto *e=dyn_cast<ConstantExpr>(c)){
      if(auto *g=dyn_cast<GEPOperator>(e)){
        APInt off(64,0); 
        if(g->accumulateConstantOffset(DL,off)){ J.arrayBegin(); J.value("gepc"); constant(cast<Constant>(g->getPointerOperand())); J.value(off.getSExtValue()); J.arrayEnd(); return; } }
      J.arrayBegin(); J.value("ce"); J.value(e->getOpcodeName()); J.arrayBegin(); for(auto &o: e->operands()) constant(cast<Constant>(o)); J.arrayEnd(); J.value(tyStr(c->getType())); J.arrayEnd(); return; }
    J.arrayBegin(); J.value("other"); J.value(tyStr(c->getType())); J.arrayEnd();
  }
  void operand(const Value *v){
    if(auto *c=dyn_cast<Constant>(v)){ constant(c); return; }
    if(auto *a=dyn_cast<Argument>(v)){ J.arrayBegin(); J.value("a"); J.value(a->getArgNo()); J.arrayEnd(); return; }
    if(isa<Instruction>(v)){ J.arrayBegin(); J.value("i"); J.value(ids.lookup(v)); J.arrayEnd(); return; }
    if(isa<MetadataAsValue>(v)){ J.arrayBegin(); J.value("md"); J.arrayEnd(); return; }
    if(auto *ia=dyn_cast<InlineAsm>(v)){ J.arrayBegin(); J.value("asm"); J.value(ia->getAsmString()); J.arrayEnd(); return; }
    J.arrayBegin(); J.value("?"); J.arrayEnd();
  }
  void loc(const DebugLoc &dl){
    // innermost location, then outermost function-level line
    if(!dl){ return; }
    J.attributeBegin("l"); J.arrayBegin();
    const DILocation *L=dl.get();
    while(L){ J.arrayBegin(); J.value(L->getFilename()); J.value(L->getLine()); 
      if(auto *sp=L->getScope()->getSubprogram()) J.value(sp->getName()); else J.value("");
      J.arrayEnd(); L=L->getInlinedAt(); }
    J.arrayEnd(); J.attributeEnd();
  }
  void fn(Function &F){
    ids.clear(); int n=0; DenseMap<const BasicBlock*,int> bid; int b=0;
    for(auto &B:F){ bid[&B]=b++; for(auto &I:B) ids[&I]=n++; }
    J.objectBegin();
    J.attribute("name",F.getName());
    J.attribute("internal",F.hasLocalLinkage());
    if(auto *sp=F.getSubprogram()){ J.attribute("dname",sp->getName()); J.attribute("file",sp->getFilename()); J.attribute("line",sp->getLine()); }
    J.attribute("ret",tyStr(F.getReturnType()));
    J.attributeBegin("args"); J.arrayBegin(); for(auto &a:F.args()){ J.arrayBegin(); J.value(a.getName()); J.value(tyStr(a.getType())); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd();
    J.attributeBegin("blocks"); J.arrayBegin();
    for(auto &B:F){ J.arrayBegin();
      for(auto &I:B){
        if(isa<DbgInfoIntrinsic>(&I)) continue;
        if(auto *ii=dyn_cast<IntrinsicInst>(&I)) if(ii->isLifetimeStartOrEnd()) continue;
        J.objectBegin();
        J.attribute("id",ids[&I]); J.attribute("op",I.getOpcodeName()); J.attribute("t",tyStr(I.getType()));
        loc(I.getDebugLoc());
        if(auto *g=dyn_cast<GetElementPtrInst>(&I)){
          auto *go=cast<GEPOperator>(g); unsigned bw=DL.getIndexSizeInBits(0); MapVector<Value*,APInt> vo; APInt co(bw,0);
          J.attributeBegin("o"); J.arrayBegin(); operand(g->getPointerOperand()); J.arrayEnd(); J.attributeEnd();
          if(go->collectOffset(DL,bw,vo,co)){
            J.attribute("off",co.getSExtValue()); J.attributeBegin("var"); J.arrayBegin();
            for(auto &p:vo){ J.arrayBegin(); operand(p.first); J.value(p.second.getSExtValue()); J.arrayEnd(); }
            J.arrayEnd(); J.attributeEnd(); }
          J.attribute("sty",tyStr(g->getSourceElementType()));
        } else if(auto *p=dyn_cast<PHINode>(&I)){
          J.attributeBegin("o"); J.arrayBegin(); for(unsigned k=0;k<p->getNumIncomingValues();k++){ J.arrayBegin(); J.value(bid[p->getIncomingBlock(k)]); operand(p->getIncomingValue(k)); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd();
        } else if(auto *c=dyn_cast<CallBase>(&I)){
          J.attributeBegin("callee"); operand(c->getCalledOperand()->stripPointerCasts()); J.attributeEnd();
          J.attributeBegin("o"); J.arrayBegin(); for(auto &a:c->args()) operand(a); J.arrayEnd(); J.attributeEnd();
          if(auto *iv=dyn_cast<InvokeInst>(c)){ J.attributeBegin("succ"); J.arrayBegin(); J.value(bid[iv->getNormalDest()]); J.value(bid[iv->getUnwindDest()]); J.arrayEnd(); J.attributeEnd(); }
        } else {
          J.attributeBegin("o"); J.arrayBegin();
          if(auto *br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()) operand(br->getCondition()); }
          else if(auto *sw=dyn_cast<SwitchInst>(&I)){ operand(sw->getCondition()); }
          else for(auto &o:I.operands()) if(!isa<BasicBlock>(o)) operand(o);
          J.arrayEnd(); J.attributeEnd();
          if(auto *c=dyn_cast<CmpInst>(&I)) { J.attribute("pred",CmpInst::getPredicateName(c->getPredicate())); J.attribute("ot",tyStr(c->getOperand(0)->getType())); }
          if(auto *c=dyn_cast<CastInst>(&I)) J.attribute("ot",tyStr(c->getSrcTy()));
          if(auto *s=dyn_cast<StoreInst>(&I)) { J.attribute("vt",tyStr(s->getValueOperand()->getType())); J.attribute("sz",(int64_t)DL.getTypeStoreSize(s->getValueOperand()->getType())); if(s->isVolatile()) J.attribute("vol",true);}
          if(auto *s=dyn_cast<LoadInst>(&I)) { J.attribute("sz",(int64_t)DL.getTypeStoreSize(s->getType())); if(s->isVolatile()) J.attribute("vol",true);}
          if(auto *al=dyn_cast<AllocaInst>(&I)) { J.attribute("aty",tyStr(al->getAllocatedType())); J.attribute("asz",(int64_t)DL.getTypeAllocSize(al->getAllocatedType())); J.attribute("nm",al->getName()); }
          if(auto *sv=dyn_cast<ShuffleVectorInst>(&I)){ J.attributeBegin("mask"); J.arrayBegin(); for(int m:sv->getShuffleMask()) J.value(m); J.arrayEnd(); J.attributeEnd(); }
          if(auto *ev=dyn_cast<ExtractValueInst>(&I)){ J.attributeBegin("idx"); J.arrayBegin(); for(auto m:ev->indices()) J.value((int)m); J.arrayEnd(); J.attributeEnd(); }
          if(auto *ev=dyn_cast<InsertValueInst>(&I)){ J.attributeBegin("idx"); J.arrayBegin(); for(auto m:ev->indices()) J.value((int)m); J.arrayEnd(); J.attributeEnd(); }
          if(auto *ar=dyn_cast<AtomicRMWInst>(&I)) J.attribute("rmw",AtomicRMWInst::getOperationName(ar->getOperation()));
          if(I.isTerminator()){ J.attributeBegin("succ"); J.arrayBegin();
            for(unsigned k=0;k<I.getNumSuccessors();k++) J.value(bid[I.getSuccessor(k)]); J.arrayEnd(); J.attributeEnd();
            if(auto *sw=dyn_cast<SwitchInst>(&I)){ J.attributeBegin("cases"); J.arrayBegin(); for(auto &cs:sw->cases()){ J.arrayBegin(); J.value(cs.getCaseValue()->getSExtValue()); J.value(bid[cs.getCaseSuccessor()]); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd(); } }
        }
        J.objectEnd();
      }
      J.arrayEnd(); }
    J.arrayEnd(); J.attributeEnd();
    J.objectEnd();
  }
  std::string diName(const DIType *t){
    if(!t) return "void";
    if(auto *d=dyn_cast<DIDerivedType>(t)){
      switch(d->getTag()){
        case dwarf::DW_TAG_pointer_type: return diName(d->getBaseType())+"*";
        case dwarf::DW_TAG_reference_type: return diName(d->getBaseType())+"&";
        case dwarf::DW_TAG_const_type: return diName(d->getBaseType());
        case dwarf::DW_TAG_volatile_type: return diName(d->getBaseType());
        case dwarf::DW_TAG_restrict_type: return diName(d->getBaseType());
        default: return d->getName().str(); } }
    if(auto *c=dyn_cast<DICompositeType>(t)){
      if(c->getTag()==dwarf::DW_TAG_array_type){ std::string s=diName(c->getBaseType()); for(auto *e:c->getElements()) if(auto *sr=dyn_cast<DISubrange>(e)){ if(auto *ci=dyn_cast_if_present<ConstantInt*>(sr->getCount())) s+="["+std::to_string(ci->getSExtValue())+"]"; } return s; }
      return c->getName().str(); }
    if(isa<DISubroutineType>(t)) return "fn()";
    return t->getName().str();
  }
  void types(){
    DebugInfoFinder F; F.processModule(M);
    J.attributeBegin("dtypes"); J.arrayBegin();
    for(DIType *t: F.types()){
      if(auto *d=dyn_cast<DIDerivedType>(t)) if(d->getTag()==dwarf::DW_TAG_typedef){ J.objectBegin(); J.attribute("typedef",d->getName()); J.attribute("of",diName(d->getBaseType())); J.objectEnd(); continue; }
      auto *c=dyn_cast<DICompositeType>(t); if(!c) continue;
      if(c->getTag()!=dwarf::DW_TAG_structure_type&&c->getTag()!=dwarf::DW_TAG_class_type&&c->getTag()!=dwarf::DW_TAG_enumeration_type&&c->getTag()!=dwarf::DW_TAG_union_type) continue;
      if(c->isForwardDecl()) continue;
      J.objectBegin(); J.attribute("name",c->getName()); J.attribute("id",c->getIdentifier()); J.attribute("size",(int64_t)c->getSizeInBits()/8); J.attribute("file",c->getFilename()); J.attribute("line",c->getLine());
      if(c->getTag()==dwarf::DW_TAG_enumeration_type){ J.attributeBegin("enums"); J.arrayBegin(); for(auto *e:c->getElements()) if(auto *en=dyn_cast<DIEnumerator>(e)){ J.arrayBegin(); J.value(en->getName()); J.value(en->getValue().getSExtValue()); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd(); }
      else { J.attributeBegin("members"); J.arrayBegin(); for(auto *e:c->getElements()) if(auto *m=dyn_cast<DIDerivedType>(e)) if(m->getTag()==dwarf::DW_TAG_member && !m->isStaticMember()){ J.arrayBegin(); J.value(m->getName()); J.value((int64_t)m->getOffsetInBits()/8); J.value(diName(m->getBaseType())); J.value((int64_t)m->getSizeInBits()/8); J.arrayEnd(); } J.arrayEnd(); J.attributeEnd(); }
      J.objectEnd(); }
    J.arrayEnd(); J.attributeEnd();
  }
};

int main(int argc,char**argv){
  std::string out,keepf,passes,only,bcout; std::vector<std::string> in; bool inl=true;
  for(int i=1;i<argc;i++){ std::string a=argv[i];
    if(a=="-o") out=argv[++i]; else if(a=="-keep") keepf=argv[++i]; else if(a=="-passes") passes=argv[++i]; else if(a=="-only") only=argv[++i]; else if(a=="-bc") bcout=argv[++i]; else if(a=="-noinline") inl=false; else in.push_back(a); }
  std::set<std::string> keep; if(!keepf.empty()){ std::ifstream f(keepf); std::string s; while(f>>s) keep.insert(s); }
  std::set<std::string> onlys; { std::stringstream ss(only); std::string s; while(std::getline(ss,s,',')) if(!s.empty()) onlys.insert(s); }
  LLVMContext C; SMDiagnostic E; std::unique_ptr<Module> M;
  for(auto &f:in){ auto m=parseIRFile(f,E,C); if(!m){ E.print("irdump",errs()); return 3; }
    if(!M) M=std::move(m); else if(Linker::linkModules(*M,std::move(m))) return 3; }
  for(auto &F:*M){ if(F.isDeclaration()) continue;
    F.removeFnAttr(Attribute::OptimizeNone);
    std::string n=F.getName().str();
    std::string dn; if(auto*sp=F.getSubprogram()) dn=sp->getName().str();
    // pipeline entry points: void f( args *, int pipeline_rank, int n_pipeline )
    bool pl = F.arg_size()==3 && F.getReturnType()->isVoidTy() && F.getArg(0)->getType()->isPointerTy() && F.getArg(1)->getType()->isIntegerTy(32) && F.getArg(2)->getType()->isIntegerTy(32) && dn.find("_pipeline")!=std::string::npos;
    bool k = pl||keep.count(n)||keep.count(dn)||F.hasAddressTaken();
    if(inl){ if(k){ F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline);} else { F.removeFnAttr(Attribute::NoInline); F.addFnAttr(Attribute::AlwaysInline);} }
    if(F.hasLinkOnceODRLinkage()) F.setLinkage(GlobalValue::InternalLinkage), F.setComdat(nullptr);
  }
  if(!passes.empty()){
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CGAM,MAM);
    ModulePassManager MPM; if(auto e=PB.parsePassPipeline(MPM,passes)){ errs()<<toString(std::move(e))<<"\n"; return 3; }
    MPM.run(*M,MAM);
    // straight-line cleanup only: no jump threading, so that source loops stay canonical
    for(auto &F:*M){ if(F.isDeclaration()) continue;
      for(auto &B:F) ConstantFoldTerminator(&B,true);
      removeUnreachableBlocks(F);
      for(auto it=F.begin();it!=F.end();){ BasicBlock*b=&*it++; MergeBlockIntoPredecessor(b); }
    }
  }
  std::error_code ec; raw_fd_ostream o(out,ec); if(ec){ errs()<<ec.message()<<"\n"; return 3; }
  json::OStream J(o); Dumper D(*M,J);
  J.objectBegin();
  J.attributeBegin("globals"); J.arrayBegin();
  for(auto &g:M->globals()){ J.objectBegin(); J.attribute("name",g.getName()); J.attribute("const",g.isConstant()); J.attribute("internal",g.hasLocalLinkage()); J.attribute("ty",tyStr(g.getValueType()));
    J.attribute("tls",g.isThreadLocal());
    if(g.hasInitializer()){ J.attributeBegin("init"); D.constant(g.getInitializer()); J.attributeEnd(); }
    J.objectEnd(); }
  J.arrayEnd(); J.attributeEnd();
  D.types();
  J.attributeBegin("decls"); J.arrayBegin(); for(auto &F:*M) if(F.isDeclaration()) J.value(F.getName()); J.arrayEnd(); J.attributeEnd();
  J.attributeBegin("funcs"); J.arrayBegin();
  for(auto &F:*M){ if(F.isDeclaration()) continue; if(!onlys.empty()){ std::string dn; if(auto*sp=F.getSubprogram()) dn=sp->getName().str(); if(!onlys.count(F.getName().str())&&!onlys.count(dn)) continue; } D.fn(F); }
  J.arrayEnd(); J.attributeEnd();
  J.objectEnd(); o<<"\n";
  return 0;
}
