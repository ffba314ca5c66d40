// irdump: reads an LLVM bitcode file and prints, as JSON, every function body and every constant
// global.  GEPs are resolved to (base, constant byte offset, [(index, byte scale)]).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include <map>
#include <set>
using namespace llvm;
static raw_ostream& O = outs();
static const DataLayout* DL;
static std::string esc(StringRef s){ std::string r="\""; for(char c: s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if((unsigned char)c<32||(unsigned char)c>126){char b[8];snprintf(b,8,"\\u%04x",(unsigned char)c);r+=b;} else r+=c;} return r+"\""; }
static std::string ty(Type* t){ std::string s; raw_string_ostream o(s);
  if(auto st=dyn_cast<StructType>(t)){ o<<"{"; for(unsigned i=0;i<st->getNumElements();i++){ if(i)o<<","; o<<ty(st->getElementType(i)); } o<<"}"; }
  else if(auto at=dyn_cast<ArrayType>(t)) o<<"["<<at->getNumElements()<<"x"<<ty(at->getElementType())<<"]";
  else if(auto vt=dyn_cast<FixedVectorType>(t)) o<<"<"<<vt->getNumElements()<<"x"<<ty(vt->getElementType())<<">";
  else t->print(o); return o.str(); }
struct FnCtx { std::map<const Value*,int> ids; };
static std::string fpstr(const APFloat& f){ APFloat g=f; bool li; SmallString<64> s;
  if(f.isInfinity()) return f.isNegative()?"-inf":"inf"; if(f.isNaN()) return "nan";
  if(&f.getSemantics()==&APFloat::x87DoubleExtended()||&f.getSemantics()==&APFloat::IEEEquad()){ char buf[128]; unsigned n=g.convertToHexString(buf,0,false,APFloat::rmNearestTiesToEven); return std::string(buf,n);} 
  g.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&li); char buf[128]; unsigned n=g.convertToHexString(buf,0,false,APFloat::rmNearestTiesToEven); return std::string(buf,n); }
static void gepTail(const GEPOperator* g, FnCtx& F);
static void val(const Value* v, FnCtx& F){
  if(auto c=dyn_cast<ConstantInt>(v)){ SmallString<40> s; c->getValue().toStringUnsigned(s); O<<"{\"k\":\"int\",\"v\":\""<<s<<"\",\"w\":"<<c->getBitWidth()<<"}"; return; }
  if(auto c=dyn_cast<ConstantFP>(v)){ O<<"{\"k\":\"fp\",\"v\":"<<esc(fpstr(c->getValueAPF()))<<",\"t\":"<<esc(ty(c->getType()))<<"}"; return; }
  if(isa<ConstantPointerNull>(v)){ O<<"{\"k\":\"null\"}"; return; }
  if(isa<PoisonValue>(v)||isa<UndefValue>(v)){ O<<"{\"k\":\"undef\",\"t\":"<<esc(ty(v->getType()))<<"}"; return; }
  if(auto c=dyn_cast<ConstantAggregateZero>(v)){ O<<"{\"k\":\"zero\",\"t\":"<<esc(ty(c->getType()))<<"}"; return; }
  if(auto g=dyn_cast<GlobalValue>(v)){ O<<"{\"k\":\"glob\",\"v\":"<<esc(g->getName())<<"}"; return; }
  if(auto c=dyn_cast<ConstantDataSequential>(v)){ O<<"{\"k\":\"agg\",\"t\":"<<esc(ty(c->getType()))<<",\"v\":["; for(unsigned i=0;i<c->getNumElements();i++){ if(i)O<<","; val(c->getElementAsConstant(i),F);} O<<"]}"; return; }
  if(auto c=dyn_cast<ConstantAggregate>(v)){ O<<"{\"k\":\"agg\",\"t\":"<<esc(ty(c->getType()))<<",\"v\":["; for(unsigned i=0;i<c->getNumOperands();i++){ if(i)O<<","; val(c->getOperand(i),F);} O<<"]}"; return; }
  if(auto ce=dyn_cast<ConstantExpr>(v)){
    if(auto g=dyn_cast<GEPOperator>(ce)){ O<<"{\"k\":\"cgep\","; gepTail(g,F); O<<"}"; return; }
    O<<"{\"k\":\"cexpr\",\"op\":"<<esc(ce->getOpcodeName())<<",\"t\":"<<esc(ty(ce->getType()))<<",\"ops\":["; for(unsigned i=0;i<ce->getNumOperands();i++){ if(i)O<<","; val(ce->getOperand(i),F);} O<<"]}"; return; }
  auto it=F.ids.find(v); if(it!=F.ids.end()){ O<<"{\"k\":\"r\",\"v\":"<<it->second<<"}"; return; }
  if(isa<MetadataAsValue>(v)){ O<<"{\"k\":\"md\"}"; return; }
  O<<"{\"k\":\"other\"}";
}
static void gepTail(const GEPOperator* g, FnCtx& F){
  unsigned bw=DL->getIndexTypeSizeInBits(g->getType()); MapVector<Value*,APInt> vars; APInt off(bw,0);
  bool ok = !g->getType()->isVectorTy() && g->collectOffset(*DL,bw,vars,off);
  O<<"\"base\":"; val(g->getPointerOperand(),F); O<<",\"ok\":"<<(ok?1:0)<<",\"off\":"<<off.getSExtValue()<<",\"vars\":["; bool first=true;
  for(auto&kv: vars){ if(!first)O<<","; first=false; O<<"["; val(kv.first,F); O<<","<<kv.second.getSExtValue()<<","<<kv.first->getType()->getIntegerBitWidth()<<"]"; }
  O<<"]";
}
static void dbg(const Instruction& I){ const DILocation* L=I.getDebugLoc().get(); if(!L) return; O<<",\"dbg\":["; bool f=true; for(;L;L=L->getInlinedAt()){ if(!f)O<<","; f=false; auto sp=L->getScope()->getSubprogram(); std::string fn = (L->getDirectory().empty()||L->getFilename().starts_with("/"))?L->getFilename().str():(L->getDirectory()+"/"+L->getFilename()).str(); O<<"["<<esc(fn)<<","<<L->getLine()<<","<<esc(sp?sp->getName():"")<<"]"; } O<<"]"; }
static void leafs(Type* t, uint64_t off, std::vector<std::pair<uint64_t,Type*>>& out){
  if(auto st=dyn_cast<StructType>(t)){ auto* sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++) leafs(st->getElementType(i),off+sl->getElementOffset(i),out);} 
  else if(auto at=dyn_cast<ArrayType>(t)){ uint64_t sz=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements()&&i<100000;i++) leafs(at->getElementType(),off+i*sz,out);} 
  else out.push_back({off,t}); }
static void initf(const Constant* c, uint64_t off, FnCtx& F, bool& first){
  Type* t=c->getType();
  if(isa<UndefValue>(c)) return;
  if(isa<StructType>(t)||isa<ArrayType>(t)){
    if(isa<ConstantAggregateZero>(c)){ std::vector<std::pair<uint64_t,Type*>> l; leafs(t,off,l); if(l.size()>20000) return; for(auto&p:l){ if(!first)O<<","; first=false; O<<"["<<p.first<<","<<esc(ty(p.second))<<","; val(Constant::getNullValue(p.second),F); O<<"]"; } return; }
    unsigned n = isa<StructType>(t)?cast<StructType>(t)->getNumElements():cast<ArrayType>(t)->getNumElements();
    for(unsigned i=0;i<n;i++){ uint64_t o; if(auto st=dyn_cast<StructType>(t)) o=DL->getStructLayout(st)->getElementOffset(i); else o=i*DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); initf(c->getAggregateElement(i),off+o,F,first);} return; }
  if(!first)O<<","; first=false; O<<"["<<off<<","<<esc(ty(t))<<","; val(c,F); O<<"]"; }
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){E.print("irdump",errs());return 2;} DL=&M->getDataLayout();
  O<<"{\"functions\":{"; bool ff=true;
  for(auto&Fn:*M){ if(Fn.isIntrinsic()) continue; if(!ff)O<<",\n"; ff=false; FnCtx F; int n=0; for(auto&A:Fn.args()) F.ids[&A]=n++; std::map<const BasicBlock*,int> bid; int b=0; for(auto&BB:Fn){ bid[&BB]=b++; for(auto&I:BB) F.ids[&I]=n++; }
    O<<esc(Fn.getName())<<":{\"decl\":"<<(Fn.isDeclaration()?1:0)<<",\"noreturn\":"<<(Fn.doesNotReturn()?1:0)<<",\"ret\":"<<esc(ty(Fn.getReturnType()))<<",\"args\":["; bool fa=true; for(auto&A:Fn.args()){ if(!fa)O<<","; fa=false; O<<"{\"n\":"<<esc(A.getName())<<",\"t\":"<<esc(ty(A.getType()))<<",\"sret\":"<<(A.hasStructRetAttr()?1:0)<<",\"byval\":"<<(A.hasByValAttr()?(long)DL->getTypeAllocSize(A.getParamByValType()):0)<<"}"; }
    O<<"]"; if(auto sp=Fn.getSubprogram()) O<<",\"file\":"<<esc(sp->getFilename())<<",\"line\":"<<sp->getLine();
    O<<",\"blocks\":["; bool fb=true;
    for(auto&BB:Fn){ if(!fb)O<<",\n"; fb=false; O<<"["; bool fi=true; for(auto&I:BB){ if(isa<DbgInfoIntrinsic>(I)) continue; if(!fi)O<<",\n "; fi=false;
        O<<"{\"id\":"<<F.ids[&I]<<",\"op\":"<<esc(I.getOpcodeName())<<",\"t\":"<<esc(ty(I.getType()));
        if(auto g=dyn_cast<GetElementPtrInst>(&I)){ O<<","; gepTail(cast<GEPOperator>(g),F); }
        else if(auto p=dyn_cast<PHINode>(&I)){ O<<",\"in\":["; for(unsigned i=0;i<p->getNumIncomingValues();i++){ if(i)O<<","; O<<"["; val(p->getIncomingValue(i),F); O<<","<<bid[p->getIncomingBlock(i)]<<"]"; } O<<"]"; }
        else if(auto br=dyn_cast<BranchInst>(&I)){ O<<",\"succ\":["; for(unsigned i=0;i<br->getNumSuccessors();i++){ if(i)O<<","; O<<bid[br->getSuccessor(i)]; } O<<"]"; if(br->isConditional()){ O<<",\"cond\":"; val(br->getCondition(),F);} }
        else if(auto sw=dyn_cast<SwitchInst>(&I)){ O<<",\"cond\":"; val(sw->getCondition(),F); O<<",\"def\":"<<bid[sw->getDefaultDest()]<<",\"cases\":["; bool f1=true; for(auto&c:sw->cases()){ if(!f1)O<<","; f1=false; SmallString<40> s; c.getCaseValue()->getValue().toStringUnsigned(s); O<<"[\""<<s<<"\","<<bid[c.getCaseSuccessor()]<<"]"; } O<<"]"; }
        else if(auto cb=dyn_cast<CallBase>(&I)){ O<<",\"callee\":"; val(cb->getCalledOperand(),F); O<<",\"ops\":["; for(unsigned i=0;i<cb->arg_size();i++){ if(i)O<<","; val(cb->getArgOperand(i),F);} O<<"],\"fname\":"<<esc(cb->getCalledFunction()?cb->getCalledFunction()->getName():StringRef("")); O<<",\"noret\":"<<(cb->doesNotReturn()?1:0); O<<",\"ro\":"<<(cb->doesNotAccessMemory()?2:cb->onlyReadsMemory()?1:0); if(auto iv=dyn_cast<InvokeInst>(&I)) O<<",\"succ\":["<<bid[iv->getNormalDest()]<<","<<bid[iv->getUnwindDest()]<<"]"; 
          O<<",\"byval\":["; for(unsigned i=0;i<cb->arg_size();i++){ if(i)O<<","; O<<(cb->isByValArgument(i)?(long)DL->getTypeAllocSize(cb->getParamByValType(i)):0);} O<<"]"; }
        else if(auto al=dyn_cast<AllocaInst>(&I)){ O<<",\"size\":"<<DL->getTypeAllocSize(al->getAllocatedType())<<",\"ops\":["; val(al->getArraySize(),F); O<<"]"; }
        else { O<<",\"ops\":["; for(unsigned i=0;i<I.getNumOperands();i++){ if(i)O<<","; if(isa<BasicBlock>(I.getOperand(i))) O<<"null"; else val(I.getOperand(i),F);} O<<"]";
          if(auto rw=dyn_cast<AtomicRMWInst>(&I)) O<<",\"rmw\":"<<esc(AtomicRMWInst::getOperationName(rw->getOperation()).str());
          if(auto c=dyn_cast<CmpInst>(&I)) O<<",\"pred\":"<<esc(CmpInst::getPredicateName(c->getPredicate()))<<",\"ot\":"<<esc(ty(c->getOperand(0)->getType()));
          if(isa<CastInst>(I)) O<<",\"st\":"<<esc(ty(I.getOperand(0)->getType()));
          if(isa<StoreInst>(I)) O<<",\"st\":"<<esc(ty(I.getOperand(0)->getType()));
          if(auto ev=dyn_cast<ExtractValueInst>(&I)){ O<<",\"idx\":["; bool f1=true; for(unsigned i:ev->indices()){ if(!f1)O<<","; f1=false; O<<i;} O<<"]"; }
          if(auto ev=dyn_cast<InsertValueInst>(&I)){ O<<",\"idx\":["; bool f1=true; for(unsigned i:ev->indices()){ if(!f1)O<<","; f1=false; O<<i;} O<<"]"; }
          if(auto sv=dyn_cast<ShuffleVectorInst>(&I)){ O<<",\"mask\":["; bool f1=true; for(int i:sv->getShuffleMask()){ if(!f1)O<<","; f1=false; O<<i;} O<<"]"; }
          if(auto ob=dyn_cast<OverflowingBinaryOperator>(&I)) O<<",\"nsw\":"<<(ob->hasNoSignedWrap()?1:0)<<",\"nuw\":"<<(ob->hasNoUnsignedWrap()?1:0);
        }
        dbg(I); O<<"}"; }
      O<<"]"; }
    O<<"]}"; }
  O<<"},\n\"globals\":{"; ff=true;
  for(auto&G:M->globals()){ if(!ff)O<<",\n"; ff=false; FnCtx F; O<<esc(G.getName())<<":{\"const\":"<<(G.isConstant()?1:0)<<",\"size\":"<<(G.getValueType()->isSized()?(uint64_t)DL->getTypeAllocSize(G.getValueType()):0)<<",\"init\":"; if(G.hasInitializer() && G.hasDefinitiveInitializer()){ O<<"["; bool first=true; initf(G.getInitializer(),0,F,first); O<<"]"; } else O<<"null"; O<<"}"; }
  O<<"}}\n"; return 0; }
