// Instrumentation pass: turns the merged LLVM module of the real code (repo sources + harness)
// into a program that carries a symbolic shadow for every scalar SSA value and memory byte.
// Values with a shadow have an irrelevant concrete part: every use that matters (branch, address,
// external argument, divisor, int<->fp conversion) is routed through the runtime.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/Verifier.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
using namespace llvm;
namespace {

static const std::map<std::string,int> MATH = {
  {"sin",1},{"cos",2},{"exp",3},{"sqrt",4},{"fabs",5},{"log",6},{"tan",7},{"atan",8},{"acos",9},{"asin",10},
  {"cosh",11},{"sinh",12},{"tanh",13},{"floor",14},{"ceil",15},{"round",16},{"trunc",17},
  {"pow",32},{"atan2",33},{"fmod",34},{"hypot",35},{"fmin",36},{"fmax",37}};

// externals which neither inspect scalar data nor read symbolic memory in a way that matters
static const std::set<std::string> SAFE = {
  "free","_ZdlPv","_ZdlPvm","_ZdaPv","_ZdaPvm","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","__cxa_throw","__cxa_begin_catch","__cxa_end_catch",
  "__cxa_allocate_exception","__cxa_free_exception","__cxa_rethrow","__cxa_guard_acquire","__cxa_guard_release",
  "__cxa_guard_abort","__cxa_atexit","__cxa_bad_cast","__cxa_bad_typeid","__cxa_pure_virtual","__dynamic_cast","__gxx_personality_v0",
  "_ZSt9terminatev","_Unwind_Resume","pthread_mutex_lock","pthread_mutex_unlock","__errno_location",
  "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base",
  "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base","_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base",
  "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_",
  "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_",
  "_ZNSt8__detail15_List_node_base7_M_hookEPS0_","_ZNSt8__detail15_List_node_base9_M_unhookEv",
  "_ZNSt8__detail15_List_node_base4swapERS0_S1_","_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_"};

struct SymPass : PassInfoMixin<SymPass> {
  Module *M; LLVMContext *C; Type *VoidT; PointerType *P; IntegerType *I1,*I8,*I32,*I64; Type *D;
  const DataLayout *DL;
  FunctionCallee fEnter,fBin,fFbin,fFneg,fIcmp,fFcmp,fCast,fConc,fFptoi,fBranch,fSel,fFsel,fLdi,fLdf,fSti,fStf,
    fMemcpy,fMemset,fMath,fOvf,fExtract,fInsert,fSetRet,fGetRet,fClear,fExtFp,fExtPtr,fUnsup,fByval,fDiv,fIntr,fExtDone,fCallU,fAcc,fTab;
  std::map<Instruction*,Value*> tabs;
  GlobalVariable *gArgs,*gCallee;
  std::map<std::string,GlobalVariable*> names;

  Constant *nullp(){ return ConstantPointerNull::get(P); }
  bool isNull(Value*v){ return isa<ConstantPointerNull>(v); }

  void init(Module &m){
    M=&m; C=&m.getContext(); VoidT=Type::getVoidTy(*C); P=PointerType::getUnqual(*C);
    I1=Type::getInt1Ty(*C); I8=Type::getInt8Ty(*C); I32=Type::getInt32Ty(*C); I64=Type::getInt64Ty(*C); D=Type::getDoubleTy(*C);
    DL=&m.getDataLayout();
    auto F=[&](const char*n,Type*r,std::vector<Type*> a){ return m.getOrInsertFunction(n,FunctionType::get(r,a,false)); };
    fEnter=F("__sym_enter",P,{P});
    fBin=F("__sym_bin",P,{I32,I32,I64,P,I64,P});
    fFbin=F("__sym_fbin",P,{I32,D,P,D,P});
    fFneg=F("__sym_fneg",P,{P});
    fIcmp=F("__sym_icmp",P,{I32,I32,I64,P,I64,P});
    fFcmp=F("__sym_fcmp",P,{I32,D,P,D,P});
    fCast=F("__sym_cast",P,{I32,I32,I32,P});
    fConc=F("__sym_conc",I64,{I64,P,I32}); fTab=F("__sym_tab",P,{P,P,I32,I64,I32});

    fFptoi=F("__sym_fptoi",I64,{I64,P,I32});
    fBranch=F("__sym_branch",I1,{I1,P});
    fSel=F("__sym_sel",P,{I1,P,I32,I64,P,I64,P});
    fFsel=F("__sym_fsel",P,{I1,P,D,P,D,P});
    fLdi=F("__sym_ldi",P,{P,I32,I32});
    fLdf=F("__sym_ldf",P,{P,I32});
    fSti=F("__sym_sti",VoidT,{P,I32,I32,P});
    fStf=F("__sym_stf",VoidT,{P,I32,P});
    fMemcpy=F("__sym_memcpy",VoidT,{P,P,I64});
    fMemset=F("__sym_memset",VoidT,{P,I8,P,I64});
    fMath=F("__sym_math",P,{I32,D,P,D,P});
    fOvf=F("__sym_ovf",P,{I32,I32,I64,P,I64,P});
    fExtract=F("__sym_extract",P,{P,I32});
    fInsert=F("__sym_insert",P,{P,I32,P});
    fSetRet=F("__sym_setret",VoidT,{P,P});
    fGetRet=F("__sym_getret",P,{P});
    fClear=F("__sym_clear",VoidT,{P,I64});
    fExtFp=F("__sym_ext_fp",D,{P,D,P});
    fExtPtr=F("__sym_ext_ptr",VoidT,{P,P});
    fUnsup=F("__sym_unsup",VoidT,{P,P});
    fByval=F("__sym_byval",VoidT,{P,P,I64});
    fDiv=F("__sym_divguard",I64,{I64,P,I32,I32});
    fIntr=F("__sym_intr",P,{I32,I32,I64,P,I64,P});
    fCallU=F("__sym_calldone",VoidT,{P});
    fAcc=F("__sym_acc",VoidT,{P,I64,I32});
    gArgs=cast<GlobalVariable>(m.getOrInsertGlobal("__sym_args",ArrayType::get(P,64)));
    gCallee=cast<GlobalVariable>(m.getOrInsertGlobal("__sym_callee",P));
  }
  Value *nm(const std::string&s){
    auto &g=names[s]; if(!g){ auto*c=ConstantDataArray::getString(*C,s);
      g=new GlobalVariable(*M,c->getType(),true,GlobalValue::PrivateLinkage,c,"symname"); }
    return g; }

  // ------------- per function state
  Function *F; std::map<Value*,Value*> S; std::vector<std::pair<PHINode*,PHINode*>> phis;

  Value *sh(Value *v){
    if(auto*ce=dyn_cast<Constant>(v)){(void)ce; return nullp();}
    auto it=S.find(v); if(it==S.end()) return nullp(); return it->second; }
  bool isInt(Type*t){ return t->isIntegerTy() && t->getIntegerBitWidth()<=64; }
  bool isFp(Type*t){ return t->isFloatingPointTy(); }
  Value *toI64(IRBuilder<>&B,Value*v){
    if(v->getType()->isPointerTy()) return B.CreatePtrToInt(v,I64);
    if(v->getType()==I64) return v; return B.CreateZExt(v,I64); }
  Value *toD(IRBuilder<>&B,Value*v){
    if(v->getType()->isDoubleTy()) return v;
    if(v->getType()->isFloatTy()||v->getType()->isHalfTy()) return B.CreateFPExt(v,D);
    return B.CreateFPTrunc(v,D); }
  ConstantInt *c32(unsigned v){ return ConstantInt::get(I32,v); }
  unsigned bits(Type*t){ return t->getIntegerBitWidth(); }
  void unsup(IRBuilder<>&B,const std::string&what,Value*s){ if(!isNull(s)) B.CreateCall(fUnsup,{nm(what),s}); }
  // concretise an integer operand of instruction I in place
  void concOperand(Instruction*I,unsigned op){
    Value*v=I->getOperand(op); Value*s=sh(v); if(isNull(s)) return;
    IRBuilder<> B(I); if(!isInt(v->getType())){ unsup(B,"conc-operand",s); return; }
    Value*r=B.CreateCall(fConc,{toI64(B,v),s,c32(bits(v->getType()))});
    I->setOperand(op,B.CreateTrunc(r,v->getType())); }

  Value* loadShadow(IRBuilder<>&B,Value*ptr,Type*t){
    uint64_t sz=DL->getTypeStoreSize(t);
    if(isInt(t)) return B.CreateCall(fLdi,{ptr,c32(sz),c32(bits(t))});
    if(isFp(t)) return B.CreateCall(fLdf,{ptr,c32(sz)});
    if(auto*st=dyn_cast<StructType>(t)){
      auto*L=DL->getStructLayout(st); Value*a=nullp();
      for(unsigned i=0;i<st->getNumElements();i++){
        if(st->getElementType(i)->isPointerTy()) continue;
        Value*e=loadShadow(B,B.CreateConstGEP1_64(I8,ptr,L->getElementOffset(i)),st->getElementType(i));
        a=B.CreateCall(fInsert,{a,c32(i),e}); }
      return a; }
    return nullp(); }
  void storeShadow(IRBuilder<>&B,Value*ptr,Type*t,Value*s){
    uint64_t sz=DL->getTypeStoreSize(t);
    if(isInt(t)&&!isNull(s)) B.CreateCall(fSti,{ptr,c32(sz),c32(bits(t)),s});
    else if(isFp(t)&&!isNull(s)) B.CreateCall(fStf,{ptr,c32(sz),s});
    else if(isa<StructType>(t)&&!isNull(s)){
      auto*st=cast<StructType>(t); auto*L=DL->getStructLayout(st);
      for(unsigned i=0;i<st->getNumElements();i++){
        Value*e=B.CreateCall(fExtract,{s,c32(i)});
        Type*et=st->getElementType(i); if(et->isPointerTy()) e=nullp();
        storeShadow(B,B.CreateConstGEP1_64(I8,ptr,L->getElementOffset(i)),et,e);} }
    else { if(!isNull(s)) unsup(B,"store-type",s); B.CreateCall(fClear,{ptr,ConstantInt::get(I64,sz)}); } }

  void handleCall(CallBase*CB){
    IRBuilder<> B(CB);
    if(CB->isInlineAsm()) return;
    Function *callee=dyn_cast<Function>(CB->getCalledOperand()->stripPointerCasts());
    auto setAfter=[&](std::function<Value*(IRBuilder<>&)> f){
      Instruction*pos;
      if(auto*inv=dyn_cast<InvokeInst>(CB)){ BasicBlock*nb=inv->getNormalDest(); pos=&*nb->getFirstInsertionPt(); }
      else pos=CB->getNextNode();
      IRBuilder<> B2(pos); Value*v=f(B2); if(v) S[CB]=v; };
    if(callee&&callee->isIntrinsic()){ handleIntrinsic(cast<CallInst>(CB),callee); return; }
    std::string name=callee?callee->getName().str():std::string();
    if(callee&&name.rfind("__sym_",0)==0) return;
    if(callee&&callee->isDeclaration()&&MATH.count(name)&&CB->getType()->isDoubleTy()){
      Value*a=CB->getArgOperand(0),*b=CB->arg_size()>1?CB->getArgOperand(1):nullptr;
      Value*sa=sh(a),*sb=b?sh(b):nullp();
      if(!isNull(sa)||!isNull(sb))
        S[CB]=B.CreateCall(fMath,{c32(MATH.at(name)),toD(B,a),sa,b?toD(B,b):ConstantFP::get(D,0),sb});
      return; }
    bool decl=callee&&callee->isDeclaration();
    bool symapi=decl&&(name.rfind("sym_",0)==0||name.rfind("__kmpc_",0)==0||name.rfind("omp_",0)==0);
    if(decl&&!symapi){
      bool safe=SAFE.count(name);
      for(unsigned i=0;i<CB->arg_size();i++){
        Value*a=CB->getArgOperand(i); Value*s=sh(a); Type*t=a->getType();
        if(isInt(t)){ if(isNull(s)) continue; Value*r=B.CreateCall(fConc,{toI64(B,a),s,c32(bits(t))}); CB->setArgOperand(i,B.CreateTrunc(r,t)); }
        else if(safe) continue;
        else if(isFp(t)){ if(isNull(s)) continue; Value*r=B.CreateCall(fExtFp,{nm(name),toD(B,a),s}); if(t->isDoubleTy()) CB->setArgOperand(i,r); }
        else if(t->isPointerTy()&&!isa<Constant>(a)) B.CreateCall(fExtPtr,{nm(name),a});
        else unsup(B,"ext-arg "+name,s);
      }
      return; }
    // possibly instrumented callee: pass shadows
    unsigned n=CB->arg_size(); if(n>60) n=60;
    for(unsigned i=0;i<n;i++){
      Value*a=CB->getArgOperand(i),*s=sh(a);
      if(CB->isByValArgument(i)) s=a;
      B.CreateStore(s,B.CreateConstGEP2_64(ArrayType::get(P,64),gArgs,0,i));
    }
    Value*cv=CB->getCalledOperand();
    B.CreateStore(cv,gCallee);
    Type*rt=CB->getType();
    bool want=!rt->isVoidTy()&&!rt->isPointerTy();
    if(!callee||symapi) // indirect: after return make sure an uninstrumented callee did not swallow symbolic args
      setAfter([&](IRBuilder<>&B2)->Value*{ if(!symapi) B2.CreateCall(fCallU,{cv}); return want?(Value*)B2.CreateCall(fGetRet,{cv}):nullptr; });
    else if(want) setAfter([&](IRBuilder<>&B2)->Value*{ return B2.CreateCall(fGetRet,{cv}); });
  }

  void handleIntrinsic(CallInst*CI,Function*f){
    IRBuilder<> B(CI); IRBuilder<> A(CI->getNextNode());
    auto id=f->getIntrinsicID();
    auto m1=[&](int op){ Value*a=CI->getArgOperand(0); Value*s=sh(a); if(!isNull(s)) S[CI]=B.CreateCall(fMath,{c32(op),toD(B,a),s,ConstantFP::get(D,0),nullp()}); };
    auto m2=[&](int op){ Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1); Value*s=sh(a),*s2=sh(b);
      if(!isNull(s)||!isNull(s2)) S[CI]=B.CreateCall(fMath,{c32(op),toD(B,a),s,toD(B,b),s2}); };
    auto i2=[&](int op){ Value*a=CI->getArgOperand(0); Value*b=CI->arg_size()>1?CI->getArgOperand(1):ConstantInt::get(I64,0);
      Value*s=sh(a),*s2=sh(b); if(isNull(s)&&isNull(s2)) return;
      if(!isInt(a->getType())){ unsup(B,"intr-width",s); return; }
      S[CI]=B.CreateCall(fIntr,{c32(op),c32(bits(a->getType())),toI64(B,a),s,toI64(B,b),s2}); };
    switch(id){
      case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:{
        concOperand(CI,2);
        Value*n=A.CreateZExtOrTrunc(CI->getArgOperand(2),I64);
        A.CreateCall(fMemcpy,{CI->getArgOperand(0),CI->getArgOperand(1),n}); return; }
      case Intrinsic::memset: case Intrinsic::memset_inline:{
        concOperand(CI,2); Value*v=CI->getArgOperand(1);
        A.CreateCall(fMemset,{CI->getArgOperand(0),v,sh(v),A.CreateZExtOrTrunc(CI->getArgOperand(2),I64)}); return; }
      case Intrinsic::sin: m1(1); return; case Intrinsic::cos: m1(2); return; case Intrinsic::exp: m1(3); return;
      case Intrinsic::sqrt: m1(4); return; case Intrinsic::fabs: m1(5); return; case Intrinsic::log: m1(6); return;
      case Intrinsic::floor: m1(14); return; case Intrinsic::ceil: m1(15); return; case Intrinsic::round: m1(16); return; case Intrinsic::trunc: m1(17); return;
      case Intrinsic::rint: case Intrinsic::nearbyint: m1(16); return;
      case Intrinsic::pow: m2(32); return; case Intrinsic::minnum: m2(36); return; case Intrinsic::maxnum: m2(37); return;
      case Intrinsic::copysign: m2(38); return;
      case Intrinsic::powi: { Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1); concOperand(CI,1); b=CI->getArgOperand(1);
        if(!isNull(sh(a))) S[CI]=B.CreateCall(fMath,{c32(32),toD(B,a),sh(a),B.CreateSIToFP(b,D),nullp()}); return; }
      case Intrinsic::fmuladd: case Intrinsic::fma:{
        Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1),*c=CI->getArgOperand(2);
        Value*t=B.CreateCall(fFbin,{c32(2),toD(B,a),sh(a),toD(B,b),sh(b)});
        Value*p=B.CreateFMul(toD(B,a),toD(B,b));
        S[CI]=B.CreateCall(fFbin,{c32(0),p,t,toD(B,c),sh(c)}); return; }
      case Intrinsic::is_fpclass:{ Value*a=CI->getArgOperand(0); if(!isNull(sh(a))) unsup(B,"is_fpclass",sh(a)); return; }
      case Intrinsic::umin: i2(1); return; case Intrinsic::umax: i2(2); return; case Intrinsic::smin: i2(3); return; case Intrinsic::smax: i2(4); return;
      case Intrinsic::abs: i2(5); return; case Intrinsic::bswap: i2(6); return; case Intrinsic::ctpop: i2(7); return;
      case Intrinsic::ctlz: i2(8); return; case Intrinsic::cttz: i2(9); return;
      case Intrinsic::usub_sat: i2(10); return; case Intrinsic::uadd_sat: i2(11); return;
      case Intrinsic::fshl: case Intrinsic::fshr: { // rotate by/with possibly symbolic: only support concrete amount
        Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1); if(isNull(sh(a))&&isNull(sh(b))&&isNull(sh(CI->getArgOperand(2)))) return;
        concOperand(CI,2); unsigned w=bits(a->getType());
        Value*amt=B.CreateURem(toI64(B,CI->getArgOperand(2)),ConstantInt::get(I64,w));
        Value*inv=B.CreateSub(ConstantInt::get(I64,w),amt);
        bool l=id==Intrinsic::fshl;
        Value*x=B.CreateCall(fIntr,{c32(12),c32(w),toI64(B,a),sh(a),l?amt:inv,nullp()});
        Value*y=B.CreateCall(fIntr,{c32(13),c32(w),toI64(B,b),sh(b),l?inv:amt,nullp()});
        S[CI]=B.CreateCall(fIntr,{c32(14),c32(w),ConstantInt::get(I64,0),x,ConstantInt::get(I64,0),y});
        return; }
      case Intrinsic::sadd_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::ssub_with_overflow:
      case Intrinsic::usub_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::umul_with_overflow:{
        int op= id==Intrinsic::sadd_with_overflow?0: id==Intrinsic::uadd_with_overflow?1: id==Intrinsic::ssub_with_overflow?2:
                id==Intrinsic::usub_with_overflow?3: id==Intrinsic::smul_with_overflow?4:5;
        Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1); if(isNull(sh(a))&&isNull(sh(b))) return;
        if(!isInt(a->getType())){ unsup(B,"ovf-width",sh(a)); return; }
        S[CI]=B.CreateCall(fOvf,{c32(op),c32(bits(a->getType())),toI64(B,a),sh(a),toI64(B,b),sh(b)}); return; }
      case Intrinsic::expect: case Intrinsic::ssa_copy: case Intrinsic::launder_invariant_group: S[CI]=sh(CI->getArgOperand(0)); return;
      case Intrinsic::is_constant: case Intrinsic::objectsize: return;
      default:
        if(isInt(CI->getType())||isFp(CI->getType()))
          for(auto&a:CI->args()) if(!isNull(sh(a))) unsup(B,"intrinsic "+f->getName().str(),sh(a));
        return;
    }
  }

  void visit(Instruction*I){
    IRBuilder<> B(I);
    Type*T=I->getType();
    if(auto*bo=dyn_cast<BinaryOperator>(I)){
      Value*a=bo->getOperand(0),*b=bo->getOperand(1),*sa=sh(a),*sb=sh(b);
      if(isNull(sa)&&isNull(sb)) return;
      if(isFp(T)){ int op; switch(bo->getOpcode()){case Instruction::FAdd:op=0;break;case Instruction::FSub:op=1;break;case Instruction::FMul:op=2;break;case Instruction::FDiv:op=3;break;default:op=4;}
        S[I]=B.CreateCall(fFbin,{c32(op),toD(B,a),sa,toD(B,b),sb}); return; }
      if(!isInt(T)){ unsup(B,"binop-type",isNull(sa)?sb:sa); if(!isNull(sa)&&!isNull(sb)) unsup(B,"binop-type",sb); return; }
      int op; bool div=false;
      switch(bo->getOpcode()){
        case Instruction::Add:op=0;break;case Instruction::Sub:op=1;break;case Instruction::Mul:op=2;break;
        case Instruction::UDiv:op=3;div=true;break;case Instruction::SDiv:op=4;div=true;break;case Instruction::URem:op=5;div=true;break;case Instruction::SRem:op=6;div=true;break;
        case Instruction::Shl:op=7;break;case Instruction::LShr:op=8;break;case Instruction::AShr:op=9;break;
        case Instruction::And:op=10;break;case Instruction::Or:op=11;break;case Instruction::Xor:op=12;break;default:op=99;}
      unsigned w=bits(T);
      S[I]=B.CreateCall(fBin,{c32(op),c32(w),toI64(B,a),sa,toI64(B,b),sb});
      if(div){ // make the concrete operation harmless
        Value*gb=B.CreateCall(fDiv,{toI64(B,b),sb,c32(w),c32(1)});
        Value*ga=B.CreateCall(fDiv,{toI64(B,a),sa,c32(w),c32(0)});
        I->setOperand(1,B.CreateTrunc(gb,T)); I->setOperand(0,B.CreateTrunc(ga,T)); }
      return; }
    if(auto*u=dyn_cast<UnaryOperator>(I)){ if(u->getOpcode()==Instruction::FNeg){ Value*s=sh(u->getOperand(0)); if(!isNull(s)) S[I]=B.CreateCall(fFneg,{s}); } return; }
    if(auto*ic=dyn_cast<ICmpInst>(I)){
      Value*a=ic->getOperand(0),*b=ic->getOperand(1),*sa=sh(a),*sb=sh(b);
      if(isNull(sa)&&isNull(sb)) return;
      if(!isInt(a->getType())){ unsup(B,"icmp-type",isNull(sa)?sb:sa); return; }
      S[I]=B.CreateCall(fIcmp,{c32(ic->getPredicate()),c32(bits(a->getType())),toI64(B,a),sa,toI64(B,b),sb}); return; }
    if(auto*fc=dyn_cast<FCmpInst>(I)){
      Value*a=fc->getOperand(0),*b=fc->getOperand(1),*sa=sh(a),*sb=sh(b);
      if(isNull(sa)&&isNull(sb)) return;
      if(!isFp(a->getType())){ unsup(B,"fcmp-type",isNull(sa)?sb:sa); return; }
      S[I]=B.CreateCall(fFcmp,{c32(fc->getPredicate()),toD(B,a),sa,toD(B,b),sb}); return; }
    if(auto*ci=dyn_cast<CastInst>(I)){
      Value*a=ci->getOperand(0),*s=sh(a); Type*ST=a->getType(); if(isNull(s)) return;
      switch(ci->getOpcode()){
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt:
          if(!isInt(ST)||!isInt(T)){ unsup(B,"cast-width",s); return; }
          S[I]=B.CreateCall(fCast,{c32(ci->getOpcode()==Instruction::Trunc?0:ci->getOpcode()==Instruction::ZExt?1:2),c32(bits(ST)),c32(bits(T)),s}); return;
        case Instruction::FPExt: case Instruction::FPTrunc: S[I]=s; return;
        case Instruction::BitCast:
          if(isFp(T)&&isInt(ST)) S[I]=B.CreateCall(fCast,{c32(3),c32(bits(ST)),c32(T->getPrimitiveSizeInBits()),s});
          else if(isInt(T)&&isFp(ST)) S[I]=B.CreateCall(fCast,{c32(4),c32(ST->getPrimitiveSizeInBits()),c32(bits(T)),s});
          else unsup(B,"bitcast",s); return;
        case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::IntToPtr: concOperand(I,0); return;
        case Instruction::FPToSI: case Instruction::FPToUI:{
          IRBuilder<> A(I->getNextNode());
          if(!isInt(T)){ unsup(B,"fptoi",s); return; }
          // decide the integer value; the concrete conversion result is used for concrete input
          Value*r=A.CreateCall(fFptoi,{A.CreateSExt(I,I64),s,c32(bits(T))});
          Value*t=A.CreateTrunc(r,T);
          I->replaceUsesWithIf(t,[&](Use&u){ auto*ui=dyn_cast<Instruction>(u.getUser()); return ui!=cast<Instruction>(r) && !(isa<SExtInst>(ui)&&ui->getNextNode()==cast<Instruction>(r)); });
          return; }
        default: return; } }
    if(auto*si=dyn_cast<SelectInst>(I)){
      Value*c=si->getCondition(),*sc=sh(c),*a=si->getTrueValue(),*b=si->getFalseValue();
      if(!c->getType()->isIntegerTy(1)){ unsup(B,"vselect",sc); return; }
      if(isInt(T)){ if(isNull(sc)&&isNull(sh(a))&&isNull(sh(b))) return;
        S[I]=B.CreateCall(fSel,{c,sc,c32(bits(T)),toI64(B,a),sh(a),toI64(B,b),sh(b)}); return; }
      if(isFp(T)){ if(isNull(sc)&&isNull(sh(a))&&isNull(sh(b))) return;
        S[I]=B.CreateCall(fFsel,{c,sc,toD(B,a),sh(a),toD(B,b),sh(b)}); return; }
      Value*nc=c; if(!isNull(sc)){ nc=B.CreateCall(fBranch,{c,sc}); si->setCondition(nc); }
      if(!T->isPointerTy()) S[I]=B.CreateSelect(nc,sh(a),sh(b));
      return; }
    if(auto*gep=dyn_cast<GetElementPtrInst>(I)){
      // a table lookup: one variable index, used by one integer load only
      if(gep->hasOneUse()) if(auto*li=dyn_cast<LoadInst>(*gep->user_begin())) if(li->getParent()==gep->getParent()&&isInt(li->getType())&&bits(li->getType())%8==0&&bits(li->getType())<=32&&!gep->getType()->isVectorTy()){
        MapVector<Value*,APInt> vo; APInt co(64,0); unsigned op=0; for(unsigned i=1;i<gep->getNumOperands();i++) if(!isa<Constant>(gep->getOperand(i))) op=op?99:i;
        if(op&&op!=99&&gep->collectOffset(*DL,64,vo,co)&&vo.size()==1&&isInt(gep->getOperand(op)->getType())){ Value*ix=gep->getOperand(op); Value*sx=sh(ix);
          if(!isNull(sx)){ Value*b0=B.CreateConstGEP1_64(I8,gep->getPointerOperand(),co.getSExtValue()); Value*t=B.CreateCall(fTab,{b0,sx,c32(bits(ix->getType())),ConstantInt::get(I64,vo.begin()->second.getSExtValue()),c32(bits(li->getType())/8)});
            Value*is=B.CreateIsNotNull(t); Value*keep=B.CreateSelect(is,nullp(),sx); Value*iz=B.CreateSelect(is,ConstantInt::get(ix->getType(),0),ix);
            Value*r=B.CreateCall(fConc,{toI64(B,iz),keep,c32(bits(ix->getType()))}); gep->setOperand(op,B.CreateTrunc(r,ix->getType())); tabs[li]=t; return; } } }
      for(unsigned i=1;i<gep->getNumOperands();i++) concOperand(gep,i); return; }
    if(auto*li=dyn_cast<LoadInst>(I)){
      B.CreateCall(fAcc,{li->getPointerOperand(),ConstantInt::get(I64,DL->getTypeStoreSize(T)),c32(0)});
      if(isInt(T)||isFp(T)||isa<StructType>(T)) { S[I]=loadShadow(B,li->getPointerOperand(),T);
        if(tabs.count(li)){ Value*t=tabs[li]; S[I]=isNull(S[I])?t:B.CreateSelect(B.CreateIsNotNull(t),t,S[I]); tabs.erase(li); } }
      else if(T->isVectorTy()||T->isIntegerTy()||T->isArrayTy()) B.CreateCall(fExtPtr,{nm("load-type"),li->getPointerOperand()});
      return; }
    if(auto*st=dyn_cast<StoreInst>(I)){
      Value*v=st->getValueOperand();
      B.CreateCall(fAcc,{st->getPointerOperand(),ConstantInt::get(I64,DL->getTypeStoreSize(v->getType())),c32(1)});
      storeShadow(B,st->getPointerOperand(),v->getType(),v->getType()->isPointerTy()?nullp():sh(v)); return; }
    if(auto*ai=dyn_cast<AllocaInst>(I)){
      IRBuilder<> A(I->getNextNode());
      concOperand(I,0);
      Value*n=A.CreateMul(A.CreateZExtOrTrunc(ai->getArraySize(),I64),ConstantInt::get(I64,DL->getTypeAllocSize(ai->getAllocatedType())));
      A.CreateCall(fClear,{ai,n}); return; }
    if(auto*rm=dyn_cast<AtomicRMWInst>(I)){ B.CreateCall(fExtPtr,{nm("atomicrmw"),rm->getPointerOperand()}); return; }
    if(auto*cx=dyn_cast<AtomicCmpXchgInst>(I)){ B.CreateCall(fExtPtr,{nm("cmpxchg"),cx->getPointerOperand()}); return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(I)){ Value*s=sh(ev->getAggregateOperand()); if(isNull(s)) return;
      for(unsigned ix:ev->indices()) s=B.CreateCall(fExtract,{s,c32(ix)});
      if(!T->isPointerTy()) S[I]=s; return; }
    if(auto*iv=dyn_cast<InsertValueInst>(I)){ Value*s=sh(iv->getAggregateOperand()); Value*e=sh(iv->getInsertedValueOperand());
      if(isNull(s)&&isNull(e)) return;
      if(iv->getNumIndices()!=1){ unsup(B,"insertvalue",isNull(e)?s:e); return; }
      S[I]=B.CreateCall(fInsert,{s,c32(iv->getIndices()[0]),e}); return; }
    if(isa<FreezeInst>(I)){ S[I]=sh(I->getOperand(0)); return; }
    if(isa<ExtractElementInst>(I)||isa<InsertElementInst>(I)||isa<ShuffleVectorInst>(I)){ for(auto&o:I->operands()) if(!isNull(sh(o))) unsup(B,"vector-op",sh(o)); return; }
    if(auto*br=dyn_cast<BranchInst>(I)){ if(br->isConditional()){ Value*s=sh(br->getCondition()); if(!isNull(s)) br->setCondition(B.CreateCall(fBranch,{br->getCondition(),s})); } return; }
    if(auto*sw=dyn_cast<SwitchInst>(I)){ concOperand(sw,0); return; }
    if(auto*ri=dyn_cast<ReturnInst>(I)){
      if(Value*v=ri->getReturnValue()) if(!v->getType()->isPointerTy()) B.CreateCall(fSetRet,{F,sh(v)});
      return; }
    if(auto*cb=dyn_cast<CallBase>(I)){ handleCall(cb); return; }
  }

  void instrument(Function&f){
    F=&f; S.clear(); phis.clear();
    // split critical normal edges of invokes so that post-call code has its own block
    for(auto&BB:f) if(auto*inv=dyn_cast<InvokeInst>(BB.getTerminator()))
      if(!inv->getNormalDest()->getSinglePredecessor()){
        BasicBlock*nd=inv->getNormalDest(); BasicBlock*nb=BasicBlock::Create(*C,"invnorm",&f,nd);
        BranchInst::Create(nd,nb); inv->setNormalDest(nb);
        for(auto&ph:nd->phis()){ int ix=ph.getBasicBlockIndex(&BB); ph.setIncomingBlock(ix,nb); } }
    std::vector<Instruction*> work;
    // reverse post order would be ideal; shadows of values are only needed where the def dominates the use,
    // so walk blocks in dominance-compatible (RPO) order.
    std::vector<BasicBlock*> order; { std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*,unsigned>> st;
      st.push_back({&f.getEntryBlock(),0}); seen.insert(&f.getEntryBlock());
      while(!st.empty()){ auto&[b,i]=st.back(); auto*t=b->getTerminator();
        if(i<t->getNumSuccessors()){ auto*s=t->getSuccessor(i++); if(seen.insert(s).second) st.push_back({s,0}); }
        else { order.push_back(b); st.pop_back(); } }
      std::reverse(order.begin(),order.end()); }
    for(auto*b:order) for(auto&I:*b) work.push_back(&I);
    // entry
    Instruction*ip=&*f.getEntryBlock().getFirstInsertionPt();
    { IRBuilder<> B(ip);
      Value*arr=B.CreateCall(fEnter,{&f});
      unsigned i=0;
      for(auto&a:f.args()){ if(i>=60) break;
        if(a.hasByValAttr()){ Value*src=B.CreateLoad(P,B.CreateConstGEP1_64(P,arr,i));
          B.CreateCall(fByval,{&a,src,ConstantInt::get(I64,DL->getTypeAllocSize(a.getParamByValType()))}); }
        else if(!a.getType()->isPointerTy()) S[&a]=B.CreateLoad(P,B.CreateConstGEP1_64(P,arr,i));
        i++; } }
    for(auto*I:work) if(auto*ph=dyn_cast<PHINode>(I)) if(!ph->getType()->isPointerTy()&&!ph->getType()->isVectorTy()){
      auto*sp=PHINode::Create(P,ph->getNumIncomingValues(),"",ph); S[ph]=sp; phis.push_back({ph,sp}); }
    for(auto*I:work) if(!isa<PHINode>(I)) visit(I);
    for(auto&[ph,sp]:phis) for(unsigned i=0;i<ph->getNumIncomingValues();i++) sp->addIncoming(sh(ph->getIncomingValue(i)),ph->getIncomingBlock(i));
  }

  PreservedAnalyses run(Module&m,ModuleAnalysisManager&){
    init(m);
    // redirect externals that have an instrumented model symm_<name>
    std::vector<std::pair<Function*,Function*>> redir;
    for(auto&f:m) if(f.isDeclaration()&&!f.isIntrinsic()){ if(auto*r=m.getFunction(("symm_"+f.getName()).str())) if(!r->isDeclaration()) redir.push_back({&f,r}); }
    for(auto&[a,b]:redir){ Function*bb=b; a->replaceUsesWithIf(bb,[bb](Use&u){ auto*i=dyn_cast<Instruction>(u.getUser()); return !i||i->getFunction()!=bb; }); } // a model may call the original
    std::vector<Function*> fs;
    for(auto&f:m) if(!f.isDeclaration()&&!f.getName().starts_with("__sym_")) fs.push_back(&f);
    for(auto*f:fs){ f->removeFnAttr(Attribute::NoReturn); // keep as is otherwise
      instrument(*f); }
    for(auto*f:fs){ f->setMemoryEffects(MemoryEffects::unknown()); f->removeFnAttr(Attribute::WillReturn); f->removeFnAttr(Attribute::NoSync); f->removeFnAttr(Attribute::NoCallback);
      for(auto&a:f->args()){ a.removeAttr(Attribute::ReadNone); a.removeAttr(Attribute::ReadOnly); a.removeAttr(Attribute::WriteOnly);} }
    for(auto&f:m) for(auto&bb:f) for(auto&I:bb) if(auto*cb=dyn_cast<CallBase>(&I)){ if(cb->getCalledFunction()&&cb->getCalledFunction()->isIntrinsic()) continue; cb->removeFnAttr(Attribute::Memory); 
        if(auto*ci=dyn_cast<CallInst>(cb)) if(ci->getTailCallKind()!=CallInst::TCK_MustTail) ci->setTailCallKind(CallInst::TCK_None); }
    if(verifyModule(m,&errs())) report_fatal_error("sympass: broken module");
    return PreservedAnalyses::none();
  }
};

// internalise everything except main, drop facet ids that must be shared with libstdc++
struct SymPrep : PassInfoMixin<SymPrep> {
  PreservedAnalyses run(Module&m,ModuleAnalysisManager&){
    // a harness wraps a function of the program by defining symd_<name>; the wrapper itself calls the original
    for(auto&f:m) if(!f.isDeclaration()&&f.getName().starts_with("symd_")) if(auto*o=m.getFunction(f.getName().substr(5))){ Function*w=&f; o->replaceUsesWithIf(w,[w](Use&u){ auto*i=dyn_cast<Instruction>(u.getUser()); return i&&i->getFunction()!=w; }); }
    for(auto&g:m.globals()){
      StringRef n=g.getName();
      if(g.isDeclaration()||n.starts_with("llvm.")) continue;
      if(n.starts_with("_ZNSt")&&n.ends_with("2idE")){ g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); g.setComdat(nullptr); continue; }
      if(n.starts_with("_ZGVNSt")&&n.ends_with("2idE")){ g.setInitializer(nullptr); g.setLinkage(GlobalValue::ExternalLinkage); g.setComdat(nullptr); continue; }
      g.setComdat(nullptr); if(!g.hasLocalLinkage()) g.setLinkage(GlobalValue::InternalLinkage); g.setDSOLocal(true); }
    for(auto&f:m){ if(f.isDeclaration()||f.isIntrinsic()) continue;
      f.setComdat(nullptr); if(f.getName()=="sym_main"||f.getName().starts_with("symx_")) continue;
      if(f.getName().starts_with("symm_")){ std::string orig=f.getName().substr(5).str(); if(m.getFunction(orig)){ f.setLinkage(GlobalValue::ExternalLinkage); continue; } }
      if(!f.hasLocalLinkage()) f.setLinkage(GlobalValue::InternalLinkage); f.setDSOLocal(true); f.setVisibility(GlobalValue::DefaultVisibility); }
    if(auto*gc=m.getGlobalVariable("llvm.global_ctors")) if(gc->hasInitializer()) if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())){
      // constructors of the instrumented module run after those of the runtime, in their old relative order
      std::vector<std::pair<uint64_t,Constant*>> v; for(auto&o:ca->operands()){ auto*e=cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(e->getOperand(0))->getZExtValue(),e}); }
      std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;});
      std::vector<Constant*> n; for(auto&[p,e]:v){ auto*st=cast<ConstantStruct>(e); std::vector<Constant*> f; for(unsigned i=0;i<st->getNumOperands();i++) f.push_back(cast<Constant>(st->getOperand(i))); f[0]=ConstantInt::get(f[0]->getType(),65535); n.push_back(ConstantStruct::get(st->getType(),f)); }
      gc->setInitializer(ConstantArray::get(ca->getType(),n)); }
    for(auto&a:m.aliases()){ if(!a.hasLocalLinkage()) a.setLinkage(GlobalValue::InternalLinkage); }
    return PreservedAnalyses::none();
  }
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"SymPass","1",[](PassBuilder&PB){
    PB.registerPipelineParsingCallback([](StringRef n,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){
      if(n=="sympass"){ MPM.addPass(SymPass()); return true; }
      if(n=="symprep"){ MPM.addPass(SymPrep()); return true; }
      return false; }); }};
}
