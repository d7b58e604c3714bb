// symex: symbolic executor for LLVM IR.  A symbolic branch forks a process while workers are free and otherwise
// pushes an undo checkpoint (copy-on-write log of memory, frames, solver scope) that is resumed when the path ends.
// z3 (QF_BV, incremental) is the deciding solver.  See DESIGN.md.
#include "expr.h"
#include <llvm-c/Core.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <map>
#include <set>
#include <unordered_map>
#include <string>
#include <vector>
#include <atomic>
#include <memory>
#include <cmath>
#include <cstdarg>
#include <cerrno>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
static void show1(Expr*e,int d,std::string&o){ static const char*N[]={"","","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>u",">>s","++","","","","","mulhi","==","<u","<=u","<s","<=s"};
  if(o.size()>1400) return; char b[64]; if(isK(e)){ snprintf(b,64,"%lld:%d",(long long)sx(e->c,e->w),e->w); o+=b; return; } if(e->op==X_VAR){ snprintf(b,64,"v%llu:%d",(unsigned long long)e->c,e->w); o+=b; return; }
  if(d<=0){ o+="..."; return; } switch(e->op){ case X_EXTRACT: snprintf(b,64,"[%d:%d](",(int)(e->c+e->w-1),(int)e->c); o+=b; show1(e->a,d-1,o); o+=")"; return; case X_ZEXT: case X_SEXT: snprintf(b,64,"%c%d(",e->op==X_ZEXT?'z':'s',e->w); o+=b; show1(e->a,d-1,o); o+=")"; return;
  case X_ITE: o+="("; show1(e->a,d-1,o); o+=" ? "; show1(e->b,d-1,o); o+=" : "; show1(e->d,d-1,o); o+=")"; return; default: o+="("; show1(e->a,d-1,o); o+=" "; o+=N[e->op]; o+=" "; show1(e->b,d-1,o); o+=")"; } }
static const char* show(Expr*e){ static std::string s; s.clear(); show1(e,24,s); return s.c_str(); }


using std::string; using std::vector;

// ------------------------------------------------------------------ memory
static const u64 ARENA=0x100000000000ull, ASIZE=1ull<<32, SHOFF=0x100000000000ull, SYMB=0x400000000000ull;
static const u64 FNBASE=0x500000000000ull, BBBASE=0x510000000000ull;
static const u64 GLOB=ARENA+0x10000, STK=ARENA+(256ull<<20), STKEND=STK+(256ull<<20), HEAP=STKEND;
static u64 globp=GLOB, stkp=STK;
#define ONES 0x0101010101010101ull
static inline u8* SH(u64 a){ return (u8*)(a+SHOFF); }
static inline u64* SY(u64 a){ return (u64*)(SYMB+(a-ARENA)*8); }
static inline bool inA(u64 a,u64 n){ return a-ARENA<ASIZE && n<=ASIZE-(a-ARENA); }
static inline bool validr(u64 a,u64 n){ if(!inA(a,n)) return false; u8*s=SH(a); u64 i=0; for(;i+8<=n;i+=8){ u64 v; memcpy(&v,s+i,8); // any zero byte?
    if(((v-ONES)&~v&0x8080808080808080ull)) return false; } for(;i<n;i++) if(!s[i]) return false; return true; }
static inline bool anysym(u64 a,u64 n){ u8*s=SH(a); u64 i=0; for(;i+8<=n;i+=8){ u64 v; memcpy(&v,s+i,8); if(v&0x0202020202020202ull) return true; } for(;i<n;i++) if(s[i]&2) return true; return false; }

// undo log: chunks of 512 bytes are saved the first time they change after a checkpoint
static u32*pg=nullptr; static u32 curEp=0; static void saveChunk(u64 k);
static inline void touch1(u64 a){ u64 k=(a-ARENA)>>9; if(__builtin_expect(pg[k]!=curEp,0)) saveChunk(k); }
static inline void touchs(u64 a,int n){ touch1(a); if(__builtin_expect((a&511)+n>512,0)) touch1(a+n-1); }
static inline void touch(u64 a,u64 n){ if(!n) return; for(u64 x=a&~511ull;x<a+n;x+=512) touch1(x); }

struct Val { u64 c; Expr*e; };
static inline Val C(u64 c){ return Val{c,nullptr}; }
static inline Val S(Expr*e){ if(isK(e)) return Val{e->c,nullptr}; return Val{0,e}; }
static inline Expr* X(const Val&v,int w){ return v.e? v.e : K(w,v.c); }

// ------------------------------------------------------------------ IR
enum Op : u8 { Q_ADD,Q_SUB,Q_MUL,Q_UDIV,Q_SDIV,Q_UREM,Q_SREM,Q_AND,Q_OR,Q_XOR,Q_SHL,Q_LSHR,Q_ASHR,
  Q_EQ,Q_NE,Q_ULT,Q_ULE,Q_SLT,Q_SLE,
  Q_TRUNC,Q_ZEXT,Q_SEXT,Q_MOV,Q_SEL,Q_LOAD,Q_STORE,Q_GEP,Q_ALLOCA,
  Q_FADD,Q_FSUB,Q_FMUL,Q_FDIV,Q_FREM,Q_FNEG,Q_FCMP,Q_SITOFP,Q_UITOFP,Q_FPTOSI,Q_FPTOUI,Q_FPEXT,Q_FPTRUNC,
  Q_CALL,Q_ICALL,Q_RET,Q_BR,Q_CBR,Q_SWITCH,Q_IBR,Q_UNREACH,Q_INTR };
struct Insn { Op op; u8 w,w2,n; int d,a,b,c; u64 imm; u64 mask; };
struct Edge { int tgt; int phi,np; };
struct GepT { int v; u8 w; u64 sc; };
struct Func;
struct CallInfo { Func*f; int callee; vector<std::pair<int,u8>> args; int nret; };
struct Sw { int v; vector<u64> k; vector<int> e; int def; };
struct Ibr { std::unordered_map<u64,int> m; };
struct Func { string name; LLVMValueRef lv=nullptr; u64 addr=0; bool def=false,pre=false,vararg=false; int id=0;
  int nslot=0,nargs=0; vector<u8> argw; vector<Insn> code; vector<Val> cst; vector<Edge> edges; vector<std::pair<int,int>> phis;
  vector<CallInfo> calls; vector<Sw> sws; vector<Ibr> ibrs; vector<vector<GepT>> geps; vector<vector<int>> rets; vector<int> bbstart; int native=-1; };
static vector<Func*> funcs; static std::unordered_map<string,Func*> fbyname; static std::unordered_map<LLVMValueRef,Func*> fbyval;
static std::unordered_map<LLVMValueRef,u64> gaddr; static std::unordered_map<string,u64> gbyname; static std::unordered_map<LLVMBasicBlockRef,u64> baddr; static u64 nbaddr=0;
static LLVMModuleRef M; static LLVMTargetDataRef TD;

[[noreturn]] static void die(const char*f,...){ va_list a; va_start(a,f); vfprintf(stderr,f,a); va_end(a); fprintf(stderr,"\n"); _exit(70); }

static int bitsOf(LLVMTypeRef t){ switch(LLVMGetTypeKind(t)){ case LLVMIntegerTypeKind: return LLVMGetIntTypeWidth(t); case LLVMPointerTypeKind: return 64; case LLVMDoubleTypeKind: return 64; case LLVMFloatTypeKind: return 32; default: return -1; } }
static void flat(LLVMTypeRef t,vector<int>&ws,vector<u64>&offs,u64 base){
  int k=LLVMGetTypeKind(t);
  if(k==LLVMStructTypeKind){ unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) flat(LLVMStructGetTypeAtIndex(t,i),ws,offs,base+LLVMOffsetOfElement(TD,t,i)); return; }
  if(k==LLVMArrayTypeKind){ u64 n=LLVMGetArrayLength2(t); LLVMTypeRef e=LLVMGetElementType(t); u64 s=LLVMABISizeOfType(TD,e); for(u64 i=0;i<n;i++) flat(e,ws,offs,base+i*s); return; }
  int b=bitsOf(t); ws.push_back(b); offs.push_back(base); }
static int nflat(LLVMTypeRef t){ if(LLVMGetTypeKind(t)==LLVMVoidTypeKind) return 0; vector<int> w; vector<u64> o; flat(t,w,o,0); return w.size(); }
static int flatIndex(LLVMTypeRef t,unsigned n,const unsigned*idx,LLVMTypeRef*sub){ int off=0; for(unsigned i=0;i<n;i++){ if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ for(unsigned j=0;j<idx[i];j++) off+=nflat(LLVMStructGetTypeAtIndex(t,j)); t=LLVMStructGetTypeAtIndex(t,idx[i]); } else { LLVMTypeRef e=LLVMGetElementType(t); off+=idx[i]*nflat(e); t=e; } } *sub=t; return off; }

static u64 constBits(LLVMValueRef v);
static u64 gepConst(LLVMValueRef v){ // constant-expression gep
  u64 p=constBits(LLVMGetOperand(v,0)); LLVMTypeRef t=LLVMGetGEPSourceElementType(v); unsigned n=LLVMGetNumOperands(v);
  for(unsigned i=1;i<n;i++){ i64 ix=LLVMConstIntGetSExtValue(LLVMGetOperand(v,i));
    if(i==1) p+=ix*(i64)LLVMABISizeOfType(TD,t);
    else if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ p+=LLVMOffsetOfElement(TD,t,ix); t=LLVMStructGetTypeAtIndex(t,ix); }
    else { t=LLVMGetElementType(t); p+=ix*(i64)LLVMABISizeOfType(TD,t); } }
  return p; }
static Func* getFunc(LLVMValueRef v);
static u64 bbAddr(LLVMBasicBlockRef b){ auto it=baddr.find(b); if(it!=baddr.end()) return it->second; u64 a=BBBASE+16*(nbaddr++); baddr[b]=a; return a; }
static u64 constBits(LLVMValueRef v){
  if(LLVMIsAConstantInt(v)){ if(LLVMGetIntTypeWidth(LLVMTypeOf(v))>64) die("wide const"); return LLVMConstIntGetZExtValue(v); }
  if(LLVMIsAConstantPointerNull(v)||LLVMIsUndef(v)||LLVMIsPoison(v)) return 0;
  if(LLVMIsAFunction(v)) return getFunc(v)->addr;
  if(LLVMIsAGlobalVariable(v)) return gaddr.at(v);
  if(LLVMIsAGlobalAlias(v)) return constBits(LLVMAliasGetAliasee(v));
  if(LLVMIsABlockAddress(v)) return bbAddr(LLVMValueAsBasicBlock(LLVMGetOperand(v,1)));
  if(LLVMIsAConstantFP(v)){ LLVMBool l; double d=LLVMConstRealGetDouble(v,&l); if(LLVMGetTypeKind(LLVMTypeOf(v))==LLVMFloatTypeKind){ float f=d; u32 u; memcpy(&u,&f,4); return u; } u64 u; memcpy(&u,&d,8); return u; }
  if(LLVMIsAConstantExpr(v)){ switch(LLVMGetConstOpcode(v)){
    case LLVMGetElementPtr: return gepConst(v);
    case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: case LLVMAddrSpaceCast: return constBits(LLVMGetOperand(v,0));
    case LLVMTrunc: return constBits(LLVMGetOperand(v,0))&maskw(bitsOf(LLVMTypeOf(v)));
    case LLVMAdd: return constBits(LLVMGetOperand(v,0))+constBits(LLVMGetOperand(v,1));
    case LLVMSub: return constBits(LLVMGetOperand(v,0))-constBits(LLVMGetOperand(v,1));
    default: die("constexpr opcode %d",LLVMGetConstOpcode(v)); } }
  char*s=LLVMPrintValueToString(v); die("const? %s",s); }
static void constFlat(LLVMValueRef v,vector<u64>&out){
  LLVMTypeRef t=LLVMTypeOf(v); int k=LLVMGetTypeKind(t);
  if(k==LLVMStructTypeKind||k==LLVMArrayTypeKind){ unsigned n= k==LLVMStructTypeKind? LLVMCountStructElementTypes(t):LLVMGetArrayLength2(t);
    if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsAConstantAggregateZero(v)){ int m=nflat(t); while(m--) out.push_back(0); return; }
    for(unsigned i=0;i<n;i++) constFlat(LLVMGetAggregateElement(v,i),out); return; }
  out.push_back(constBits(v)); }
static void initGlobal(LLVMValueRef v,u64 a){
  LLVMTypeRef t=LLVMTypeOf(v);
  if(LLVMIsUndef(v)||LLVMIsPoison(v)||LLVMIsAConstantAggregateZero(v)||LLVMIsAConstantPointerNull(v)) return;
  int k=LLVMGetTypeKind(t);
  if(k==LLVMArrayTypeKind){ if(LLVMIsConstantString(v)){ size_t n; const char*s=LLVMGetAsString(v,&n); memcpy((void*)a,s,n); return; }
    LLVMTypeRef e=LLVMGetElementType(t); u64 s=LLVMABISizeOfType(TD,e), n=LLVMGetArrayLength2(t); for(u64 i=0;i<n;i++) initGlobal(LLVMGetAggregateElement(v,i),a+i*s); return; }
  if(k==LLVMStructTypeKind){ unsigned n=LLVMCountStructElementTypes(t); for(unsigned i=0;i<n;i++) initGlobal(LLVMGetAggregateElement(v,i),a+LLVMOffsetOfElement(TD,t,i)); return; }
  u64 x=constBits(v); memcpy((void*)a,&x,LLVMStoreSizeOfType(TD,t)); }

// ------------------------------------------------------------------ shared statistics
struct Site { char name[96]; std::atomic<u64> n; };
struct Shared {
  std::atomic<int> tokens; std::atomic<u64> paths,killed,incomplete,queries,qsat,qunsat,qunk,qdom,solverns,insns,forks,checks,checksym,viols,samples,obs,procs,maxdepth,crash,fresh;
  std::atomic<int> stop; std::atomic<int> lock; int nsite,nlabel,nreach; Site site[512]; Site lab[512]; Site reach[512]; char inc[16][200]; int ninc; u8 touched[8192]; };
static Shared*G; static bool ownToken=false;
static void lockG(){ int z=0; while(!G->lock.compare_exchange_weak(z,1)){ z=0; usleep(10);} }
static void unlockG(){ G->lock=0; }
static void bump(Site*t,int&n,const char*s){ lockG(); for(int i=0;i<n;i++) if(!strncmp(t[i].name,s,95)){ t[i].n++; unlockG(); return; } if(n<512){ strncpy(t[n].name,s,95); t[n].n=1; n++; } unlockG(); }
static string outdir="."; static double deadline=1e18; static u64 maxsteps=4000000000ull, steps=0; static int jobs=8; static u32 nsamples=8; static u64 seed=1; static int verbose=0; static u64 maxviol=6; static u64 rlim=0;
static double now(){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

// ------------------------------------------------------------------ solver
static Z3_solver SV; static vector<Expr*> pathc; static std::unordered_map<Expr*,bool> known; static size_t hdone=0;
struct KLog { Expr*e; signed char old; }; static vector<KLog> klog; static bool klogging=false;
static void setKnown(Expr*e,bool v){ auto r=known.emplace(e,v); if(r.second){ if(klogging) klog.push_back({e,-1}); } else if(r.first->second!=v){ if(klogging) klog.push_back({e,(signed char)r.first->second}); r.first->second=v; } }
 static u64 localinsn=0; static int depth=0;
static vector<u8> varsign;
static int z3bad=0; static void z3err(Z3_context c,Z3_error_code e){ z3bad=1; if(e==Z3_EXCEPTION) return; fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); _exit(71); }
static void incomplete(const char*why){ G->incomplete++; lockG(); bool seen=false; for(int i=0;i<G->ninc;i++) if(!strncmp(G->inc[i],why,199)) seen=true; if(!seen&&G->ninc<16) strncpy(G->inc[G->ninc++],why,199); unlockG(); }
struct Frame;
static Expr* simpB(Expr*c,int d=0){ if(isK(c)) return c; auto it=known.find(c); if(it!=known.end()) return K(1,it->second); if(d>8||!(c->op==X_AND||c->op==X_OR||c->op==X_XOR)) return c;
  Expr*a=simpB(c->a,d+1),*b=simpB(c->b,d+1); return a==c->a&&b==c->b? c : mkBin(c->op,a,b); }
static Expr* kIte(Expr*c,Expr*a,Expr*b){ return mkIte(simpB(c),a,b); }
static string whereami();
static int extsolve(Expr*f,vector<u64>&model); static Expr*curq=nullptr;
static Z3_lbool query(Z3_solver sv,size_t&hd,Expr*f,vector<u64>&model){
  Z3_ast a=lowB(f); 
  Z3_ast p=Z3_mk_fresh_const(Z,"p",Z3_mk_bool_sort(Z)); Z3_inc_ref(Z,p);
  Z3_ast imp=Z3_mk_implies(Z,p,a); Z3_inc_ref(Z,imp); Z3_solver_assert(Z,sv,imp);
  for(;hd<hards.size();hd++) Z3_solver_assert(Z,sv,Z3_mk_implies(Z,hards[hd].guard,hards[hd].def));
  auto getm=[&]{ Z3_model m=Z3_solver_get_model(Z,sv); Z3_model_inc_ref(Z,m); model.resize(zvars.size());
    for(size_t i=0;i<zvars.size();i++){ Z3_ast v; u64 u=0; if(Z3_model_eval(Z,m,zvars[i],true,&v)) Z3_get_numeral_uint64(Z,v,&u); model[i]=u; }
    Z3_model_dec_ref(Z,m); };
  Z3_lbool r=Z3_solver_check_assumptions(Z,sv,1,&p);
  if(r==Z3_L_TRUE) getm();
  if(r!=Z3_L_FALSE&&!hards.empty()){ bool good=false;
    if(r==Z3_L_TRUE){ vector<u64> save=witness; witness=model; evepoch++; good=evalx(f); for(size_t i=0;good&&i<pathc.size();i++) good=evalx(pathc[i]); witness=save; evepoch++; }
    if(!good){ vector<Z3_ast> as{p}; for(auto&h:hards) as.push_back(h.guard); r=Z3_solver_check_assumptions(Z,sv,as.size(),as.data()); if(r==Z3_L_TRUE) getm(); } }
  Z3_ast np=Z3_mk_not(Z,p); Z3_inc_ref(Z,np); Z3_solver_assert(Z,sv,np); Z3_dec_ref(Z,np); Z3_dec_ref(Z,imp); Z3_dec_ref(Z,p); 
  return r; }
static bool scoped(); static void rebuildSolver(); static u64 srlim=400000; static Z3_symbol rlsym;
static u64 curRl=0, mysolver=0;
static void setRlimit(u64 n){ if(n==curRl) return; curRl=n; Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,rlsym,n); Z3_solver_set_params(Z,SV,p); Z3_params_dec_ref(Z,p); }
// ---- branch conditions over a single small variable: the set of values the path allows for it is kept explicitly
struct Dom { bool init=false,mixed=false; u64 b[16]; };
static vector<Dom> doms; struct DomU { size_t at; u64 var; Dom old; }; static vector<DomU> domlog; static size_t domN=0;
static vector<int> supc; // by expression id: 0 unknown, 1 none, 2 several, 3+v single
static int support(Expr*e){ if(e->id<supc.size()&&supc[e->id]) return supc[e->id]; int r; if(e->op==X_CONST) r=1; else if(e->op==X_VAR) r=3+(int)e->c; else { r=1; Expr*k[3]={e->a,e->b,e->d}; for(Expr*x:k) if(x){ int s=support(x); if(s==1) continue; if(r==1) r=s; else if(r!=s) r=2; if(r==2) break; } }
  if(e->id>=supc.size()) supc.resize(e->id+e->id/2+1024); supc[e->id]=r; return r; }
static void varsOf(Expr*e,vector<u64>&out){ static std::unordered_map<Expr*,int> seen; seen.clear(); vector<Expr*> st{e}; while(!st.empty()){ Expr*x=st.back(); st.pop_back(); int s=support(x); if(s==1||seen[x]++) continue; if(s>=3){ out.push_back(s-3); continue; } for(Expr*k:{x->a,x->b,x->d}) if(k) st.push_back(k); } }
static Dom& domOf(u64 v,size_t at){ if(doms.size()<=v) doms.resize(v+16); domlog.push_back({at,v,doms[v]}); Dom&d=doms[v]; if(!d.init){ d.init=true; d.mixed=false; u64 n=zvarw[v]<=10? 1ull<<zvarw[v] : 0; for(int i=0;i<16;i++) d.b[i]= n>=64u*(i+1)? ~0ull : n>64u*i? (1ull<<(n-64*i))-1 : 0; } return d; }
static void domTrunc(size_t n){ while(!domlog.empty()&&domlog.back().at>=n){ doms[domlog.back().var]=domlog.back().old; domlog.pop_back(); } if(domN>n) domN=n; }
static void domSync(){ for(;domN<pathc.size();domN++){ Expr*c=pathc[domN]; int s=support(c); if(s==1) continue;
    if(s>=3&&zvarw[s-3]<=10){ Dom&d=domOf(s-3,domN); u64 sv=witness[s-3]; for(int i=0;i<16;i++) for(u64 m=d.b[i];m;m&=m-1){ int k=__builtin_ctzll(m); witness[s-3]=i*64+k; evepoch++; if(!evalx(c)) d.b[i]&=~(1ull<<k); } witness[s-3]=sv; evepoch++; continue; }
    if(s>=3){ domOf(s-3,domN).mixed=true; continue; }
    vector<u64> vs; varsOf(c,vs); for(u64 v:vs) if(doms.size()<=v||!doms[v].mixed) domOf(v,domN).mixed=true; } }
static int domSolve(Expr*f,vector<u64>&model){ int s=support(f); if(s<3||(u64)(s-3)>=zvarw.size()||zvarw[s-3]>10) return -2; u64 v=s-3; domSync(); if(doms.size()<=v||!doms[v].init){ domOf(v,pathc.size()); }
  Dom&d=doms[v]; u64 sv=witness[v]; int r=0; u64 val=0;
  for(int i=0;i<16&&!r;i++) for(u64 m=d.b[i];m;m&=m-1){ int k=__builtin_ctzll(m); witness[v]=i*64+k; evepoch++; if(evalx(f)){ r=1; val=i*64+k; break; } }
  witness[v]=sv; evepoch++; if(!r) return 0; if(d.mixed) return -2; model=witness; model.resize(zvars.size()); model[v]=val; return 1; }
static int solveZ(Expr*f,vector<u64>&model); static void checkDeadline();
static int solve(Expr*f,vector<u64>&model){ // branch feasibility: 1 sat, 0 unsat, -1 unknown
  if(isK(f)&&!f->c) return 0;
  if(domSolve(f,model)==1){ G->qdom++; return 1; } // a value found by evaluation; that no value exists is always the solver's verdict
  return solveZ(f,model); }

// ---- sweeping: inner nodes of a large query that are equal for all inputs are merged bottom-up, so that two different
// ways of writing a long computation (a digest, say) meet step by step.  Candidates come from evaluation under random
// inputs; every merge is a solver verdict over a bounded neighbourhood with the rest of the inputs left arbitrary.
static std::unordered_map<Expr*,Expr*> swrep; static std::unordered_map<u64,vector<Expr*>> swcls; static std::unordered_map<Expr*,u64> swsig; static std::unordered_map<Expr*,int> swfail;
static size_t swtry=0,swok=0;
static size_t dagSize(Expr*f,size_t lim);
static bool swProve(Expr*x,Expr*y,int depth){
  std::unordered_map<Expr*,int> lev; vector<Expr*> cur{x,y}, all; lev[x]=lev[y]=0; all=cur;
  for(int d=0;d<depth;d++){ vector<Expr*> nx; for(Expr*e:cur){ if(e->op==X_MUL||e->op==X_MULHI||e->op==X_UDIV||e->op==X_SDIV||e->op==X_UREM||e->op==X_SREM) continue; for(Expr*k:{e->a,e->b,e->d}) if(k&&!lev.count(k)){ lev[k]=d+1; nx.push_back(k); all.push_back(k); } } cur.swap(nx); if(all.size()>400) break; }
  int maxl=0; for(Expr*e:all) maxl=std::max(maxl,lev[e]);
  struct Sv { Expr*e; Z3_ast v,b; }; vector<Sv> sv; vector<Z3_ast> tmp;
  for(Expr*e:all){ if(isK(e)||e->op==X_VAR) continue; sv.push_back({e,e->zv,e->zb}); e->zv=e->zb=nullptr; bool leaf=lev[e]>=maxl||lev[e]>=depth; for(Expr*k:{e->a,e->b,e->d}) if(k&&!lev.count(k)) leaf=true;
    if(leaf&&e!=x&&e!=y){ char n[32]; snprintf(n,32,"cut%u",e->id); Z3_ast c=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),bvsort(e->w))); e->zv=c; if(e->w==1) e->zb=keep(Z3_mk_eq(Z,c,Z3_mk_unsigned_int64(Z,1,bvsort(1)))); } }
  Z3_ast q=keep(Z3_mk_not(Z,Z3_mk_eq(Z,lowV(x),lowV(y))));
  Z3_solver s=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,s); Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,rlsym,200000); Z3_solver_set_params(Z,s,p); Z3_params_dec_ref(Z,p);
  Z3_solver_assert(Z,s,q); Z3_lbool r=Z3_solver_check(Z,s); Z3_solver_dec_ref(Z,s); Z3_dec_ref(Z,q); G->queries++; if(r==Z3_L_FALSE) G->qunsat++; else G->qsat++;
  for(auto&k:sv){ k.e->zv=k.v; k.e->zb=k.b; }
  swtry++; if(r==Z3_L_FALSE) swok++;
  return r==Z3_L_FALSE; }
static Expr* swRebuild(Expr*e,Expr*a,Expr*b,Expr*d){ switch(e->op){ case X_EXTRACT: return mkExtract(a,e->c,e->w); case X_ZEXT: return mkZext(a,e->w); case X_SEXT: return mkSext(a,e->w); case X_CONCAT: return mkConcat(a,b); case X_ITE: return mkIte(a,b,d); case X_MULHI: return mkMulHi(a,b); default: return mkBin(e->op,a,b); } }
static void swTopo(Expr*f,vector<Expr*>&out){ std::unordered_map<Expr*,char> seen; vector<Expr*> st{f}; seen[f]=1; while(!st.empty()){ Expr*e=st.back(); st.pop_back(); out.push_back(e); for(Expr*k:{e->a,e->b,e->d}) if(k&&!seen[k]){ seen[k]=1; st.push_back(k); } } std::sort(out.begin(),out.end(),[](Expr*x,Expr*y){ return x->id<y->id; }); }
static Expr* sweep(Expr*f,vector<u64>&model,bool&sat){ // an expression equal to f, or sat with a model
  sat=false; vector<Expr*> ns; swTopo(f,ns); std::unordered_map<Expr*,u64> sg; vector<u64> save=witness; static const int NS=20;
  auto simulate=[&](vector<Expr*>&v){ for(int k=0;k<NS&&!sat;k++){ u64 h=0x1234567+k; for(size_t i=0;i<witness.size();i++){ h=hmix(h,i); witness[i]= k==0? 0 : (h>>7); } evepoch++; for(Expr*e:v) sg[e]=hmix(sg[e]+k,evalx(e));
      if(v.back()==f&&evalx(f)){ bool ok=true; for(size_t i=0;ok&&i<pathc.size();i++) ok=evalx(pathc[i]); if(ok){ sat=true; model=witness; model.resize(zvars.size()); for(size_t i=0;i<model.size();i++) model[i]&=maskw(zvarw[i]); } } } witness=save; evepoch++; };
  if(witness.size()<zvars.size()) witness.resize(zvars.size()); simulate(ns); if(sat) return f;
  for(Expr*e:ns){ checkDeadline(); if(isK(e)||e->op==X_VAR||swrep.count(e)) continue; auto R=[&](Expr*k)->Expr*{ if(!k) return k; auto it=swrep.find(k); return it==swrep.end()?k:it->second; };
    Expr*n=swRebuild(e,R(e->a),R(e->b),R(e->d)); { auto it=swrep.find(n); if(it!=swrep.end()) n=it->second; }
    if(n->w>=2&&n->op!=X_ITE&&n->op!=X_CONST&&n->op!=X_VAR){ auto&cl=swcls[hmix(sg[e],e->w)]; bool in=false; for(Expr*c:cl) if(c==n) in=true;
      if(!in){ int tries=0; for(Expr*c:cl) if(c->w==n->w&&tries++<2){ if(swProve(n,c,5)){ n=c; in=true; break; } } if(!in) cl.push_back(n); } }
    swrep[e]=n; }
  auto it=swrep.find(f); return it==swrep.end()?f:it->second; }
static size_t dagSize(Expr*f,size_t lim){ static std::unordered_map<Expr*,char> seen; seen.clear(); vector<Expr*> st{f}; seen[f]=1; size_t n=0; while(!st.empty()&&n<lim){ Expr*e=st.back(); st.pop_back(); n++; for(Expr*k:{e->a,e->b,e->d}) if(k&&!seen[k]){ seen[k]=1; st.push_back(k); } } return n; }
static int solveZ(Expr*f,vector<u64>&model){ // 1 sat, 0 unsat, -1 unknown
  if(isK(f)&&!f->c) return 0;
  auto it=known.find(f); if(it!=known.end()&&!it->second) return 0;
  struct timespec t0,t1; clock_gettime(CLOCK_MONOTONIC,&t0);
  G->queries++; curq=f;
  if(dagSize(f,3000)>=3000){ bool sat; Expr*g=sweep(f,model,sat); if(sat||isK(g)){ clock_gettime(CLOCK_MONOTONIC,&t1); u64 ns=(t1.tv_sec-t0.tv_sec)*1000000000ll+(t1.tv_nsec-t0.tv_nsec); G->solverns+=ns; mysolver+=ns; curq=nullptr; if(sat){ G->qsat++; return 1; } if(!g->c){ G->qunsat++; return 0; } } else f=g; }
  setRlimit(scoped()? srlim : rlim);
  Z3_lbool r=Z3_L_UNDEF; bool skip=scoped()&&!hards.empty(); if(!skip) r=query(SV,hdone,f,model);
  if(r==Z3_L_UNDEF&&scoped()){ // hard for the incremental solver: start from scratch (an interrupted solver is not used again)
    if(!skip) rebuildSolver();
    Z3_solver s=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,s); for(Expr*e:pathc) Z3_solver_assert(Z,s,lowB(e)); size_t hd=0; r=query(s,hd,f,model); Z3_solver_dec_ref(Z,s); G->fresh++; }
  if(r==Z3_L_TRUE){ vector<u64> save=witness; witness=model; evepoch++; bool good=evalx(f); size_t i=0; for(;good&&i<pathc.size();i++) good=evalx(pathc[i]); witness=save; evepoch++;
    if(!good){ fprintf(stderr,"BAD MODEL scoped=%d hards=%zu hdone=%zu f? %zu/%zu\n",scoped(),hards.size(),hdone,i,pathc.size()); incomplete("solver model does not satisfy the query"); r=Z3_L_UNDEF; } }
  int res= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
  if(res==-1){ G->qunk++; res=extsolve(f,model); }
  clock_gettime(CLOCK_MONOTONIC,&t1); { u64 ns=(t1.tv_sec-t0.tv_sec)*1000000000ll+(t1.tv_nsec-t0.tv_nsec); G->solverns+=ns; mysolver+=ns; }
  if(verbose>1){ double dt=(t1.tv_sec-t0.tv_sec)+(t1.tv_nsec-t0.tv_nsec)*1e-9; if(dt>0.5) fprintf(stderr,"[slow query %.2fs res=%d at %s] %.900s\n",dt,res,whereami().c_str(),show(f)); }
  curq=nullptr; if(res==1) G->qsat++; else if(res==0) G->qunsat++; 
  return res; }
static int extsolve(Expr*f,vector<u64>&model){
  // portfolio fallback on "unknown": fresh solvers as external processes
  Z3_solver s=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,s); for(Expr*e:pathc) Z3_solver_assert(Z,s,lowB(e)); Z3_solver_assert(Z,s,lowB(f)); for(auto&h:hards) Z3_solver_assert(Z,s,h.def);
  char fn[512]; snprintf(fn,512,"%s/q.%d.smt2",outdir.c_str(),getpid()); FILE*o=fopen(fn,"w"); if(!o) return -1;
  fprintf(o,"(set-logic QF_BV)\n(set-option :produce-models true)\n%s\n(check-sat)\n",Z3_solver_to_string(Z,s)); 
  fprintf(o,"(get-value ("); for(size_t i=0;i<zvars.size();i++) fprintf(o,"v%zu ",i); fprintf(o,"))\n"); fclose(o); Z3_solver_dec_ref(Z,s);
  // declare any var not mentioned
  { string body; FILE*r=fopen(fn,"r"); char buf[4096]; size_t n; while((n=fread(buf,1,4096,r))>0) body.append(buf,n); fclose(r); string decl; for(size_t i=0;i<zvars.size();i++){ char d[64]; snprintf(d,64,"(declare-fun v%zu ()",i); if(body.find(d)==string::npos){ char l[96]; snprintf(l,96,"(declare-fun v%zu () (_ BitVec %d))\n",i,zvarw[i]); decl+=l; } } size_t p=body.find("(set-option"); body.insert(p,""); size_t q=body.find('\n',p); body.insert(q+1,decl); o=fopen(fn,"w"); fwrite(body.data(),1,body.size(),o); fclose(o); }
  const char*cmds[]={"timeout %d cvc5 --produce-models --bv-solver=bitblast --bitblast=eager %s 2>/dev/null","timeout %d z3 %s 2>/dev/null"}; int res=-1;
  for(auto c:cmds){ char cmd[700]; int left=(int)(deadline-now()); if(left<2) break; snprintf(cmd,700,c,left<90?left:90,fn); FILE*p=popen(cmd,"r"); if(!p) continue; string out; char buf[4096]; size_t n; while((n=fread(buf,1,4096,p))>0) out.append(buf,n); pclose(p);
    if(out.compare(0,5,"unsat")==0){ res=0; break; }
    if(out.compare(0,3,"sat")==0){ model.assign(zvars.size(),0); for(size_t i=0;i<zvars.size();i++){ char k[32]; snprintf(k,32,"(v%zu ",i); size_t q=out.find(k); if(q==string::npos) continue; q+=strlen(k); if(out[q]=='#'){ if(out[q+1]=='b') model[i]=strtoull(out.c_str()+q+2,0,2); else model[i]=strtoull(out.c_str()+q+2,0,16);} } res=1; break; } }
  unlink(fn); return res; }
static void setWitness(const vector<u64>&m){ witness=m; evepoch++; }
static void addc(Expr*c){ if(isK(c)) return; setKnown(c,true); setKnown(mkNot(c),false); pathc.push_back(c); Z3_solver_assert(Z,SV,lowB(c));
  if(c->op==X_AND){ // learn conjuncts
    vector<Expr*> st{c}; while(!st.empty()){ Expr*x=st.back(); st.pop_back(); if(x->op==X_AND&&x->w==1){ st.push_back(x->a); st.push_back(x->b);} else { setKnown(x,true); setKnown(mkNot(x),false); } } } }
struct VarE { int w; u64 mx; Expr*e; Z3_ast z; }; static vector<vector<VarE>> vartab; // a variable index may be reused by sibling paths
static Expr* newVar(int w){ u64 i=zvars.size(); while(witness.size()<=i) witness.push_back(0); witness[i]=0; evepoch++; if(vartab.size()<=i) vartab.resize(i+1);
  for(auto&v:vartab[i]) if(v.w==w&&v.mx==varmax){ zvars.push_back(v.z); zvarw.push_back(w); return v.e; }
  char n[32]; snprintf(n,32,"v%lu",(unsigned long)i); Z3_ast a=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),bvsort(w))); zvars.push_back(a); zvarw.push_back(w); Expr*e=newVarExpr(w,i,a); vartab[i].push_back({w,varmax,e,a}); return e; }

// inputs as seen by the harness, in creation order (value expression evaluated under the witness)
struct Inp { Expr*e; u64 c; int w; };
static vector<Inp> inputs; static vector<Val> observed;

static void flushStats(){ G->insns+=localinsn; localinsn=0; }
struct Backtrack {};
struct Ckpt; static vector<std::unique_ptr<Ckpt>> cks;
[[noreturn]] static void endPath(int kind){ // 0 normal,1 killed,2 other
  flushStats(); if(kind==0) G->paths++; else G->killed++;
  if((u64)depth>G->maxdepth) G->maxdepth=depth;
  if(!cks.empty()&&!G->stop) throw Backtrack();
  if(ownToken) G->tokens++;
  while(waitpid(-1,nullptr,0)>0||errno==EINTR){}
  _exit(0); }
static void checkDeadline(){ if(now()>deadline){ incomplete("deadline"); G->stop=1; } if(G->stop){ endPath(1);} }
// a solver call must not outlive the deadline
static void onAlarm(int){ if(now()<=deadline){ alarm(2); return; } if(verbose>1&&curq) fprintf(stderr,"[pending at %s] %.1500s\n",whereami().c_str(),show(curq)); G->incomplete++; G->stop=1; if(ownToken) G->tokens++; _exit(0); }
static void armAlarm(){ double r=deadline-now(); alarm(r<1?2:(unsigned)r+2); }
static bool doFork(const char*site,Expr*alt);
static void concFrame();
static bool decide(Expr*c){
  if(isK(c)) return c->c;
  c=simpB(c); if(isK(c)) return c->c;
  bool b=evalx(c); Expr*nc=mkNot(c); Expr*mine=b?c:nc, *oth=b?nc:c; vector<u64> m;
  int r=solve(oth,m);
  if(r==0){ setKnown(mine,true); setKnown(oth,false); return b; }
  if(r<0){ incomplete("solver unknown at branch"); addc(mine); return b; }
  if(doFork("br",mine)){ addc(oth); setWitness(m); return !b; }
  addc(mine); return b; }
static Expr* resolve(Expr*e){ // decide ITE conditions already known on this path
  while(e->op==X_ITE){ auto it=known.find(e->a); if(it==known.end()) break; e=it->second?e->b:e->d; }
  if(e->op==X_ITE&&iteK(e)){ Expr*b=resolve(e->b),*d=resolve(e->d); if(b!=e->b||d!=e->d) return kIte(e->a,b,d); }
  return e; }
static u64 concretize(Expr*e,u64 limit=70000){
  e=resolve(e); if(isK(e)) return e->c; u64 n=0;
  for(;;){ u64 v=evalx(e); Expr*eq=mkCmp(X_EQ,e,K(e->w,v)); auto it=known.find(eq); if(it!=known.end()&&it->second) return v;
    vector<u64> m; int r=solve(mkNot(eq),m);
    if(r==0){ addc(eq); return v; }
    if(r<0){ incomplete("solver unknown at concretize"); addc(eq); return v; }
    if(++n>limit){ incomplete("concretize limit"); addc(eq); return v; }
    if(doFork("conc",eq)){ addc(mkNot(eq)); setWitness(m); continue; }
    addc(eq); return v; } }
static u64 conc(Val v,u64 lim=70000){ return v.e? concretize(v.e,lim):v.c; }

// ------------------------------------------------------------------ execution state
struct Frame { Func*f; Val*R; int ip; int retd; int nret; u64 sp; u64 va; u32 uid; };
static vector<Frame> fr; static Val* regs; static u64 regtop=0; static u32 uidc=0;
static string whereami(){ if(fr.empty()) return "?"; string s; int n=0; for(int i=(int)fr.size()-1;i>=0&&n<3;i--,n++){ char b[128]; snprintf(b,128,"%s%s+%d",n?"<":"",fr[i].f->name.c_str(),fr[i].ip); s+=b; } return s; }
static string btrace(){ string s; for(int i=(int)fr.size()-1;i>=0;i--){ s+=fr[i].f->name; s+=" "; } return s; }

static void writeInputs(FILE*o,const vector<u64>*model){ vector<u64> save=witness; if(model) setWitness(*model); for(auto&i:inputs){ u64 v= i.e? evalx(i.e):i.c; fprintf(o,"%lld\n",(long long)v); } if(model) setWitness(save); }
static void violation(const char*kind,const char*label,const vector<u64>*model){
  u64 k=G->viols++; char key[200]; snprintf(key,200,"%s:%s",kind,label); bump(G->lab,G->nlabel,(string("VIOL ")+key).c_str());
  if(k<maxviol){ char fn[512]; snprintf(fn,512,"%s/viol.%lu",outdir.c_str(),(unsigned long)k); char tmp[540]; snprintf(tmp,540,"%s.tmp",fn); FILE*o=fopen(tmp,"w"); if(o){ fprintf(o,"kind %s\nlabel %s\nwhere %s\ninputs %zu\n",kind,label,btrace().c_str(),inputs.size()); writeInputs(o,model); fclose(o); rename(tmp,fn);} }
  else { if(k>200) G->stop=1; } }
[[noreturn]] static void crash(const char*fmt,...){ char b[300]; va_list a; va_start(a,fmt); vsnprintf(b,300,fmt,a); va_end(a); G->crash++; violation("crash",b,nullptr); endPath(1); }
[[noreturn]] static void unsup(const char*fmt,...){ char b[200]; va_list a; va_start(a,fmt); int n=vsnprintf(b,200,fmt,a); va_end(a); string w=string(b)+" at "+whereami(); (void)n; incomplete(w.c_str()); if(verbose) fprintf(stderr,"UNSUPPORTED %s\n",w.c_str()); endPath(1); }

static Expr* byteAt(u64 a){ if(*SH(a)==2){ u64 s=*SY(a); return mkExtract((Expr*)(s&~7ull),8*(s&7),8); } return K(8,*(u8*)a); }
static Val loadSlow(u64 a,int n,int w){
  if(!validr(a,n)) crash("invalid read of %d bytes at 0x%lx in %s",n,(unsigned long)a,fr.back().f->name.c_str());
  if(!anysym(a,n)){ u64 v=0; memcpy(&v,(void*)a,n); return C(v&maskw(w)); }
  u64 s0=*SY(a); bool same=*SH(a)==2 && (s0&7)==0 && ((Expr*)(s0))->w==8*n; for(int i=1;same&&i<n;i++) same=*SH(a+i)==2&&*SY(a+i)==(s0|i);
  Expr*e; if(same) e=(Expr*)s0; else { e=byteAt(a+n-1); for(int i=n-2;i>=0;i--) e=mkConcat(e,byteAt(a+i)); }
  if(w<e->w) e=mkExtract(e,0,w);
  return S(e); }
static inline Val loadC(u64 a,int n,int w){
  if(__builtin_expect(a-ARENA<ASIZE-8,1)){
    if(n==8){ u64 s; memcpy(&s,(void*)(a+SHOFF),8); if(__builtin_expect(s==ONES,1)) return C(*(u64*)a); }
    else if(n==4){ u32 s; memcpy(&s,(void*)(a+SHOFF),4); if(s==0x01010101u) return C(*(u32*)a); }
    else if(n==1){ if(*SH(a)==1) return C(*(u8*)a&maskw(w)); }
    else if(n==2){ uint16_t s; memcpy(&s,(void*)(a+SHOFF),2); if(s==0x0101) return C(*(uint16_t*)a); } }
  return loadSlow(a,n,w); }
static void storeC(u64 a,int n,int w,Val v){
  if(__builtin_expect(a-ARENA<ASIZE-8,1)){
    if(!v.e){
      if(n==8){ u64 s; memcpy(&s,(void*)(a+SHOFF),8); if(__builtin_expect(s==ONES,1)){ touchs(a,8); *(u64*)a=v.c; return; } }
      else if(n==4){ u32 s; memcpy(&s,(void*)(a+SHOFF),4); if(s==0x01010101u){ touchs(a,4); *(u32*)a=v.c; return; } }
      else if(n==1){ if(*SH(a)==1){ touch1(a); *(u8*)a=v.c; return; } }
      else if(n==2){ uint16_t s; memcpy(&s,(void*)(a+SHOFF),2); if(s==0x0101){ touchs(a,2); *(uint16_t*)a=v.c; return; } } } }
  if(!validr(a,n)) crash("invalid write of %d bytes at 0x%lx in %s",n,(unsigned long)a,fr.back().f->name.c_str());
  touchs(a,n);
  if(!v.e){ memset(SH(a),1,n); memcpy((void*)a,&v.c,n); return; }
  Expr*e=mkZext(v.e,8*n); memset(SH(a),2,n); for(int i=0;i<n;i++) *SY(a+i)=(u64)e|i; }
static inline bool ptrlike(u64 v);
static u64 atomsLo=0,atomsHi=0;
static inline bool ptrlike(u64 v){ if(v-atomsLo<atomsHi-atomsLo) return false; return v-ARENA<ASIZE || v-FNBASE<(2ull<<40); }
static void leaves(Expr*e,vector<u64>&out){ if(isK(e)) out.push_back(e->c); else { leaves(e->b,out); leaves(e->d,out);} }
static Expr* mapLeaves(Expr*e,const std::map<u64,Expr*>&m){ if(isK(e)) return m.at(e->c); return kIte(e->a,mapLeaves(e->b,m),mapLeaves(e->d,m)); }
// candidate set for a symbolic address: superset of the feasible values, or empty when not enumerable structurally
static void sumcands0(Expr*x,vector<u64>&out,size_t lim);
static void sumcands(Expr*x,vector<u64>&out,size_t lim){ sumcands0(x,out,lim); if(!out.empty()) return;
  u64 m=maskw(x->w),unk=~(x->kz|x->ko)&m; int nb=__builtin_popcountll(unk); if((1ull<<std::min(nb,40))<=lim){ u64 s=0; do{ out.push_back(x->ko|s); s=(s-unk)&unk; }while(s); } }
static void sumcands0(Expr*x,vector<u64>&out,size_t lim){
  u64 m=maskw(x->w); 
  if(isK(x)){ out.push_back(x->c); return; }
  if(x->op==X_ITE&&iteK(x)){ leaves(x,out); std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end()); return; }
  if(x->op==X_ADD){ vector<u64> p,q; sumcands(x->a,p,lim); if(p.empty()) return; sumcands(x->b,q,lim); if(q.empty()||p.size()*q.size()>lim) return; for(u64 u:p) for(u64 v:q) out.push_back((u+v)&m); std::sort(out.begin(),out.end()); out.erase(std::unique(out.begin(),out.end()),out.end()); return; }
  if(x->op==X_SHL&&isK(x->b)){ vector<u64> p; sumcands(x->a,p,lim); for(u64 u:p) out.push_back((u<<x->b->c)&m); return; }
  if(x->op==X_OR&&isK(x->b)){ vector<u64> p; sumcands(x->a,p,lim); for(u64 u:p) out.push_back(u|x->b->c); return; }
  if(x->op==X_SEXT){ vector<u64> p; sumcands(x->a,p,lim); for(u64 u:p) out.push_back((u64)sx(u,x->a->w)&m); return; }
  if(x->op==X_ZEXT){ sumcands(x->a,out,lim); return; }
  u64 unk=~(x->kz|x->ko)&m; int nb=__builtin_popcountll(unk); if((1ull<<std::min(nb,40))<=lim){ u64 s=0; do{ out.push_back(x->ko|s); s=(s-unk)&unk; }while(s); return; }
  int vb=x->w-x->sb+1; if(vb<=12&&(1ull<<vb)<=lim){ for(i64 i=-(1ll<<(vb-1));i<(1ll<<(vb-1));i++) out.push_back((u64)i&m); } }
static Val loadSym(Expr*e,int n,int w){
  e=resolve(e); if(isK(e)) return loadC(e->c,n,w);
  vector<u64> cand; bool tree=iteK(e);
  if(tree){ leaves(e,cand); } else { sumcands(e,cand,1024);
    if(cand.size()==0||cand.size()>64){ // tighten with the solver when cheap
      if(cand.size()==0){ size_t lim=600; vector<Expr*> ex; Expr*blk=K(1,1); vector<u64> save=witness; for(;;){ vector<u64> m; u64 v; if(cand.empty()) v=evalx(e); else { int r=solve(blk,m); if(r==0) break; if(r<0){ incomplete("unknown in address enumeration"); break; } setWitness(m); v=evalx(e); } cand.push_back(v); blk=mkBin(X_AND,blk,mkNot(mkCmp(X_EQ,e,K(64,v)))); if(cand.size()>lim){ setWitness(save); incomplete(("too many feasible addresses at "+whereami()).c_str()); endPath(1);} } setWitness(save); } } }
  std::sort(cand.begin(),cand.end()); cand.erase(std::unique(cand.begin(),cand.end()),cand.end());
  // invalid candidates: feasible?
  Expr*bad=K(1,0); size_t ninv=0; vector<u64> good; 
  for(u64 a:cand){ if(validr(a,n)) good.push_back(a); else ninv++; }
  if(ninv){ if(ninv<=good.size()) { for(u64 a:cand) if(!validr(a,n)) bad=mkBin(X_OR,bad,mkCmp(X_EQ,e,K(64,a))); } else { bad=K(1,1); for(u64 a:good) bad=mkBin(X_AND,bad,mkNot(mkCmp(X_EQ,e,K(64,a)))); }
    vector<u64> m; int r=solve(bad,m); if(r<0) incomplete("unknown in bounds query");
    if(r==1){ char b[200]; snprintf(b,200,"out-of-bounds read of %d bytes (symbolic address) in %s",n,fr.back().f->name.c_str()); violation("crash",b,&m); G->crash++;
      if(evalx(bad)){ vector<u64> m2; if(solve(mkNot(bad),m2)!=1) endPath(1); setWitness(m2); } addc(mkNot(bad)); }
    else if(good.empty()) unsup("no valid address"); 
    if(tree){ tree=false; } }
  if(good.size()==1) { return loadC(good[0],n,w); }
  std::map<u64,Expr*> mp; bool pl=false; u64 first=0; bool have=false, diff=false;
  for(u64 a:good){ Val v=loadC(a,n,w); Expr*x=X(v,w); mp[a]=x; if(n==8&&!v.e&&ptrlike(v.c)) pl=true; if(!have){ have=true; first=(u64)x; } else if((u64)x!=first) diff=true; }
  if(!diff) return S((Expr*)first);
  if(pl){ u64 a=concretize(e); concFrame(); return loadC(a,n,w); }
  if(tree) return S(mapLeaves(e,mp));
  // balanced tree over the sorted offsets from the constant part of the address
  { u64 c=0; Expr*x=e; for(;;){ if(x->op==X_ADD&&isK(x->b)) c+=x->b->c; else if(x->op==X_OR&&isK(x->b)&&(x->b->c&~x->a->kz)==0) c+=x->b->c; else break; x=x->a; }
    if(c){ std::map<u64,Expr*> mp2; vector<u64> g2; for(u64 a:good){ g2.push_back(a-c); mp2[a-c]=mp[a]; } std::sort(g2.begin(),g2.end()); e=x; good.swap(g2); mp.swap(mp2); } }
  struct B{ static Expr* go(Expr*e,vector<u64>&g,std::map<u64,Expr*>&mp,size_t lo,size_t hi){ bool same=true; for(size_t i=lo+1;i<hi&&same;i++) same=mp[g[i]]==mp[g[lo]]; if(same) return mp[g[lo]]; size_t mid=(lo+hi)/2; 
      if(hi-lo==2) return kIte(mkCmp(X_EQ,e,K(64,g[lo])),mp[g[lo]],mp[g[lo+1]]);
      return kIte(mkCmp(X_ULT,e,K(64,g[mid])),go(e,g,mp,lo,mid),go(e,g,mp,mid,hi)); } };
  return S(B::go(e,good,mp,0,good.size())); }
static Val load(Val p,int n,int w){ return p.e? loadSym(p.e,n,w): loadC(p.c,n,w); }
static void store(Val p,int n,int w,Val v){ u64 a; if(p.e){ a=concretize(p.e,4096); concFrame(); } else a=p.c; storeC(a,n,w,v); }
static void concFrame(){ if(fr.empty()) return; Frame&f=fr.back(); for(int i=0;i<f.f->nslot;i++) if(f.R[i].e&&f.R[i].e->op==X_ITE){ Expr*e=resolve(f.R[i].e); f.R[i]=S(e); } }

// heap ---------------------------------------------------------------
struct JmpRec { u32 uid; int depth; int ip; int retd; };
struct Heap { std::unordered_map<u64,u64> hsize; std::unordered_map<u64,vector<u64>> hfree; u64 heapused=0,heapp=HEAP; std::unordered_map<u64,JmpRec> jmps; };
static Heap HP; static std::shared_ptr<Heap> hsnap; // snapshot equal to HP, or null when HP changed since
#define hsize HP.hsize
#define hfree HP.hfree
#define heapused HP.heapused
#define heapp HP.heapp
#define jmps HP.jmps
static u64 xmalloc(u64 n){ if(n>(1ull<<31)) return 0; hsnap=nullptr; u64 r=(n+15)&~15ull; if(r==0) r=16; u64 a; auto it=hfree.find(r); bool fresh=true; if(it!=hfree.end()&&it->second.size()>8){ a=it->second.front(); it->second.erase(it->second.begin()); fresh=false; } else { if(heapp+r+64>ARENA+ASIZE-4096) return 0; a=heapp+32; heapp+=r+48; heapp=(heapp+15)&~15ull; }
  hsize[a]=n; heapused+=n; touch(a,n); memset(SH(a),1,n); if(n<=65536||!fresh) memset((void*)a,0xAB,n); return a; }
static void xfree(u64 a){ if(!a) return; auto it=hsize.find(a); if(it==hsize.end()) crash("invalid free of 0x%lx",(unsigned long)a); u64 n=it->second; hsnap=nullptr; touch(a,n); memset(SH(a),0,n); hsize.erase(it); u64 r=(n+15)&~15ull; if(!r) r=16; hfree[r].push_back(a); }
static void xcopy(u64 d,u64 s,u64 n){ if(!n) return; if(!validr(s,n)) crash("invalid read of %lu bytes at 0x%lx (copy)",(unsigned long)n,(unsigned long)s); if(!validr(d,n)) crash("invalid write of %lu bytes at 0x%lx (copy)",(unsigned long)n,(unsigned long)d);
  touch(d,n);
  if(anysym(s,n)){ memmove(SY(d),SY(s),n*8); memmove(SH(d),SH(s),n);  memmove((void*)d,(void*)s,n); }
  else { memmove((void*)d,(void*)s,n); memset(SH(d),1,n); } }
static void xset(u64 d,Val v,u64 n){ if(!n) return; if(!validr(d,n)) crash("invalid write of %lu bytes at 0x%lx (memset)",(unsigned long)n,(unsigned long)d); if(!v.e){ touch(d,n); memset((void*)d,(int)v.c,n); memset(SH(d),1,n);} else { Expr*e=mkExtract(v.e,0,8); for(u64 i=0;i<n;i++) storeC(d+i,1,8,S(e)); } }
static string cstr(u64 a){ string s; for(;;a++){ if(!validr(a,1)) crash("invalid string read"); if(*SH(a)==2){ u64 v=concretize(byteAt(a),300); if(!v) break; s+=(char)v; } else { char c=*(char*)a; if(!c) break; s+=c; } } return s; }

// ------------------------------------------------------------------ natives
enum Nat { N_malloc,N_calloc,N_realloc,N_free,N_memcpy,N_memmove,N_memset,N_memcmp,N_abort,N_exit,N_setjmp,N_longjmp,N_var,N_conc,N_assume,N_check,N_reach,N_input,N_done,N_valid,N_hostload,N_fmtd,N_strtod,N_math1,N_math2,N_print,N_obs,N_issym,N_violate,N_modf,N_frexp,N_ldexp,N_choose,N_dlsym,N_kill,N_ctype,N_feasible,N_isvalid,N_ite,N_mulhi,N_varr };
static std::map<string,int> natmap={{"malloc",N_malloc},{"calloc",N_calloc},{"realloc",N_realloc},{"free",N_free},{"memcpy",N_memcpy},{"memmove",N_memmove},{"memset",N_memset},{"memcmp",N_memcmp},{"bcmp",N_memcmp},{"abort",N_abort},{"exit",N_exit},{"_exit",N_exit},{"_setjmp",N_setjmp},{"setjmp",N_setjmp},{"__sigsetjmp",N_setjmp},{"longjmp",N_longjmp},{"siglongjmp",N_longjmp},{"_longjmp",N_longjmp},
 {"__se_var",N_var},{"__se_conc",N_conc},{"__se_assume",N_assume},{"__se_check",N_check},{"__se_reach",N_reach},{"__se_input",N_input},{"__se_done",N_done},{"__se_valid",N_valid},{"__se_hostload",N_hostload},{"__se_fmtd",N_fmtd},{"__se_strtod",N_strtod},{"__se_print",N_print},{"__se_obs",N_obs},{"__se_issym",N_issym},{"__se_violate",N_violate},{"__se_dlsym",N_dlsym},{"__se_kill",N_kill},{"__se_feasible",N_feasible},{"__se_isvalid",N_isvalid},{"__se_ite",N_ite},{"__se_mulhi",N_mulhi},{"__se_varr",N_varr},
 {"modf",N_modf},{"frexp",N_frexp},{"ldexp",N_ldexp}};
static std::map<string,double(*)(double)> m1={{"sin",sin},{"cos",cos},{"tan",tan},{"asin",asin},{"acos",acos},{"atan",atan},{"exp",exp},{"log",log},{"log10",log10},{"sqrt",sqrt},{"floor",floor},{"ceil",ceil},{"fabs",fabs},{"sinh",sinh},{"cosh",cosh},{"tanh",tanh},{"rint",rint},{"round",round},{"trunc",trunc},{"nearbyint",nearbyint}};
static std::map<string,double(*)(double,double)> m2={{"pow",pow},{"atan2",atan2},{"fmod",fmod},{"copysign",copysign}};
static double asd(u64 u){ double d; memcpy(&d,&u,8); return d; } static u64 asu(double d){ u64 u; memcpy(&u,&d,8); return u; }
static float asf(u64 u){ float d; u32 x=u; memcpy(&d,&x,4); return d; } static u64 asfu(float d){ u32 u; memcpy(&u,&d,4); return u; }
static u64 fpv(Val v,int w){ if(!v.e) return v.c; u64 r=concretize(v.e,2048); (void)w; return r; }

static bool doneFlag=false;

static Func* getFunc(LLVMValueRef v){ auto it=fbyval.find(v); if(it!=fbyval.end()) return it->second; die("unknown function"); }

// ------------------------------------------------------------------ predecode
enum Intr { I_NOP,I_MEMCPY,I_MEMSET,I_VASTART,I_VACOPY,I_UMAX,I_UMIN,I_SMAX,I_SMIN,I_ABS,I_CTPOP,I_CTLZ,I_CTTZ,I_BSWAP,I_FSHL,I_FSHR,I_SADDO,I_UADDO,I_SSUBO,I_USUBO,I_SMULO,I_UMULO,I_USUBSAT,I_UADDSAT,I_EXPECT,I_FABS,I_M1,I_OBJSIZE,I_STKSAVE,I_STKREST,I_TRAP,I_ISCONST,I_M2,I_FMULADD,I_COPYSIGN };
static Func* F; static std::unordered_map<LLVMValueRef,int> slotOf; static std::unordered_map<u64,int> cstOf;
static int constSlot(u64 v){ auto it=cstOf.find(v); if(it!=cstOf.end()) return it->second; F->cst.push_back(C(v)); int r=~(int)(F->cst.size()-1); cstOf[v]=r; return r; }
static bool isConstV(LLVMValueRef v){ return LLVMIsConstant(v); }
static int opnd(LLVMValueRef v,int k=0){ if(isConstV(v)){ vector<u64> o; constFlat(v,o); int w=bitsOf(LLVMTypeOf(v)); u64 x=o[k]; if(w>0) x&=maskw(w); return constSlot(x); } auto it=slotOf.find(v); if(it==slotOf.end()) die("no slot: %s",LLVMPrintValueToString(v)); return it->second+k; }
static Insn mk(Op op,int w,int d=0,int a=0,int b=0,int c=0){ Insn i; memset(&i,0,sizeof i); i.op=op; i.w=w; i.d=d; i.a=a; i.b=b; i.c=c; i.mask=maskw(w); i.n=(w+7)/8; return i; }
static std::map<LLVMBasicBlockRef,int> bbIdx;
static vector<std::pair<LLVMBasicBlockRef,LLVMBasicBlockRef>> edgeBB;
static int newEdge(LLVMBasicBlockRef from,LLVMBasicBlockRef to){ Edge e; e.tgt=bbIdx.at(to); e.phi=F->phis.size(); e.np=0;
  for(LLVMValueRef i=LLVMGetFirstInstruction(to);i&&LLVMGetInstructionOpcode(i)==LLVMPHI;i=LLVMGetNextInstruction(i)){ unsigned n=LLVMCountIncoming(i); bool ok=false; for(unsigned j=0;j<n;j++) if(LLVMGetIncomingBlock(i,j)==from){ LLVMValueRef v=LLVMGetIncomingValue(i,j); int m=nflat(LLVMTypeOf(i)); for(int q=0;q<m;q++){ F->phis.push_back({slotOf.at(i)+q,opnd(v,q)}); e.np++; } ok=true; break; } if(!ok) die("phi edge"); }
  F->edges.push_back(e); return F->edges.size()-1; }
static bool pfx(const char*s,const char*p){ return !strncmp(s,p,strlen(p)); }
static int intrinsicId(const char*n,double(**fn)(double)){
  struct { const char*p; int id; } T[]={{"llvm.memcpy",I_MEMCPY},{"llvm.memmove",I_MEMCPY},{"llvm.memset",I_MEMSET},{"llvm.lifetime",I_NOP},{"llvm.dbg",I_NOP},{"llvm.assume",I_NOP},{"llvm.experimental.noalias",I_NOP},{"llvm.invariant",I_NOP},{"llvm.va_start",I_VASTART},{"llvm.va_end",I_NOP},{"llvm.va_copy",I_VACOPY},{"llvm.umax",I_UMAX},{"llvm.umin",I_UMIN},{"llvm.smax",I_SMAX},{"llvm.smin",I_SMIN},{"llvm.abs",I_ABS},{"llvm.ctpop",I_CTPOP},{"llvm.ctlz",I_CTLZ},{"llvm.cttz",I_CTTZ},{"llvm.bswap",I_BSWAP},{"llvm.fshl",I_FSHL},{"llvm.fshr",I_FSHR},{"llvm.sadd.with",I_SADDO},{"llvm.uadd.with",I_UADDO},{"llvm.ssub.with",I_SSUBO},{"llvm.usub.with",I_USUBO},{"llvm.smul.with",I_SMULO},{"llvm.umul.with",I_UMULO},{"llvm.usub.sat",I_USUBSAT},{"llvm.uadd.sat",I_UADDSAT},{"llvm.expect",I_EXPECT},{"llvm.ptrmask",I_NOP},{"llvm.objectsize",I_OBJSIZE},{"llvm.stacksave",I_STKSAVE},{"llvm.stackrestore",I_STKREST},{"llvm.trap",I_TRAP},{"llvm.is.constant",I_ISCONST},{"llvm.fmuladd",I_FMULADD},{"llvm.copysign",I_COPYSIGN}};
  for(auto&t:T) if(pfx(n,t.p)) return t.id;
  if(pfx(n,"llvm.")){ string s=n+5; size_t d=s.find('.'); if(d!=string::npos){ s=s.substr(0,d); auto it=m1.find(s); if(it!=m1.end()){ *fn=it->second; return I_M1; } } }
  return -1; }
static void predecode(Func*f){
  F=f; f->pre=true; slotOf.clear(); cstOf.clear(); bbIdx.clear(); LLVMValueRef lf=f->lv; int ns=0;
  for(LLVMValueRef p=LLVMGetFirstParam(lf);p;p=LLVMGetNextParam(p)){ slotOf[p]=ns; if(bitsOf(LLVMTypeOf(p))<0) die("param type in %s",f->name.c_str()); f->argw.push_back(bitsOf(LLVMTypeOf(p))); ns++; }
  f->nargs=ns; int nb=0;
  for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(lf);b;b=LLVMGetNextBasicBlock(b)){ bbIdx[b]=nb++; for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){ int n=nflat(LLVMTypeOf(i)); if(n){ slotOf[i]=ns; ns+=n; } } }
  f->bbstart.resize(nb);
  for(LLVMBasicBlockRef b=LLVMGetFirstBasicBlock(lf);b;b=LLVMGetNextBasicBlock(b)){
    f->bbstart[bbIdx[b]]=f->code.size();
    for(LLVMValueRef i=LLVMGetFirstInstruction(b);i;i=LLVMGetNextInstruction(i)){
      auto opc=LLVMGetInstructionOpcode(i); LLVMTypeRef ty=LLVMTypeOf(i); int w=LLVMGetTypeKind(ty)==LLVMVoidTypeKind?0:bitsOf(ty); auto o=[&](int k){ return LLVMGetOperand(i,k); };
      int d= slotOf.count(i)? slotOf[i]:-1; auto&cd=f->code;
      auto bin=[&](Op p){ if(w<0||w>64) die("width %d in %s: %s",w,f->name.c_str(),LLVMPrintValueToString(i)); cd.push_back(mk(p,w,d,opnd(o(0)),opnd(o(1)))); };
      switch(opc){
      case LLVMPHI: break;
      case LLVMAdd: bin(Q_ADD); break; case LLVMSub: bin(Q_SUB); break; case LLVMMul: bin(Q_MUL); break; case LLVMUDiv: bin(Q_UDIV); break; case LLVMSDiv: bin(Q_SDIV); break; case LLVMURem: bin(Q_UREM); break; case LLVMSRem: bin(Q_SREM); break;
      case LLVMAnd: bin(Q_AND); break; case LLVMOr: bin(Q_OR); break; case LLVMXor: bin(Q_XOR); break; case LLVMShl: bin(Q_SHL); break; case LLVMLShr: bin(Q_LSHR); break; case LLVMAShr: bin(Q_ASHR); break;
      case LLVMFAdd: bin(Q_FADD); break; case LLVMFSub: bin(Q_FSUB); break; case LLVMFMul: bin(Q_FMUL); break; case LLVMFDiv: bin(Q_FDIV); break; case LLVMFRem: bin(Q_FREM); break;
      case LLVMFNeg: cd.push_back(mk(Q_FNEG,w,d,opnd(o(0)))); break;
      case LLVMICmp: { int ow=bitsOf(LLVMTypeOf(o(0))); int a=opnd(o(0)),c=opnd(o(1)); Op p; switch(LLVMGetICmpPredicate(i)){ case LLVMIntEQ:p=Q_EQ;break; case LLVMIntNE:p=Q_NE;break; case LLVMIntULT:p=Q_ULT;break; case LLVMIntULE:p=Q_ULE;break; case LLVMIntSLT:p=Q_SLT;break; case LLVMIntSLE:p=Q_SLE;break; case LLVMIntUGT:p=Q_ULT;std::swap(a,c);break; case LLVMIntUGE:p=Q_ULE;std::swap(a,c);break; case LLVMIntSGT:p=Q_SLT;std::swap(a,c);break; default:p=Q_SLE;std::swap(a,c);break; } cd.push_back(mk(p,ow,d,a,c)); break; }
      case LLVMFCmp: { Insn x=mk(Q_FCMP,bitsOf(LLVMTypeOf(o(0))),d,opnd(o(0)),opnd(o(1))); x.imm=LLVMGetFCmpPredicate(i); cd.push_back(x); break; }
      case LLVMTrunc: cd.push_back(mk(Q_TRUNC,w,d,opnd(o(0)))); break;
      case LLVMZExt: cd.push_back(mk(Q_ZEXT,w,d,opnd(o(0)))); break;
      case LLVMSExt: { Insn x=mk(Q_SEXT,w,d,opnd(o(0))); x.w2=bitsOf(LLVMTypeOf(o(0))); cd.push_back(x); break; }
      case LLVMPtrToInt: if(w<64) cd.push_back(mk(Q_TRUNC,w,d,opnd(o(0)))); else cd.push_back(mk(Q_MOV,64,d,opnd(o(0)))); break;
      case LLVMIntToPtr: case LLVMBitCast: case LLVMFreeze: { int n=nflat(ty); for(int q=0;q<n;q++) cd.push_back(mk(Q_MOV,64,d+q,opnd(o(0),q))); break; }
      case LLVMSIToFP: case LLVMUIToFP: { Insn x=mk(opc==LLVMSIToFP?Q_SITOFP:Q_UITOFP,w,d,opnd(o(0))); x.w2=bitsOf(LLVMTypeOf(o(0))); cd.push_back(x); break; }
      case LLVMFPToSI: case LLVMFPToUI: { Insn x=mk(opc==LLVMFPToSI?Q_FPTOSI:Q_FPTOUI,w,d,opnd(o(0))); x.w2=bitsOf(LLVMTypeOf(o(0))); cd.push_back(x); break; }
      case LLVMFPExt: cd.push_back(mk(Q_FPEXT,w,d,opnd(o(0)))); break; case LLVMFPTrunc: cd.push_back(mk(Q_FPTRUNC,w,d,opnd(o(0)))); break;
      case LLVMSelect: { int n=nflat(ty); vector<int> ws; vector<u64> of; flat(ty,ws,of,0); for(int q=0;q<n;q++) cd.push_back(mk(Q_SEL,ws[q],d+q,opnd(o(0)),opnd(o(1),q),opnd(o(2),q))); break; }
      case LLVMExtractValue: { LLVMTypeRef sub; int off=flatIndex(LLVMTypeOf(o(0)),LLVMGetNumIndices(i),LLVMGetIndices(i),&sub); int n=nflat(sub); for(int q=0;q<n;q++) cd.push_back(mk(Q_MOV,64,d+q,opnd(o(0),off+q))); break; }
      case LLVMInsertValue: { LLVMTypeRef sub; int off=flatIndex(ty,LLVMGetNumIndices(i),LLVMGetIndices(i),&sub); int n=nflat(ty),m=nflat(sub); for(int q=0;q<n;q++) cd.push_back(mk(Q_MOV,64,d+q,q>=off&&q<off+m? opnd(o(1),q-off):opnd(o(0),q))); break; }
      case LLVMLoad: { vector<int> ws; vector<u64> of; flat(ty,ws,of,0); for(size_t q=0;q<ws.size();q++){ if(ws[q]<0||ws[q]>64) die("load type %s",LLVMPrintValueToString(i)); Insn x=mk(Q_LOAD,ws[q],d+q,opnd(o(0))); x.imm=of[q]; cd.push_back(x);} break; }
      case LLVMStore: { vector<int> ws; vector<u64> of; flat(LLVMTypeOf(o(0)),ws,of,0); for(size_t q=0;q<ws.size();q++){ if(ws[q]<0||ws[q]>64) die("store type %s",LLVMPrintValueToString(i)); Insn x=mk(Q_STORE,ws[q],0,opnd(o(1)),opnd(o(0),q)); x.imm=of[q]; cd.push_back(x);} break; }
      case LLVMGetElementPtr: { u64 off=0; vector<GepT> ts; LLVMTypeRef t=LLVMGetGEPSourceElementType(i); unsigned n=LLVMGetNumOperands(i);
        for(unsigned k=1;k<n;k++){ LLVMValueRef ix=o(k); u64 sc; if(k==1) sc=LLVMABISizeOfType(TD,t); else if(LLVMGetTypeKind(t)==LLVMStructTypeKind){ u64 fi=LLVMConstIntGetZExtValue(ix); off+=LLVMOffsetOfElement(TD,t,fi); t=LLVMStructGetTypeAtIndex(t,fi); continue; } else { t=LLVMGetElementType(t); sc=LLVMABISizeOfType(TD,t); }
          if(isConstV(ix)&&LLVMIsAConstantInt(ix)) off+=(u64)(LLVMConstIntGetSExtValue(ix)*(i64)sc); else ts.push_back({opnd(ix),(u8)bitsOf(LLVMTypeOf(ix)),sc}); }
        Insn x=mk(Q_GEP,64,d,opnd(o(0))); x.imm=off; x.n=ts.size(); if(ts.size()){ x.b=f->geps.size(); f->geps.push_back(ts);} cd.push_back(x); break; }
      case LLVMAlloca: { Insn x=mk(Q_ALLOCA,64,d,opnd(o(0))); x.imm=LLVMABISizeOfType(TD,LLVMGetAllocatedType(i)); cd.push_back(x); break; }
      case LLVMRet: { vector<int> rs; if(LLVMGetNumOperands(i)){ int n=nflat(LLVMTypeOf(o(0))); for(int q=0;q<n;q++) rs.push_back(opnd(o(0),q)); } Insn x=mk(Q_RET,0); x.a=f->rets.size(); f->rets.push_back(rs); cd.push_back(x); break; }
      case LLVMBr: if(LLVMIsConditional(i)){ Insn x=mk(Q_CBR,1,0,opnd(LLVMGetCondition(i))); x.b=newEdge(b,LLVMGetSuccessor(i,0)); x.c=newEdge(b,LLVMGetSuccessor(i,1)); cd.push_back(x); } else { Insn x=mk(Q_BR,0); x.b=newEdge(b,LLVMGetSuccessor(i,0)); cd.push_back(x);} break;
      case LLVMSwitch: { Sw s; s.v=opnd(o(0)); s.def=newEdge(b,LLVMGetSwitchDefaultDest(i)); unsigned n=LLVMGetNumOperands(i); for(unsigned k=2;k<n;k+=2){ s.k.push_back(LLVMConstIntGetZExtValue(o(k))); s.e.push_back(newEdge(b,LLVMValueAsBasicBlock(o(k+1)))); } Insn x=mk(Q_SWITCH,bitsOf(LLVMTypeOf(o(0)))); x.a=f->sws.size(); f->sws.push_back(s); cd.push_back(x); break; }
      case LLVMIndirectBr: { Ibr t; unsigned n=LLVMGetNumSuccessors(i); for(unsigned k=0;k<n;k++){ LLVMBasicBlockRef s=LLVMGetSuccessor(i,k); u64 a=bbAddr(s); if(!t.m.count(a)) t.m[a]=newEdge(b,s); } Insn x=mk(Q_IBR,64,0,opnd(o(0))); x.b=f->ibrs.size(); f->ibrs.push_back(t); cd.push_back(x); break; }
      case LLVMUnreachable: cd.push_back(mk(Q_UNREACH,0)); break;
      case LLVMFence: break;
      case LLVMCall: {
        LLVMValueRef cv=LLVMGetCalledValue(i); int na=LLVMGetNumArgOperands(i);
        if(LLVMIsAInlineAsm(cv)){ break; }
        if(LLVMIsAFunction(cv)){ size_t l; const char*nm=LLVMGetValueName2(cv,&l); if(pfx(nm,"llvm.")){ double(*fn)(double)=nullptr; int id=intrinsicId(nm,&fn); if(id<0) die("intrinsic %s",nm); if(id==I_NOP){ break; }
            Insn x=mk(Q_INTR,w>0?w:64,d); x.imm=(u64)fn; x.n=id; x.a=na>0?opnd(LLVMGetOperand(i,0)):0; x.b=na>1?opnd(LLVMGetOperand(i,1)):0; x.c=na>2?opnd(LLVMGetOperand(i,2)):0; if(id>=I_SADDO&&id<=I_UMULO){ x.w=bitsOf(LLVMTypeOf(LLVMGetOperand(i,0))); x.mask=maskw(x.w);} cd.push_back(x); break; } }
        CallInfo ci; ci.f=nullptr; ci.callee=0; for(int k=0;k<na;k++){ LLVMValueRef av=LLVMGetOperand(i,k); int aw=bitsOf(LLVMTypeOf(av)); if(aw<0){ if(LLVMGetTypeKind(LLVMTypeOf(av))==LLVMMetadataTypeKind) continue; die("arg type: %s",LLVMPrintValueToString(i)); } ci.args.push_back({opnd(av),(u8)aw}); }
        ci.nret=nflat(ty); Insn x=mk(Q_CALL,w>0?w:64,d); if(LLVMIsAFunction(cv)) ci.f=getFunc(cv); else if(LLVMIsAGlobalAlias(cv)) ci.f=getFunc(LLVMAliasGetAliasee(cv)); else { x.op=Q_ICALL; ci.callee=opnd(cv);} x.a=f->calls.size(); f->calls.push_back(ci); cd.push_back(x); break; }
      default: { char*s=LLVMPrintValueToString(i); // unknown instruction: only an error if reached
          Insn x=mk(Q_UNREACH,0); x.imm=(u64)s; x.n=1; cd.push_back(x); } } } }
  f->nslot=ns; 
  for(auto&e:f->edges) e.tgt=f->bbstart[e.tgt];
}

// ------------------------------------------------------------------ calls
static void unwindTo(size_t d){ while(fr.size()>d){ Frame&x=fr.back(); if(stkp>x.sp){ touch(x.sp,stkp-x.sp); memset(SH(x.sp),0,stkp-x.sp); stkp=x.sp; } regtop=x.R-regs; fr.pop_back(); } }
static u64 salloc(u64 n,u64 al=16){ u64 a=(stkp+16+al-1)&~(al-1); stkp=a+n; if(stkp+64>STKEND) crash("stack overflow"); touch(a,n); memset(SH(a),1,n); if(n<=4096) memset((void*)a,0xCD,n); return a; }
static void pushFrame(Func*f,const Val*args,const u8*aw,int na,int retd,int nret){
  if(!f->pre) predecode(f);
  if(fr.size()>200000) crash("call depth exceeded (C stack overflow)");
  G->touched[f->id&8191]=1;
  Frame x; x.f=f; x.ip=0; x.retd=retd; x.nret=nret; x.sp=stkp; x.va=0; x.uid=++uidc; x.R=regs+regtop; regtop+=f->nslot; memset(x.R,0,sizeof(Val)*f->nslot);
  for(int i=0;i<f->nargs;i++) x.R[i]= i<na? args[i]:C(0);
  // narrow argument mismatch (K&R style calls): mask
  fr.push_back(x);
  if(f->vararg){ int nv=na>f->nargs?na-f->nargs:0; u64 a=salloc(8*(nv?nv:1)); for(int i=0;i<nv;i++){ Val v=args[f->nargs+i]; int w=aw[f->nargs+i]; if(v.e&&w<64) v=S(mkZext(v.e,64)); storeC(a+8*i,8,64,v); } fr.back().va=a; } }

static bool native(Func*f,const Val*A,const u8*aw,int na,int retd,Val&ret);

// ------------------------------------------------------------------ branching
// A checkpoint restarts the instruction that branched, with `alt` added to the path condition (the branch taken first
// assumed its negation); re-executing the instruction then finds the decision already known.
static int ipadj=0;
struct Chunk { u32 k,old; u8 sym; u8*d; };
struct Ckpt { vector<Frame> fr; vector<Val> regs; u64 regtop,stkp; u32 uidc,ep; std::shared_ptr<Heap> heap; size_t npath,nklog,nvars,nin,nobs,hdone; vector<u64> wit; bool done; int depth; u64 steps; Expr*alt; vector<Chunk> log;
  ~Ckpt(){ for(auto&c:log) free(c.d); } };
static u32 epc=0; static u32 nexbase=0; static const u32 NEXMAX=400000;
static void saveChunk(u64 k){ if(!cks.empty()){ u64 a=ARENA+(k<<9); bool sy=anysym(a,512); Chunk c; c.k=k; c.old=pg[k]; c.sym=sy; c.d=(u8*)malloc(sy?1024+4096:1024); memcpy(c.d,(void*)a,512); memcpy(c.d+512,SH(a),512); if(sy) memcpy(c.d+1024,SY(a),4096); cks.back()->log.push_back(c); } pg[k]=curEp; }
static void restore(){ Ckpt&c=*cks.back();
  for(size_t i=c.log.size();i-->0;){ Chunk&x=c.log[i]; u64 a=ARENA+((u64)x.k<<9); memcpy((void*)a,x.d,512); memcpy(SH(a),x.d+512,512); if(x.sym) memcpy(SY(a),x.d+1024,4096); pg[x.k]=x.old; }
  fr=c.fr; regtop=c.regtop; memcpy((void*)regs,c.regs.data(),regtop*sizeof(Val)); stkp=c.stkp; uidc=c.uidc; if(hsnap!=c.heap){ HP=*c.heap; hsnap=c.heap; }
  while(klog.size()>c.nklog){ KLog&l=klog.back(); if(l.old<0) known.erase(l.e); else known[l.e]=l.old; klog.pop_back(); }
  domTrunc(c.npath); pathc.resize(c.npath); zvars.resize(c.nvars); zvarw.resize(c.nvars); inputs.resize(c.nin); observed.resize(c.nobs); hdone=c.hdone; witness=c.wit; evepoch++; doneFlag=c.done; depth=c.depth; steps=c.steps; ipadj=0; flushStats();
  Z3_solver_pop(Z,SV,1); Expr*alt=c.alt; cks.pop_back(); curEp= cks.empty()? 0 : cks.back()->ep; klogging=!cks.empty(); addc(alt); }
static bool scoped(){ return !cks.empty(); }
static void freshSolver(){ SV=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,SV); curRl=0; hdone=0; for(Expr*e:pathc) Z3_solver_assert(Z,SV,lowB(e)); }
static void rebuildSolver(){ Z3_solver_dec_ref(Z,SV); SV=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,SV); curRl=0; hdone=0; size_t i=0; for(auto&c:cks){ for(;i<c->npath;i++) Z3_solver_assert(Z,SV,lowB(pathc[i])); c->hdone=0; Z3_solver_push(Z,SV); } for(;i<pathc.size();i++) Z3_solver_assert(Z,SV,lowB(pathc[i])); }
// hard arithmetic: a process per branch keeps the solver free of scopes, which is slower to start and faster to solve
static u64 mybranch=0;
static bool heavy(){ mybranch++; return !hards.empty() || mysolver/(mybranch+5)>30000000ull; }
static bool takeToken(){ int t=G->tokens.load(); while(t>0){ if(G->tokens.compare_exchange_weak(t,t-1)) return true; } return false; }
static pid_t xfork(){ pid_t p; int tries=0; while((p=fork())<0){ if(errno==EAGAIN||errno==ENOMEM){ if(++tries>2000){ incomplete("fork failed"); G->stop=1; endPath(1);} usleep(20000); } else die("fork"); } return p; }
// returns true for the side taken first (the negation of alt); the other side runs in another process or later, from a checkpoint
static bool doFork(const char*site,Expr*alt){
  checkDeadline(); G->forks++; if(verbose) bump(G->site,G->nsite,whereami().c_str()); (void)site; depth++;
  flushStats();
  if(takeToken()){ // hand the oldest pending work (or this branch) to another process
    pid_t p=xfork();
    if(p==0){ ownToken=true; nexbase=nexpr; G->procs++; armAlarm(); if(cks.empty()) return true; while(cks.size()>1) restore(); throw Backtrack(); }
    if(cks.empty()) return false;
    cks.erase(cks.begin()); if(cks.empty()){ curEp=0; klogging=false; klog.clear(); }
  } else if(nexpr-nexbase>NEXMAX||heavy()){ pid_t p=xfork(); if(p==0){ ownToken=false; nexbase=nexpr; G->procs++; armAlarm(); if(!cks.empty()) freshSolver(); cks.clear(); curEp=0; klogging=false; klog.clear(); return true; }
    int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} if(!(WIFEXITED(st)&&WEXITSTATUS(st)==0)){ char b[64]; snprintf(b,64,"engine process died status %d",st); incomplete(b);} checkDeadline(); return false; }
  auto c=std::make_unique<Ckpt>(); c->fr=fr; c->fr.back().ip-=ipadj; c->regs.assign(regs,regs+regtop); c->regtop=regtop; c->stkp=stkp; c->uidc=uidc; if(!hsnap) hsnap=std::make_shared<Heap>(HP); c->heap=hsnap; c->npath=pathc.size(); c->nklog=klog.size(); c->nvars=zvars.size(); c->nin=inputs.size(); c->nobs=observed.size(); c->hdone=hdone; c->wit=witness; c->done=doneFlag; c->depth=depth; c->steps=steps; c->alt=alt; c->ep=++epc; curEp=c->ep; klogging=true;
  Z3_solver_push(Z,SV); cks.push_back(std::move(c)); return true; }

static Val binop(int op,int w,Val a,Val b){ return S(mkBin(op,X(a,w),X(b,w))); }
static const int xop[]={X_ADD,X_SUB,X_MUL,X_UDIV,X_SDIV,X_UREM,X_SREM,X_AND,X_OR,X_XOR,X_SHL,X_LSHR,X_ASHR};
static int fcmp(int p,double a,double b){ bool u=std::isnan(a)||std::isnan(b); switch(p){ case LLVMRealPredicateFalse: return 0; case LLVMRealOEQ: return !u&&a==b; case LLVMRealOGT: return !u&&a>b; case LLVMRealOGE: return !u&&a>=b; case LLVMRealOLT: return !u&&a<b; case LLVMRealOLE: return !u&&a<=b; case LLVMRealONE: return !u&&a!=b; case LLVMRealORD: return !u; case LLVMRealUNO: return u; case LLVMRealUEQ: return u||a==b; case LLVMRealUGT: return u||a>b; case LLVMRealUGE: return u||a>=b; case LLVMRealULT: return u||a<b; case LLVMRealULE: return u||a<=b; case LLVMRealUNE: return u||a!=b; default: return 1; } }
// ---- IEEE doubles as bit vectors: comparison, conversion to and from integers, rounding to an integral value
static Expr* BK(u64 v){ return K(64,v); }
static Expr* b2(int op,Expr*a,Expr*b){ return mkBin(op,a,b); }
static Expr* bNot(Expr*a){ return mkBin(X_XOR,a,K(1,1)); }
static Expr* fcmpE(int p,Expr*a,Expr*b){
  if(p==LLVMRealPredicateFalse) return K(1,0); if(p==LLVMRealPredicateTrue) return K(1,1);
  Expr*MM=BK(0x7fffffffffffffffull),*INF=BK(0x7ff0000000000000ull),*ma=b2(X_AND,a,MM),*mb=b2(X_AND,b,MM);
  Expr*un=b2(X_OR,mkCmp(X_ULT,INF,ma),mkCmp(X_ULT,INF,mb)),*bz=mkCmp(X_EQ,b2(X_OR,ma,mb),BK(0)),*eq=b2(X_OR,mkCmp(X_EQ,a,b),bz);
  auto key=[&](Expr*x){ return b2(X_XOR,x,b2(X_OR,b2(X_ASHR,x,BK(63)),BK(1ull<<63))); };
  Expr*lt=b2(X_AND,mkCmp(X_ULT,key(a),key(b)),bNot(bz)),*gt=b2(X_AND,mkCmp(X_ULT,key(b),key(a)),bNot(bz)),*r;
  switch(p){ case LLVMRealOEQ: case LLVMRealUEQ: r=eq; break; case LLVMRealONE: case LLVMRealUNE: r=bNot(eq); break; case LLVMRealOLT: case LLVMRealULT: r=lt; break; case LLVMRealOGT: case LLVMRealUGT: r=gt; break;
    case LLVMRealOLE: case LLVMRealULE: r=b2(X_OR,lt,eq); break; case LLVMRealOGE: case LLVMRealUGE: r=b2(X_OR,gt,eq); break; case LLVMRealORD: return bNot(un); default: return un; }
  if(p>=LLVMRealOEQ&&p<=LLVMRealONE) return b2(X_AND,r,bNot(un)); return b2(X_OR,r,un); }
static Expr* fexp(Expr*a){ return b2(X_AND,b2(X_LSHR,a,BK(52)),BK(0x7ff)); }
static Expr* fptosiE(Expr*a,int w){ Expr*e=fexp(a),*m=b2(X_OR,b2(X_AND,a,BK((1ull<<52)-1)),BK(1ull<<52));
  Expr*l=b2(X_SHL,m,b2(X_SUB,e,BK(1075))),*r=b2(X_LSHR,m,b2(X_SUB,BK(1075),e));
  Expr*v=mkIte(mkCmp(X_ULT,e,BK(1023)),BK(0),mkIte(mkCmp(X_ULT,e,BK(1075)),mkIte(mkCmp(X_ULT,e,BK(1023)),BK(0),r),mkIte(mkCmp(X_ULT,e,BK(1086)),l,BK(1ull<<63))));
  v=mkIte(mkCmp(X_SLT,a,BK(0)),b2(X_SUB,BK(0),v),v);
  if(w==64) return v; if(w>32) return mkExtract(v,0,w);
  Expr*ok=b2(X_AND,mkCmp(X_SLE,BK((u64)(i64)INT32_MIN),v),mkCmp(X_SLE,v,BK(INT32_MAX))); v=mkIte(ok,v,BK((u64)(i64)INT32_MIN)); return mkExtract(v,0,w); }
static Expr* sitofpE(Expr*a){ Expr*neg=mkCmp(X_SLT,a,BK(0)),*u=mkIte(neg,b2(X_SUB,BK(0),a),a),*m=u,*ex=BK(1023+63);
  for(int k=32;k;k>>=1){ Expr*c=mkCmp(X_ULT,m,BK(1ull<<(64-k))); m=mkIte(c,b2(X_SHL,m,BK(k)),m); ex=mkIte(c,b2(X_SUB,ex,BK(k)),ex); }
  Expr*q=b2(X_LSHR,m,BK(11)),*rem=b2(X_AND,m,BK(0x7ff)),*up=b2(X_OR,mkCmp(X_ULT,BK(0x400),rem),b2(X_AND,mkCmp(X_EQ,rem,BK(0x400)),mkCmp(X_EQ,b2(X_AND,q,BK(1)),BK(1))));
  Expr*r=b2(X_ADD,b2(X_SHL,b2(X_SUB,ex,BK(1)),BK(52)),b2(X_ADD,q,mkIte(up,BK(1),BK(0))));
  r=mkIte(neg,b2(X_OR,r,BK(1ull<<63)),r); return mkIte(mkCmp(X_EQ,u,BK(0)),BK(0),r); }
// x + y, rounded to nearest even
static Expr* faddE(Expr*x,Expr*y){ Expr*M63=BK(~(1ull<<63)),*fm=BK((1ull<<52)-1),*sw=mkCmp(X_ULT,b2(X_AND,x,M63),b2(X_AND,y,M63));
  Expr*p=mkIte(sw,y,x),*q=mkIte(sw,x,y); // |p| >= |q|
  Expr*ep=fexp(p),*eq=fexp(q),*sp=b2(X_AND,p,BK(1ull<<63)),*sq=b2(X_AND,q,BK(1ull<<63)),*sub=bNot(mkCmp(X_EQ,sp,sq));
  auto man=[&](Expr*v,Expr*e){ return b2(X_SHL,b2(X_OR,b2(X_AND,v,fm),mkIte(mkCmp(X_EQ,e,BK(0)),BK(0),BK(1ull<<52))),BK(3)); };
  Expr*mp=man(p,ep),*mq=man(q,eq),*e1=mkIte(mkCmp(X_EQ,ep,BK(0)),BK(1),ep),*e2=mkIte(mkCmp(X_EQ,eq,BK(0)),BK(1),eq),*d=b2(X_SUB,e1,e2),*far=mkCmp(X_ULT,BK(57),d),*dd=mkIte(far,BK(57),d);
  Expr*sh=b2(X_LSHR,mq,dd),*lost=bNot(mkCmp(X_EQ,b2(X_SHL,sh,dd),mq)); sh=b2(X_OR,sh,mkIte(lost,BK(1),BK(0)));
  Expr*r=mkIte(sub,b2(X_SUB,mp,sh),b2(X_ADD,mp,sh)),*zero=mkCmp(X_EQ,r,BK(0)),*e=e1;
  Expr*over=bNot(mkCmp(X_ULT,r,BK(1ull<<56))); r=mkIte(over,b2(X_OR,b2(X_LSHR,r,BK(1)),b2(X_AND,r,BK(1))),r); e=mkIte(over,b2(X_ADD,e,BK(1)),e);
  for(int k=32;k;k>>=1){ Expr*c=b2(X_AND,mkCmp(X_ULT,r,BK(1ull<<(56-k))),mkCmp(X_ULT,BK(k),e)); r=mkIte(c,b2(X_SHL,r,BK(k)),r); e=mkIte(c,b2(X_SUB,e,BK(k)),e); }
  Expr*g=b2(X_AND,r,BK(7)); r=b2(X_LSHR,r,BK(3)); Expr*up=b2(X_OR,mkCmp(X_ULT,BK(4),g),b2(X_AND,mkCmp(X_EQ,g,BK(4)),mkCmp(X_EQ,b2(X_AND,r,BK(1)),BK(1))));
  r=b2(X_ADD,r,mkIte(up,BK(1),BK(0))); r=b2(X_ADD,b2(X_SHL,b2(X_SUB,e,BK(1)),BK(52)),r);
  Expr*INF=BK(0x7ff0000000000000ull); r=mkIte(mkCmp(X_ULT,r,INF),r,INF); r=b2(X_OR,r,sp);
  r=mkIte(zero,b2(X_AND,sp,sq),r);
  Expr*nan=b2(X_OR,mkCmp(X_ULT,INF,b2(X_AND,p,M63)),b2(X_AND,mkCmp(X_EQ,b2(X_AND,q,M63),INF),sub));
  r=mkIte(mkCmp(X_EQ,b2(X_AND,p,M63),INF),p,r); return mkIte(nan,BK(0x7ff8000000000000ull),r); }
// x * 2^k (k a constant), where x is zero or neither x nor the result is out of the normal range
static Expr* fscaleOk(Expr*x,int k){ Expr*e=fexp(x),*ek=b2(X_ADD,e,BK((u64)(i64)k)); return b2(X_OR,mkCmp(X_EQ,b2(X_AND,x,BK(~(1ull<<63))),BK(0)),b2(X_AND,b2(X_AND,mkCmp(X_ULT,BK(0),e),mkCmp(X_ULT,e,BK(2047))),b2(X_AND,mkCmp(X_SLT,BK(0),ek),mkCmp(X_SLT,ek,BK(2047))))); }
static Expr* fscaleE(Expr*x,int k,bool neg){ Expr*r=mkIte(mkCmp(X_EQ,b2(X_AND,x,BK(~(1ull<<63))),BK(0)),x,b2(X_ADD,x,BK((u64)(i64)k<<52))); return neg?b2(X_XOR,r,BK(1ull<<63)):r; }
static bool farith(int op,Val a,Val b,Val&r);
// mode 0 nearest even, 1 floor, 2 ceil, 3 trunc
static Expr* froundE(Expr*a,int mode){ Expr*e=fexp(a),*sg=b2(X_AND,a,BK(1ull<<63)),*neg=mkCmp(X_SLT,a,BK(0)),*mag=b2(X_AND,a,BK(~(1ull<<63)));
  Expr*s=b2(X_SUB,BK(1075),e),*one=b2(X_SHL,BK(1),s),*half=b2(X_SHL,BK(1),b2(X_SUB,s,BK(1))),*keep=b2(X_XOR,b2(X_SUB,one,BK(1)),BK(~0ull));
  Expr*ONE=BK(0x3ff0000000000000ull),*big,*small,*zero=mkCmp(X_EQ,mag,BK(0));
  if(mode==0){ Expr*od=b2(X_AND,b2(X_LSHR,a,s),BK(1)); big=b2(X_AND,b2(X_ADD,a,b2(X_ADD,b2(X_SUB,half,BK(1)),od)),keep); small=mkIte(mkCmp(X_ULT,BK(0x3fe0000000000000ull),mag),ONE,BK(0)); }
  else { Expr*t=b2(X_AND,a,keep),*fr=bNot(mkCmp(X_EQ,t,a)),*adj= mode==1?b2(X_AND,neg,fr): mode==2?b2(X_AND,bNot(neg),fr):K(1,0); big=mkIte(adj,b2(X_ADD,t,one),t);
    Expr*sa= mode==1?neg: mode==2?bNot(neg):K(1,0); small=mkIte(b2(X_AND,sa,bNot(zero)),ONE,BK(0)); }
  return mkIte(mkCmp(X_ULT,e,BK(1023)),b2(X_OR,small,sg),mkIte(mkCmp(X_ULT,e,BK(1075)),big,a)); }
static bool froundS(double(*fn)(double),Val a,Val&r){ if(!a.e) return false; int m= fn==(double(*)(double))rint||fn==(double(*)(double))nearbyint?0: fn==(double(*)(double))floor?1: fn==(double(*)(double))ceil?2: fn==(double(*)(double))trunc?3: fn==(double(*)(double))fabs?9:-1;
  if(m<0) return false; r= m==9? S(mkBin(X_AND,a.e,K(64,~(1ull<<63)))):S(froundE(a.e,m)); return true; }
static Val intr(Insn*I,Val a,Val b,Val c,Val*d2);
static bool farith(int op,Val a,Val b,Val&r){ if(!a.e&&!b.e) return false;
  if(op==Q_FADD||op==Q_FSUB){ Expr*y=X(b,64); if(op==Q_FSUB) y=b2(X_XOR,y,BK(1ull<<63)); r=S(faddE(X(a,64),y)); return true; }
  if(op==Q_FMUL&&!a.e) std::swap(a,b);
  if((op==Q_FMUL||op==Q_FDIV)&&a.e&&!b.e&&(b.c&((1ull<<52)-1))==0){ int k=(int)(b.c>>52&0x7ff)-1023; if(k<=-1023||k>=1024) return false; if(op==Q_FDIV) k=-k; if(!decide(fscaleOk(a.e,k))) return false; r=S(fscaleE(a.e,k,b.c>>63)); return true; }
  return false; }

static void run(size_t stopDepth){
  static Val tmp[4096];
 reload:
  { if(fr.size()<=stopDepth) return; Frame*f=&fr.back(); Func*fn=f->f; Val*R=f->R; const Val*Cn=fn->cst.data(); Insn*code=fn->code.data(); int ip=f->ip; u64 cnt=0;
#define V(x) ((x)>=0?R[x]:Cn[~(x)])
#define SYNC (f->ip=ip)
#define GOEDGE(k) do{ Edge&e_=fn->edges[k]; int np_=e_.np; auto*ph_=&fn->phis[e_.phi]; if(np_==1){ R[ph_[0].first]=V(ph_[0].second);} else if(np_){ for(int q_=0;q_<np_;q_++) tmp[q_]=V(ph_[q_].second); for(int q_=0;q_<np_;q_++) R[ph_[q_].first]=tmp[q_]; } ip=e_.tgt; }while(0)
    for(;;){ Insn*I=&code[ip]; cnt++;
      switch(I->op){
#define ARITH(OPN,XO,CE) case OPN: { Val a=V(I->a),b=V(I->b); if(!a.e&&!b.e) R[I->d]=C((CE)&I->mask); else R[I->d]=binop(XO,I->w,a,b); ip++; break; }
      ARITH(Q_ADD,X_ADD,a.c+b.c) ARITH(Q_SUB,X_SUB,a.c-b.c) ARITH(Q_MUL,X_MUL,a.c*b.c) ARITH(Q_AND,X_AND,a.c&b.c) ARITH(Q_OR,X_OR,a.c|b.c) ARITH(Q_XOR,X_XOR,a.c^b.c)
      case Q_SHL: case Q_LSHR: case Q_ASHR: { Val a=V(I->a),b=V(I->b); int x=xop[I->op-Q_ADD]; if(!a.e&&!b.e) R[I->d]=C(foldbin(x,I->w,a.c,I->w==64? (b.c&63):b.c)); else { if(b.e&&I->w>=32) b=S(mkBin(X_AND,b.e,K(I->w,I->w-1))); else if(!b.e&&I->w>=32) b=C(b.c&(I->w-1)); R[I->d]=binop(x,I->w,a,b);} ip++; break; }
      case Q_UDIV: case Q_SDIV: case Q_UREM: case Q_SREM: { Val a=V(I->a),b=V(I->b); int x=xop[I->op-Q_ADD]; SYNC; if(b.e){ if(decide(mkCmp(X_EQ,b.e,K(I->w,0)))) crash("division by zero in %s",fn->name.c_str()); } else if((b.c&I->mask)==0) crash("division by zero in %s",fn->name.c_str());
          if(I->op==Q_SDIV||I->op==Q_SREM){ if(a.e||b.e){ Expr*ov=mkBin(X_AND,mkCmp(X_EQ,X(b,I->w),K(I->w,I->mask)),mkCmp(X_EQ,X(a,I->w),K(I->w,1ull<<(I->w-1)))); if(I->w>=32&&decide(ov)) crash("SIGFPE (INT_MIN / -1) in %s",fn->name.c_str()); } else if(I->w>=32&&(b.c&I->mask)==I->mask&&(a.c&I->mask)==(1ull<<(I->w-1))) crash("SIGFPE (INT_MIN / -1) in %s",fn->name.c_str()); }
          if(!a.e&&!b.e) R[I->d]=C(foldbin(x,I->w,a.c,b.c)); else R[I->d]=binop(x,I->w,a,b); ip++; break; }
#define CMP(OPN,XO,CE) case OPN: { Val a=V(I->a),b=V(I->b); if(!a.e&&!b.e) R[I->d]=C(CE); else R[I->d]=S(mkCmp(XO,X(a,I->w),X(b,I->w))); ip++; break; }
      CMP(Q_EQ,X_EQ,a.c==b.c) CMP(Q_ULT,X_ULT,a.c<b.c) CMP(Q_ULE,X_ULE,a.c<=b.c)
      case Q_NE: { Val a=V(I->a),b=V(I->b); if(!a.e&&!b.e) R[I->d]=C(a.c!=b.c); else R[I->d]=S(mkNot(mkCmp(X_EQ,X(a,I->w),X(b,I->w)))); ip++; break; }
      case Q_SLT: { Val a=V(I->a),b=V(I->b); if(!a.e&&!b.e) R[I->d]=C(sx(a.c,I->w)<sx(b.c,I->w)); else R[I->d]=S(mkCmp(X_SLT,X(a,I->w),X(b,I->w))); ip++; break; }
      case Q_SLE: { Val a=V(I->a),b=V(I->b); if(!a.e&&!b.e) R[I->d]=C(sx(a.c,I->w)<=sx(b.c,I->w)); else R[I->d]=S(mkCmp(X_SLE,X(a,I->w),X(b,I->w))); ip++; break; }
      case Q_TRUNC: { Val a=V(I->a); R[I->d]= a.e? S(mkExtract(a.e,0,I->w)):C(a.c&I->mask); ip++; break; }
      case Q_ZEXT: { Val a=V(I->a); R[I->d]= a.e? S(mkZext(a.e,I->w)):a; ip++; break; }
      case Q_SEXT: { Val a=V(I->a); R[I->d]= a.e? S(mkSext(a.e,I->w)):C((u64)sx(a.c,I->w2)&I->mask); ip++; break; }
      case Q_MOV: R[I->d]=V(I->a); ip++; break;
      case Q_SEL: { Val c=V(I->a); if(c.e){ auto kn=known.find(c.e); if(kn!=known.end()) c=C(kn->second); } if(!c.e) R[I->d]= (c.c&1)? V(I->b):V(I->c); else { Val a=V(I->b),b=V(I->c); R[I->d]=S(kIte(c.e,X(a,I->w),X(b,I->w))); } ip++; break; }
      case Q_LOAD: { Val p=V(I->a); if(!p.e){ u64 a=p.c+I->imm; if(I->n==8&&a-ARENA<ASIZE-8){ u64 s; memcpy(&s,(void*)(a+SHOFF),8); if(s==ONES){ R[I->d]=C(*(u64*)a); ip++; break; } } SYNC; R[I->d]=loadC(a,I->n,I->w); } else { SYNC; if(I->imm) p=S(mkBin(X_ADD,p.e,K(64,I->imm))); Val r=load(p,I->n,I->w); R[I->d]=r; } ip++; break; }
      case Q_STORE: { Val p=V(I->a),v=V(I->b); if(!p.e){ SYNC; storeC(p.c+I->imm,I->n,I->w,v);} else { SYNC; if(I->imm) p=S(mkBin(X_ADD,p.e,K(64,I->imm))); store(p,I->n,I->w,v);} ip++; break; }
      case Q_GEP: { Val p=V(I->a); if(I->n==0){ R[I->d]= p.e? S(mkBin(X_ADD,p.e,K(64,I->imm))):C(p.c+I->imm); }
          else { auto&g=fn->geps[I->b]; Val acc= p; if(I->imm) acc= p.e? S(mkBin(X_ADD,p.e,K(64,I->imm))):C(p.c+I->imm); for(auto&t:g){ Val x=V(t.v); if(!x.e&&!acc.e) acc.c+=(u64)(sx(x.c,t.w)*(i64)t.sc); else { Expr*e=mkSext(X(x,t.w),64); if(t.sc!=1) e=mkBin(X_MUL,e,K(64,t.sc)); acc=S(mkBin(X_ADD,X(acc,64),e)); } } R[I->d]=acc; } ip++; break; }
      case Q_ALLOCA: { Val n=V(I->a); SYNC; u64 k=conc(n); R[I->d]=C(salloc(I->imm*k)); ip++; break; }
      case Q_FADD: case Q_FSUB: case Q_FMUL: case Q_FDIV: case Q_FREM: { SYNC; { Val fr; if(I->w==64&&farith(I->op,V(I->a),V(I->b),fr)){ R[I->d]=fr; ip++; break; } } u64 x=fpv(V(I->a),I->w),y=fpv(V(I->b),I->w); if(I->w==64){ double a=asd(x),b=asd(y),r; switch(I->op){ case Q_FADD:r=a+b;break; case Q_FSUB:r=a-b;break; case Q_FMUL:r=a*b;break; case Q_FDIV:r=a/b;break; default:r=fmod(a,b);} R[I->d]=C(asu(r)); } else { float a=asf(x),b=asf(y),r; switch(I->op){ case Q_FADD:r=a+b;break; case Q_FSUB:r=a-b;break; case Q_FMUL:r=a*b;break; case Q_FDIV:r=a/b;break; default:r=fmodf(a,b);} R[I->d]=C(asfu(r)); } ip++; break; }
      case Q_FNEG: { SYNC; Val a=V(I->a); R[I->d]= a.e? S(mkBin(X_XOR,a.e,K(I->w,1ull<<(I->w-1)))):C(a.c^(1ull<<(I->w-1))); ip++; break; }
      case Q_FCMP: { SYNC; if(I->w==64&&(V(I->a).e||V(I->b).e)){ R[I->d]=S(fcmpE(I->imm,X(V(I->a),64),X(V(I->b),64))); ip++; break; } u64 x=fpv(V(I->a),I->w),y=fpv(V(I->b),I->w); R[I->d]=C(I->w==64? fcmp(I->imm,asd(x),asd(y)):fcmp(I->imm,asf(x),asf(y))); ip++; break; }
      case Q_SITOFP: { SYNC; if(I->w==64&&V(I->a).e){ R[I->d]=S(sitofpE(I->w2<64?mkSext(V(I->a).e,64):V(I->a).e)); ip++; break; } u64 x=fpv(V(I->a),I->w2); i64 s=sx(x,I->w2); R[I->d]=C(I->w==64?asu((double)s):asfu((float)s)); ip++; break; }
      case Q_UITOFP: { SYNC; u64 x=fpv(V(I->a),I->w2); R[I->d]=C(I->w==64?asu((double)x):asfu((float)x)); ip++; break; }
      case Q_FPTOSI: case Q_FPTOUI: { SYNC; if(I->op==Q_FPTOSI&&I->w2==64&&V(I->a).e){ R[I->d]=S(fptosiE(V(I->a).e,I->w)); ip++; break; } u64 x=fpv(V(I->a),I->w2); double dd= I->w2==64?asd(x):asf(x); u64 r; if(I->op==Q_FPTOSI){ if(I->w<=32){ volatile double q=dd; r=(u64)(i64)(int)q; } else { volatile double q=dd; r=(u64)(i64)q; } } else { volatile double q=dd; r=(u64)q; } R[I->d]=C(r&I->mask); ip++; break; }
      case Q_FPEXT: { SYNC; u64 x=fpv(V(I->a),32); R[I->d]=C(asu((double)asf(x))); ip++; break; }
      case Q_FPTRUNC: { SYNC; u64 x=fpv(V(I->a),64); R[I->d]=C(asfu((float)asd(x))); ip++; break; }
      case Q_BR: GOEDGE(I->b); break;
      case Q_CBR: { Val c=V(I->a); bool t; if(!c.e) t=c.c&1; else { SYNC; t=decide(c.e); } GOEDGE(t?I->b:I->c); if(__builtin_expect(cnt>100000,0)){ localinsn+=cnt; steps+=cnt; cnt=0; if(steps>maxsteps){ SYNC; violation("hang","step limit exceeded",nullptr); endPath(1);} if(G->stop||now()>deadline) checkDeadline(); } break; }
      case Q_SWITCH: { Sw&s=fn->sws[I->a]; Val v=V(s.v); int e=s.def; if(!v.e){ for(size_t q=0;q<s.k.size();q++) if(s.k[q]==v.c){ e=s.e[q]; break; } }
          else { SYNC; // group cases by target
            std::map<int,Expr*> grp; Expr*any=K(1,0); for(size_t q=0;q<s.k.size();q++){ Expr*c=mkCmp(X_EQ,v.e,K(I->w,s.k[q])); any=mkBin(X_OR,any,c); int tg=fn->edges[s.e[q]].tgt; bool sameph=fn->edges[s.e[q]].np==0; int key= sameph? tg : (1<<28)+s.e[q]; auto it=grp.find(key); if(it==grp.end()) grp[key]=c; else it->second=mkBin(X_OR,it->second,c); }
            bool got=false; for(;;){ // try the witness's group first
              u64 wv=evalx(v.e); int qi=-1; for(size_t q=0;q<s.k.size();q++) if(s.k[q]==wv){ qi=q; break; }
              Expr*c; int ee; if(qi<0){ c=mkNot(any); ee=s.def; } else { ee=s.e[qi]; int key= fn->edges[ee].np==0? fn->edges[ee].tgt:(1<<28)+ee; c=grp[key]; }
              vector<u64> m; int r= isK(c)? (c->c?0:1) : solve(mkNot(c),m); if(r==0){ e=ee; got=true; break; } if(r<0){ incomplete("solver unknown at switch"); addc(c); e=ee; got=true; break; }
              if(doFork("sw",c)){ addc(mkNot(c)); setWitness(m); continue; } addc(c); e=ee; got=true; break; } (void)got; }
          GOEDGE(e); break; }
      case Q_IBR: { Val v=V(I->a); u64 a; if(v.e){ SYNC; a=concretize(v.e,4096); concFrame(); } else a=v.c; auto&m=fn->ibrs[I->b].m; auto it=m.find(a); if(it==m.end()){ SYNC; crash("wild indirect jump to 0x%lx in %s",(unsigned long)a,fn->name.c_str()); } GOEDGE(it->second); if(__builtin_expect(cnt>100000,0)){ localinsn+=cnt; steps+=cnt; cnt=0; if(steps>maxsteps){ SYNC; violation("hang","step limit exceeded",nullptr); endPath(1);} if(G->stop||now()>deadline) checkDeadline(); } break; }
      case Q_UNREACH: SYNC; if(I->n==1) unsup("instruction %s",(char*)I->imm); crash("unreachable executed in %s",fn->name.c_str()); break;
      case Q_RET: { auto&rs=fn->rets[I->a]; Val rv[8]; int n=rs.size(); for(int q=0;q<n;q++) rv[q]=V(rs[q]); int rd=f->retd,nr=f->nret; localinsn+=cnt; steps+=cnt; unwindTo(fr.size()-1); if(fr.size()>stopDepth&&nr){ Frame&g=fr.back(); for(int q=0;q<nr&&q<n;q++) g.R[rd+q]=rv[q]; } goto reload; }
      case Q_INTR: { SYNC; Val d2=C(0); Val r=intr(I,V(I->a),V(I->b),V(I->c),&d2); if(I->d>=0){ R[I->d]=r; if(I->n>=I_SADDO&&I->n<=I_UMULO) R[I->d+1]=d2; } ip++; break; }
      case Q_CALL: case Q_ICALL: { CallInfo&ci=fn->calls[I->a]; SYNC; Func*t=ci.f; if(!t){ Val cv=V(ci.callee); u64 a= cv.e? concretize(cv.e,4096):cv.c; u64 ix=(a-FNBASE)/16; if(a<FNBASE||a%16||ix>=funcs.size()) crash("call through bad pointer 0x%lx in %s",(unsigned long)a,fn->name.c_str()); t=funcs[ix]; }
          Val A[64]; u8 aw[64]; int na=ci.args.size(); if(na>64) unsup("too many args"); for(int q=0;q<na;q++){ A[q]=V(ci.args[q].first); aw[q]=ci.args[q].second; }
          if(t->def){ f->ip=ip+1; localinsn+=cnt; steps+=cnt; 
            // K&R mismatches: adapt widths
            pushFrame(t,A,aw,na,I->d,ci.nret); Frame&nf=fr.back(); for(int q=0;q<t->nargs&&q<na;q++) if(t->argw[q]!=aw[q]){ Val&v=nf.R[q]; if(t->argw[q]<aw[q]) v= v.e? S(mkExtract(v.e,0,t->argw[q])):C(v.c&maskw(t->argw[q])); else if(v.e) v=S(mkZext(v.e,t->argw[q])); }
            goto reload; }
          f->ip=ip+1; Val r=C(0); size_t dd=fr.size(); localinsn+=cnt; steps+=cnt; cnt=0; ipadj=1; bool same=native(t,A,aw,na,I->d,r); ipadj=0; if(!same) goto reload; (void)dd; if(ci.nret){ if(I->w<64) r= r.e? (r.e->w>I->w? S(mkExtract(r.e,0,I->w)):r):C(r.c&I->mask); R[I->d]=r; } ip=ip+1; break; }
      } } }
}

static Val intr(Insn*I,Val a,Val b,Val c,Val*d2){
  int w=I->w;
  switch(I->n){
  case I_MEMCPY: { u64 n=conc(c),d=conc(a),s=conc(b); xcopy(d,s,n); return C(0); }
  case I_MEMSET: { u64 n=conc(c),d=conc(a); xset(d,b,n); return C(0); }
  case I_VASTART: { u64 ap=conc(a); storeC(ap,4,32,C(48)); storeC(ap+4,4,32,C(304)); storeC(ap+8,8,64,C(fr.back().va)); storeC(ap+16,8,64,C(fr.back().va)); return C(0); }
  case I_VACOPY: xcopy(conc(a),conc(b),24); return C(0);
  case I_UMAX: return S(kIte(mkCmp(X_ULT,X(a,w),X(b,w)),X(b,w),X(a,w)));
  case I_UMIN: return S(kIte(mkCmp(X_ULT,X(a,w),X(b,w)),X(a,w),X(b,w)));
  case I_SMAX: return S(kIte(mkCmp(X_SLT,X(a,w),X(b,w)),X(b,w),X(a,w)));
  case I_SMIN: return S(kIte(mkCmp(X_SLT,X(a,w),X(b,w)),X(a,w),X(b,w)));
  case I_ABS: { Expr*x=X(a,w); return S(kIte(mkCmp(X_SLT,x,K(w,0)),mkBin(X_SUB,K(w,0),x),x)); }
  case I_CTPOP: if(!a.e) return C(__builtin_popcountll(a.c)); { Expr*r=K(w,0); for(int i=0;i<w;i++) r=mkBin(X_ADD,r,mkZext(mkExtract(a.e,i,1),w)); return S(r);} 
  case I_CTLZ: if(!a.e) return C(a.c? __builtin_clzll(a.c)-(64-w):w); { Expr*r=K(w,w); for(int i=0;i<w;i++) r=kIte(mkExtract(a.e,i,1),K(w,w-1-i),r); return S(r);} 
  case I_CTTZ: if(!a.e) return C(a.c? __builtin_ctzll(a.c):w); { Expr*r=K(w,w); for(int i=w-1;i>=0;i--) r=kIte(mkExtract(a.e,i,1),K(w,i),r); return S(r);} 
  case I_BSWAP: { Expr*x=X(a,w); Expr*r=mkExtract(x,0,8); for(int i=8;i<w;i+=8) r=mkConcat(r,mkExtract(x,i,8)); return S(r); }
  case I_FSHL: case I_FSHR: { Expr*x=X(a,w),*y=X(b,w),*s=mkBin(X_UREM,X(c,w),K(w,w)); if(I->n==I_FSHL){ Expr*hi=mkBin(X_SHL,x,s),*lo=mkBin(X_LSHR,y,mkBin(X_SUB,K(w,w),s)); return S(kIte(mkCmp(X_EQ,s,K(w,0)),x,mkBin(X_OR,hi,lo))); } Expr*lo=mkBin(X_LSHR,y,s),*hi=mkBin(X_SHL,x,mkBin(X_SUB,K(w,w),s)); return S(kIte(mkCmp(X_EQ,s,K(w,0)),y,mkBin(X_OR,hi,lo))); }
  case I_SADDO: case I_SSUBO: { Expr*x=X(a,w),*y=X(b,w),*r=mkBin(I->n==I_SADDO?X_ADD:X_SUB,x,y); auto sg=[&](Expr*e){ return mkCmp(X_SLT,e,K(w,0)); }; Expr*sxx=sg(x),*sy=sg(y),*sr=sg(r); Expr*ov= I->n==I_SADDO? mkBin(X_AND,mkCmp(X_EQ,sxx,sy),mkNot(mkCmp(X_EQ,sr,sxx))) : mkBin(X_AND,mkNot(mkCmp(X_EQ,sxx,sy)),mkNot(mkCmp(X_EQ,sr,sxx))); *d2=S(ov); return S(r); }
  case I_UADDO: { Expr*x=X(a,w),*y=X(b,w),*r=mkBin(X_ADD,x,y); *d2=S(mkCmp(X_ULT,r,x)); return S(r); }
  case I_USUBO: { Expr*x=X(a,w),*y=X(b,w); *d2=S(mkCmp(X_ULT,x,y)); return S(mkBin(X_SUB,x,y)); }
  case I_SMULO: case I_UMULO: { if(!a.e&&!b.e){ if(I->n==I_UMULO){ unsigned __int128 p=(unsigned __int128)a.c*b.c; *d2=C((p>>w)!=0); return C((u64)p&maskw(w)); } __int128 p=(__int128)sx(a.c,w)*sx(b.c,w); u64 lo=(u64)p&maskw(w); *d2=C((__int128)sx(lo,w)!=p); return C(lo); }
      Expr*x=X(a,w),*y=X(b,w); int need= I->n==I_SMULO? (w-x->sb+1)+(w-y->sb+1) : 2*w; 
      if(need<=w){ *d2=C(0); return S(mkBin(X_MUL,x,y)); }
      if(2*w<=64){ Expr*p= I->n==I_SMULO? mkBin(X_MUL,mkSext(x,2*w),mkSext(y,2*w)):mkBin(X_MUL,mkZext(x,2*w),mkZext(y,2*w)); Expr*r=mkExtract(p,0,w); *d2=S(mkNot(mkCmp(X_EQ,p,I->n==I_SMULO?mkSext(r,2*w):mkZext(r,2*w)))); return S(r); }
      // 64-bit: overflow via division
      Expr*r=mkBin(X_MUL,x,y); Expr*z=mkCmp(X_EQ,x,K(w,0)); Expr*ov; if(I->n==I_UMULO) ov=mkBin(X_AND,mkNot(z),mkNot(mkCmp(X_EQ,mkBin(X_UDIV,r,x),y))); else { Expr*m1x=mkCmp(X_EQ,x,K(w,maskw(w))); Expr*mn=mkCmp(X_EQ,y,K(w,1ull<<(w-1))); ov=mkBin(X_AND,mkNot(z),kIte(m1x,mn,mkNot(mkCmp(X_EQ,mkBin(X_SDIV,r,x),y)))); } *d2=S(ov); return S(r); }
  case I_USUBSAT: { Expr*x=X(a,w),*y=X(b,w); return S(kIte(mkCmp(X_ULT,x,y),K(w,0),mkBin(X_SUB,x,y))); }
  case I_UADDSAT: { Expr*x=X(a,w),*y=X(b,w),*r=mkBin(X_ADD,x,y); return S(kIte(mkCmp(X_ULT,r,x),K(w,maskw(w)),r)); }
  case I_EXPECT: return a;
  case I_OBJSIZE: return C(~0ull);
  case I_STKSAVE: return C(stkp); case I_STKREST: return C(0);
  case I_ISCONST: return C(0);
  case I_TRAP: crash("trap");
  case I_M1: { Val rr; if(w==64&&froundS((double(*)(double))I->imm,a,rr)) return rr; u64 x=fpv(a,64); double(*fn)(double)=(double(*)(double))I->imm; if(w==32) return C(asfu((float)fn(asf(x)))); return C(asu(fn(asd(x)))); }
  case I_FMULADD: return C(asu(asd(fpv(a,64))*asd(fpv(b,64))+asd(fpv(c,64))));
  case I_COPYSIGN: return C(asu(copysign(asd(fpv(a,64)),asd(fpv(b,64)))));
  }
  unsup("intrinsic %d",I->n); }

static u64 hashObs(){ u64 h=1469598103934665603ull; for(auto&v:observed){ u64 x= v.e? evalx(v.e):v.c; for(int i=0;i<8;i++){ h^=(x>>(8*i))&255; h*=1099511628211ull; } } return h; }
static void sample(){ u64 h=seed*0x9e3779b97f4a7c15ull; for(auto&i:inputs){ h=hmix(h,i.e?evalx(i.e):i.c); } u64 k=G->samples.load(); if(k>=nsamples&&(h>>20)%64!=0) return; if(k>=nsamples*4) return; k=G->samples++; if(k>=nsamples*4) return;
  char fn[512],tmp[540]; snprintf(fn,512,"%s/sample.%lu",outdir.c_str(),(unsigned long)k); snprintf(tmp,540,"%s.tmp",fn); FILE*o=fopen(tmp,"w"); if(!o) return; fprintf(o,"obs %llx\nnobs %zu\ninputs %zu\n",(unsigned long long)hashObs(),observed.size(),inputs.size()); writeInputs(o,nullptr); fclose(o); rename(tmp,fn); }
[[noreturn]] static void pathDone(int code){ if(code!=0&&code!=-1){ char b[64]; snprintf(b,64,"exit code %d",code); violation("exit",b,nullptr); endPath(1);} if(code==0&&!doneFlag&&code!=-1){ violation("exit","terminated without completing the harness",nullptr); endPath(1);} sample(); endPath(0); }

static bool native(Func*f,const Val*A,const u8*aw,int na,int retd,Val&ret){
  switch(f->native){
  case N_malloc: ret=C(xmalloc(conc(A[0]))); return true;
  case N_calloc: { u64 n=conc(A[0])*conc(A[1]); u64 p=xmalloc(n); if(p) memset((void*)p,0,n); ret=C(p); return true; }
  case N_realloc: { u64 p=conc(A[0]),n=conc(A[1]); if(!p){ ret=C(xmalloc(n)); return true; } auto it=hsize.find(p); if(it==hsize.end()) crash("invalid realloc"); u64 o=it->second; u64 q=xmalloc(n); if(!q){ ret=C(0); return true;} xcopy(q,p,std::min(o,n)); xfree(p); ret=C(q); return true; }
  case N_free: xfree(conc(A[0])); return true;
  case N_memcpy: case N_memmove: { u64 n=conc(A[2]),d=conc(A[0]),s=conc(A[1]); xcopy(d,s,n); ret=C(d); return true; }
  case N_memset: { u64 n=conc(A[2]),d=conc(A[0]); xset(d,A[1],n); ret=C(d); return true; }
  case N_memcmp: { u64 n=conc(A[2]),p=conc(A[0]),q=conc(A[1]); if(n&&(!validr(p,n)||!validr(q,n))) crash("invalid read of %lu bytes (memcmp)",(unsigned long)n); if(!anysym(p,n)&&!anysym(q,n)){ int r=memcmp((void*)p,(void*)q,n); ret=C((u32)(r<0?-1:r>0)); return true; } Expr*r=K(32,0); for(i64 i=n-1;i>=0;i--){ Expr*x=byteAt(p+i),*y=byteAt(q+i); r=kIte(mkCmp(X_EQ,x,y),r,kIte(mkCmp(X_ULT,x,y),K(32,0xffffffffu),K(32,1))); } ret=S(r); return true; }
  case N_abort: crash("abort() called");
  case N_exit: pathDone((int)(u32)conc(A[0])&255);
  case N_kill: endPath(1);
  case N_setjmp: { u64 b=conc(A[0]); hsnap=nullptr; jmps[b]=JmpRec{fr.back().uid,(int)fr.size(),fr.back().ip,retd}; ret=C(0); return true; }
  case N_longjmp: { u64 b=conc(A[0]); Val v=A[1]; auto it=jmps.find(b); if(it==jmps.end()) crash("longjmp to uninitialised buffer"); JmpRec r=it->second; if((size_t)r.depth>fr.size()||fr[r.depth-1].uid!=r.uid) crash("longjmp to a dead frame"); unwindTo(r.depth); Frame&t=fr.back(); t.ip=r.ip; if(r.retd>=0) t.R[r.retd]= v.e? v : C(v.c?v.c&0xffffffff:1); return false; }
  case N_var: { int w=(int)conc(A[0]); Expr*e=newVar(w); ret=S(mkZext(e,64)); return true; }
  case N_varr: { int w=(int)conc(A[0]); u64 mx=conc(A[1]); varmax=mx; Expr*e=newVar(w); varmax=~0ull; if(mx<maskw(w)){ Expr*c=intern(X_XOR,1,intern(X_ULT,1,K(w,mx),e,0,0),K(1,1),0,0); addc(c); } ret=S(mkZext(e,64)); return true; }
  case N_input: inputs.push_back(Inp{A[0].e,A[0].c,64}); return true;
  case N_conc: ret= A[0].e? C(concretize(A[0].e)):A[0]; return true;
  case N_feasible: { vector<u64> m; Expr*c=X(A[0],64); c=mkNot(mkCmp(X_EQ,c,K(64,0))); if(isK(c)) ret=C(c->c); else ret=C(solve(c,m)!=0); return true; }
  case N_issym: ret=C(A[0].e!=nullptr); return true;
  case N_mulhi: { if(!A[0].e&&!A[1].e){ ret=C((u64)(((__int128)(i64)A[0].c*(i64)A[1].c)>>64)); return true; } Expr*x=X(A[0],64),*y=X(A[1],64); ret=S(mkMulHi(x,y)); return true; }
  case N_ite: { Expr*c=X(A[0],64); c=mkNot(mkCmp(X_EQ,c,K(64,0))); ret=S(kIte(c,X(A[1],64),X(A[2],64))); return true; }
  case N_assume: { Expr*c=X(A[0],64); c=mkNot(mkCmp(X_EQ,c,K(64,0))); if(isK(c)){ if(!c->c) endPath(1); return true; } auto it=known.find(c); if(it!=known.end()){ if(!it->second) endPath(1); return true; }
      if(evalx(c)){ addc(c); return true; } vector<u64> m; int r=solve(c,m); if(r==0) endPath(1); if(r<0){ incomplete("solver unknown at assume"); endPath(1);} addc(c); setWitness(m); return true; }
  case N_check: { string l=cstr(conc(A[1])); G->checks++; bump(G->lab,G->nlabel,l.c_str()); Expr*c=X(A[0],64); c=mkNot(mkCmp(X_EQ,c,K(64,0))); if(isK(c)){ if(!c->c){ violation("check",l.c_str(),nullptr); endPath(1);} return true; }
      G->checksym++; Expr*nc=mkNot(c); auto it=known.find(c); if(it!=known.end()&&it->second) return true;
      vector<u64> m; int r; if(!evalx(c)){ r=1; m=witness; } else r=solveZ(nc,m);
      if(r==0){ setKnown(c,true); setKnown(nc,false); return true; } if(r<0){ incomplete(("solver unknown at check "+l).c_str()); return true; }
      violation("check",l.c_str(),&m); if(!evalx(c)){ vector<u64> m2; if(solve(c,m2)!=1) endPath(1); setWitness(m2);} addc(c); return true; }
  case N_violate: { string l=cstr(conc(A[0])); violation("check",l.c_str(),nullptr); endPath(1); }
  case N_reach: { string l=cstr(conc(A[0])); bump(G->reach,G->nreach,l.c_str()); return true; }
  case N_done: doneFlag=true; return true;
  case N_valid: { u64 a=conc(A[0]),n=conc(A[1]),v=conc(A[2]); if(inA(a,n)){ touch(a,n); if(v){ memset(SH(a),1,n); } else memset(SH(a),0,n); } return true; }
  case N_isvalid: { ret=C(validr(conc(A[0]),conc(A[1]))); return true; }
  case N_hostload: { string p=cstr(conc(A[0])); int fd=open(p.c_str(),O_RDONLY); if(fd<0){ ret=C(0); return true; } struct stat st; fstat(fd,&st); if(!S_ISREG(st.st_mode)){ close(fd); ret=C(0); return true; } u64 b=xmalloc(st.st_size+1); u64 off=0; while(off<(u64)st.st_size){ ssize_t k=pread(fd,(void*)(b+off),st.st_size-off,off); if(k<=0) break; off+=k; } close(fd); storeC(conc(A[1]),8,64,C(st.st_size)); ret=C(b); return true; }
  case N_fmtd: { // __se_fmtd(buf,size,fmt,double)
      u64 buf=conc(A[0]),n=conc(A[1]); string fm=cstr(conc(A[2])); double d=asd(fpv(A[3],64)); char t[512]; int k=snprintf(t,512,fm.c_str(),d); if((u64)k+1>n) crash("fmtd overflow"); for(int i=0;i<=k;i++) storeC(buf+i,1,8,C((u8)t[i])); ret=C(k); return true; }
  case N_strtod: { u64 p=conc(A[0]); string s=cstr(p); char*e; errno=0; double d=strtod(s.c_str(),&e); u64 ep=conc(A[1]); if(ep) storeC(ep,8,64,C(p+(e-s.c_str()))); if(A[2].c) storeC(A[2].c,4,32,C(errno==ERANGE?ERANGE:0)); ret=C(asu(d)); return true; }
  case N_math1: if(froundS(m1[f->name],A[0],ret)) return true; ret=C(asu(m1[f->name](asd(fpv(A[0],64))))); return true;
  case N_math2: ret=C(asu(m2[f->name](asd(fpv(A[0],64)),asd(fpv(A[1],64))))); return true;
  case N_modf: { double ip; double r=modf(asd(fpv(A[0],64)),&ip); storeC(conc(A[1]),8,64,C(asu(ip))); ret=C(asu(r)); return true; }
  case N_frexp: { int ex; double r=frexp(asd(fpv(A[0],64)),&ex); storeC(conc(A[1]),4,32,C((u32)ex)); ret=C(asu(r)); return true; }
  case N_ldexp: ret=C(asu(ldexp(asd(fpv(A[0],64)),(int)(u32)conc(A[1])))); return true;
  case N_print: if(verbose||getenv("SYMEX_OUT")){ u64 a=conc(A[0]),n=conc(A[1]); string s; for(u64 i=0;i<n;i++){ if(*SH(a+i)==2) { char b[40]; snprintf(b,40,"<sym>"); s+=b; } else s+=*(char*)(a+i); } fprintf(stderr,"%s",s.c_str()); } return true;
  case N_obs: observed.push_back(A[0]); G->obs++; return true;
  case N_dlsym: { string s=cstr(conc(A[0])); auto it=fbyname.find(s); ret=C(it==fbyname.end()||!it->second->def?0:it->second->addr); return true; }
  }
  unsup("external function %s",f->name.c_str()); }

// ------------------------------------------------------------------ main
// --fptest: the bit-vector encodings above against the machine's own arithmetic
static int fptest(){ u64 x=88172645463325252ull; auto rnd=[&]{ x^=x<<13; x^=x>>7; x^=x<<17; return x; }; u64 bad=0,n=0;
  u64 sp[]={0,1ull<<63,1,0x3fe0000000000000ull,0x3fe0000000000001ull,0x3ff8000000000000ull,0x4004000000000000ull,0x43d0000000000000ull,0xc3d0000000000000ull,0x43e0000000000000ull,0xc3e0000000000000ull,0x7ff0000000000000ull,0xfff0000000000000ull,0x7ff8000000000000ull,0x4330000000000000ull,0x4320000000000001ull};
  auto val=[&]()->u64{ u64 r=rnd(); switch(r&3){ case 0: return sp[(r>>3)&15]; case 1: return rnd(); default: { u64 e=1015+(rnd()%80); u64 m=rnd()&((1ull<<52)-1); int z=rnd()%53; m=m>>z<<z; return (rnd()&1)<<63|e<<52|m; } } };
  double(*fn[])(double)={rint,floor,ceil,trunc};
  for(int i=0;i<12000;i++){ if(i%200==0) memset(htab,0,sizeof(*htab)<<HBITS); u64 a=val(),b= (rnd()&7)?val():a; double da=asd(a),db=asd(b); Expr*A=K(64,a),*B=K(64,b);
    for(int p=0;p<16;p++){ Expr*r=fcmpE(p,A,B); n++; if(!isK(r)||(int)r->c!=fcmp(p,da,db)){ bad++; fprintf(stderr,"fcmp %d %lx %lx\n",p,a,b); } }
    { volatile double q=da; u64 w=(u64)(i64)q; Expr*r=fptosiE(A,64); n++; if(!isK(r)||r->c!=w){ bad++; fprintf(stderr,"fptosi %lx\n",a); } w=(u32)(int)q; r=fptosiE(A,32); n++; if(r->c!=w){ bad++; fprintf(stderr,"fptosi32 %lx\n",a); } }
    { i64 v=(i64)(rnd()>>(rnd()%64)); if(rnd()&1) v=-v; volatile i64 q=v; Expr*r=sitofpE(K(64,(u64)v)); n++; if(r->c!=asu((double)q)){ bad++; fprintf(stderr,"sitofp %ld\n",v); } }
    for(int m=0;m<2;m++){ volatile double q=da,q2=m?-db:db; volatile double t=q+q2; u64 w=asu(t); Expr*r=faddE(A,K(64,asu(q2))); n++; if(r->c!=w&&!(t!=t&&r->c==0x7ff8000000000000ull)){ bad++; fprintf(stderr,"fadd %lx %lx %lx\n",a,asu(q2),(u64)r->c); } }
    { int k=(int)(rnd()%20)-10; Expr*ok=fscaleOk(A,k); volatile double q=da; if(ok->c){ n++; volatile double t=ldexp(q,k); if(fscaleE(A,k,false)->c!=asu(t)){ bad++; fprintf(stderr,"fscale %lx %d\n",a,k); } } }
    if(da==da) for(int m=0;m<4;m++){ Expr*r=froundE(A,m); n++; if(r->c!=asu(fn[m](da))){ bad++; fprintf(stderr,"round %d %lx\n",m,a); } }
    if(bad>10) break; }
  printf("fptest %lu comparisons, %lu wrong\n",n,bad); return bad!=0; }
int main(int argc,char**argv){
  string bc,entry="main"; vector<string> pargs; double tmo=600; string statf;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]{ return string(argv[++i]); };
    if(a=="--fptest"){ htab=htab?htab:(Expr**)calloc(1<<HBITS,sizeof*htab); return fptest(); }
    if(a=="--out") outdir=nx(); else if(a=="--entry") entry=nx(); else if(a=="--timeout") tmo=atof(nx().c_str()); else if(a=="--jobs") jobs=atoi(nx().c_str()); else if(a=="--stats") statf=nx(); else if(a=="--samples") nsamples=atoi(nx().c_str()); else if(a=="--seed") seed=atoll(nx().c_str()); else if(a=="-v") verbose++; else if(a=="--maxsteps") maxsteps=strtoull(nx().c_str(),0,10); else if(a=="--maxviol") maxviol=strtoull(nx().c_str(),0,10); else if(a=="--rlimit") rlim=strtoull(nx().c_str(),0,10); else if(a=="--"){ for(i++;i<argc;i++) pargs.push_back(argv[i]); } else bc=a; }
  { struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); if(rl.rlim_cur!=RLIM_INFINITY&&rl.rlim_cur<(1ull<<30)){ rl.rlim_cur= rl.rlim_max==RLIM_INFINITY||rl.rlim_max>(1ull<<30)? (1ull<<30):rl.rlim_max; setrlimit(RLIMIT_STACK,&rl); if(!getenv("SYMEX_RE")){ setenv("SYMEX_RE","1",1); execv("/proc/self/exe",argv); execv(argv[0],argv); } } }
  double t0=now(); deadline=t0+tmo; mkdir(outdir.c_str(),0777); prctl(PR_SET_CHILD_SUBREAPER,1);
  auto mm=[&](u64 a,u64 n){ void*p=mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED,-1,0); if(p==MAP_FAILED) die("mmap"); };
  mm(ARENA,ASIZE); mm(ARENA+SHOFF,ASIZE); mm(SYMB,ASIZE*8); pg=(u32*)mmap(0,(ASIZE>>9)*4,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  regs=(Val*)mmap(0,1ull<<32,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  G=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); memset((void*)G,0,sizeof *G); G->tokens=jobs-1;
  htab=(Expr**)calloc(1u<<HBITS,sizeof(Expr*));
  Z3_global_param_set("parallel.enable","false"); Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); Z=Z3_mk_context_rc(cfg); Z3_set_error_handler(Z,z3err);
  SV=Z3_mk_solver_for_logic(Z,Z3_mk_string_symbol(Z,"QF_BV")); Z3_solver_inc_ref(Z,SV);
  rlsym=Z3_mk_string_symbol(Z,"rlimit"); if(getenv("SRLIM")) srlim=atoll(getenv("SRLIM"));
  LLVMContextRef ctx=LLVMGetGlobalContext(); LLVMMemoryBufferRef mb; char*err=nullptr; if(LLVMCreateMemoryBufferWithContentsOfFile(bc.c_str(),&mb,&err)) die("load %s: %s",bc.c_str(),err); if(LLVMParseIRInContext(ctx,mb,&M,&err)) die("parse: %s",err); TD=LLVMGetModuleDataLayout(M);
  for(LLVMValueRef v=LLVMGetFirstFunction(M);v;v=LLVMGetNextFunction(v)){ Func*f=new Func; size_t l; f->name=LLVMGetValueName2(v,&l); f->lv=v; f->id=funcs.size(); f->addr=FNBASE+16*f->id; f->def=!LLVMIsDeclaration(v); f->vararg=LLVMIsFunctionVarArg(LLVMGlobalGetValueType(v)); if(!f->def){ auto it=natmap.find(f->name); if(it!=natmap.end()) f->native=it->second; else if(m1.count(f->name)) f->native=N_math1; else if(m2.count(f->name)) f->native=N_math2; } else { // engine-native overrides for defined libc-like names are not taken
      } funcs.push_back(f); fbyname[f->name]=f; fbyval[v]=f; }
  for(LLVMValueRef v=LLVMGetFirstGlobal(M);v;v=LLVMGetNextGlobal(v)){ LLVMTypeRef t=LLVMGlobalGetValueType(v); u64 n=LLVMABISizeOfType(TD,t), al=std::max<u64>(16,LLVMPreferredAlignmentOfGlobal(TD,v)); globp=(globp+32+al-1)&~(al-1); gaddr[v]=globp; size_t l; gbyname[LLVMGetValueName2(v,&l)]=globp; 
    { const char*nm=LLVMGetValueName2(v,&l); if(!strcmp(nm,"first_atoms")){ atomsLo=globp; atomsHi=globp+n+8; } }
    memset(SH(globp),1,n); globp+=n; if(globp>STK) die("globals too big"); }
  for(LLVMValueRef v=LLVMGetFirstGlobal(M);v;v=LLVMGetNextGlobal(v)) if(!LLVMIsDeclaration(v)) initGlobal(LLVMGetInitializer(v),gaddr[v]);
  auto it=fbyname.find(entry); if(it==fbyname.end()||!it->second->def) die("no entry %s",entry.c_str());
  double tload=now()-t0;
  pid_t root=fork(); if(root==0){ signal(SIGALRM,onAlarm); armAlarm();
    u64 av=xmalloc(8*(pargs.size()+1)); for(size_t i=0;i<pargs.size();i++){ u64 p=xmalloc(pargs[i].size()+1); memcpy((void*)p,pargs[i].c_str(),pargs[i].size()+1); ((u64*)av)[i]=p; } ((u64*)av)[pargs.size()]=0; u64 ev=xmalloc(8); *(u64*)ev=0;
    ownToken=false; Val A[3]={C(pargs.size()),C(av),C(ev)}; u8 aw[3]={32,64,64}; Func*ef=it->second; pushFrame(ef,A,aw,3,-1,0); for(;;){ try { run(0); pathDone(0); } catch(Backtrack&){ restore(); } } }
  int st; while(waitpid(root,&st,0)<0&&errno==EINTR){} bool rootok=WIFEXITED(st)&&WEXITSTATUS(st)==0;
  while(waitpid(-1,nullptr,0)>0){}
  if(!rootok){ char b[64]; snprintf(b,64,"root process status %d",st); incomplete(b); }
  FILE*o=statf.empty()?stdout:fopen(statf.c_str(),"w"); 
  fprintf(o,"{\"paths\":%lu,\"killed\":%lu,\"incomplete\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"domain\":%lu,\"fresh\":%lu,\"solver_s\":%.3f,\"insns\":%lu,\"forks\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"violations\":%lu,\"samples\":%lu,\"observed\":%lu,\"maxdepth\":%lu,\"wall_s\":%.3f,\"load_s\":%.3f,\n",G->paths.load(),G->killed.load(),G->incomplete.load(),G->queries.load(),G->qsat.load(),G->qunsat.load(),G->qunk.load(),G->qdom.load(),G->fresh.load(),G->solverns.load()*1e-9,G->insns.load(),G->forks.load(),G->checks.load(),G->checksym.load(),G->viols.load(),G->samples.load(),G->obs.load(),G->maxdepth.load(),now()-t0,tload);
  auto js=[&](const char*s){ string r; for(;*s;s++){ if(*s=='"'||*s=='\\') r+='\\'; if((u8)*s<32){ char b[8]; snprintf(b,8,"\\u%04x",*s); r+=b; } else if((u8)*s>=127) r+='?'; else r+=*s; } return r; };
  auto lst=[&](const char*nm,Site*t,int n){ fprintf(o,"\"%s\":{",nm); for(int i=0;i<n;i++) fprintf(o,"%s\"%s\":%lu",i?",":"",js(t[i].name).c_str(),t[i].n.load()); fprintf(o,"},\n"); };
  lst("labels",G->lab,G->nlabel); lst("reach",G->reach,G->nreach); if(verbose) lst("sites",G->site,G->nsite);
  fprintf(o,"\"incomplete_why\":["); for(int i=0;i<G->ninc;i++) fprintf(o,"%s\"%s\"",i?",":"",js(G->inc[i]).c_str()); fprintf(o,"],\n\"functions\":["); bool c1=false; for(auto f:funcs) if(G->touched[f->id&8191]){ fprintf(o,"%s\"%s\"",c1?",":"",f->name.c_str()); c1=true; } fprintf(o,"]}\n"); if(o!=stdout) fclose(o);
  return 0; }
