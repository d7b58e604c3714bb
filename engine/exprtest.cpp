// random differential test of the expression simplifier: smart constructors against direct evaluation
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <vector>
#include <algorithm>
#include <string>
#include <unordered_map>
#include <z3.h>
#include "expr.h"
static u64 rs=88172645463325252ull; static u64 rnd(){ rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; }
struct T { Expr*e; int id; };
struct Raw { int op,w,a,b,d; u64 c; };
int main(int argc,char**argv){
  rs^=strtoull(argv[1],0,10)*0x9e3779b97f4a7c15ull; long rounds=atol(argv[2]);
  htab=(Expr**)calloc(1u<<HBITS,sizeof(Expr*));
  static const int W[]={1,8,16,32,63,64,64,64,64};
  long bad=0,kb=0; u64 vid=0;
  for(long r=0;r<rounds;r++){
    std::vector<Raw> raw; std::vector<Expr*> ex;
    auto add=[&](Raw x,Expr*e){ raw.push_back(x); ex.push_back(e); };
    int nv=1+rnd()%3; static const int VW[]={1,3,8,8,13,16,32,63,64};
    u64 vm[4],vidx[4]; for(int i=0;i<nv;i++){ int w=VW[rnd()%9]; witness.push_back(0); varmax=rnd()%2?~0ull:rnd()%12+1; vm[i]=std::min(varmax,maskw(w)); add({X_VAR,w,0,0,0,(u64)i},fin(X_VAR,w,0,0,0,vid++)); vidx[i]=vid-1; varmax=~0ull; }
    int n=4+rnd()%14;
    auto cst=[&](int w)->u64{ u64 v; switch(rnd()%6){ case 0: v=rnd()%4; break; case 1: v=1ull<<(rnd()%64); break; case 2: v=-(rnd()%9); break; case 3: v=(1ull<<(rnd()%64))-1; break; case 4: v=rnd()%w; break; default: v=rnd(); } return v&maskw(w); };
    for(int i=0;i<n;i++){
      int k=rnd()%10; int a=rnd()%raw.size(); if(rnd()%3) a=raw.size()-1-rnd()%std::min<size_t>(3,raw.size()); int w=ex[a]->w;
      auto other=[&](int w)->int{ if(rnd()%3==0){ u64 c=cst(w); add({X_CONST,w,0,0,0,c},K(w,c)); return raw.size()-1; } std::vector<int> cd; for(size_t j=0;j<raw.size();j++) if(ex[j]->w==w) cd.push_back(j); if(cd.empty()){ u64 c=cst(w); add({X_CONST,w,0,0,0,c},K(w,c)); return raw.size()-1; } return cd[rnd()%cd.size()]; };
      if(k<5){ static const int ops[]={X_ADD,X_SUB,X_MUL,X_AND,X_OR,X_XOR,X_SHL,X_LSHR,X_ASHR,X_UDIV,X_UREM,X_SDIV,X_SREM,X_EQ,X_ULT,X_ULE,X_SLT,X_SLE}; int op=ops[rnd()%18]; int b=other(w); if(rnd()%4==0) std::swap(a,b);
        add({op,op>=X_EQ?1:w,a,b,0,0},mkBin(op,ex[a],ex[b])); }
      else if(k==5){ int c=-1; for(size_t j=0;j<raw.size();j++) if(ex[j]->w==1&&(c<0||rnd()%2)) c=j; if(c<0) continue; int b=other(w); add({X_ITE,w,c,a,b,0},mkIte(ex[c],ex[a],ex[b])); }
      else if(k==6&&w>1){ int nw=1+rnd()%w; int lo=rnd()%(w-nw+1); if(rnd()%2) lo=0; add({X_EXTRACT,nw,a,0,0,(u64)lo},mkExtract(ex[a],lo,nw)); }
      else if(k==7&&w<64){ int nw=w+1+rnd()%(64-w); if(rnd()%2) nw=64; add({X_ZEXT,nw,a,0,0,0},mkZext(ex[a],nw)); }
      else if(k==8&&w<64){ int nw=w+1+rnd()%(64-w); if(rnd()%2) nw=64; add({X_SEXT,nw,a,0,0,0},mkSext(ex[a],nw)); }
      else if(k==9){ if(w==64){ int b=other(64); add({X_MULHI,64,a,b,0,0},mkMulHi(ex[a],ex[b])); } else { int b=-1; for(size_t j=0;j<raw.size();j++) if(ex[j]->w+w<=64&&(b<0||rnd()%2)) b=j; if(b<0) continue; add({X_CONCAT,w+ex[b]->w,a,b,0,0},mkConcat(ex[a],ex[b])); } }
    }
    for(int t=0;t<6;t++){
      for(int i=0;i<nv;i++) witness[vidx[i]]=vm[i]==maskw(ex[i]->w)?cst(ex[i]->w):rnd()%(vm[i]+1); evepoch++;
      std::vector<u64> v(raw.size());
      for(size_t i=0;i<raw.size();i++){ Raw&q=raw[i]; u64 x=0; switch(q.op){ case X_VAR: x=witness[vidx[q.c]]; break; case X_CONST: x=q.c; break; case X_ITE: x=v[q.a]?v[q.b]:v[q.d]; break;
          case X_EXTRACT: x=(v[q.a]>>q.c)&maskw(q.w); break; case X_ZEXT: x=v[q.a]; break; case X_SEXT: x=(u64)sx(v[q.a],raw[q.a].w)&maskw(q.w); break; case X_CONCAT: x=((v[q.a]<<raw[q.b].w)|v[q.b])&maskw(q.w); break;
          default: x=foldbin(q.op,raw[q.a].w,v[q.a],v[q.b]); }
        if((q.op==X_SDIV||q.op==X_SREM||q.op==X_UDIV||q.op==X_UREM)&&v[q.b]==0) goto next; v[i]=x; Expr*e=ex[i]; u64 y=evalx(e);
        if(e->w!=q.w||y!=x){ if(bad++<10) printf("BAD round %ld node %zu op %d w %d/%d: want %llx got %llx (simplified op %d)\n",r,i,q.op,q.w,e->w,(unsigned long long)x,(unsigned long long)y,e->op); goto next; }
        if(sx(x,e->w)<e->sl||sx(x,e->w)>e->sh||x>e->um||x<e->ul||(x&e->kz)||(~x&e->ko&maskw(e->w))||(e->sb>1&&e->w>0&&sx(x,e->w)!=sx(x&maskw(e->w-e->sb+1),e->w-e->sb+1))){ if(kb++<10) printf("KNOWN round %ld node %zu op %d w %d x %llx kz %llx ko %llx sb %d\n",r,i,e->op,e->w,(unsigned long long)x,(unsigned long long)e->kz,(unsigned long long)e->ko,e->sb); goto next; } } }
    next:; }
  printf("rounds %ld bad %ld knownbad %ld exprs %u\n",rounds,bad,kb,nexpr); return bad||kb; }
