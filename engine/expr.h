// Symbolic bit-vector expression DAG (widths 1..64) with hash-consing, known-bits
// analysis and local simplification; lowered lazily to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <algorithm>
#include <z3.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum XOp : u8 { X_CONST, X_VAR, X_ADD, X_SUB, X_MUL, X_UDIV, X_SDIV, X_UREM, X_SREM,
  X_AND, X_OR, X_XOR, X_SHL, X_LSHR, X_ASHR, X_CONCAT, X_EXTRACT, X_ZEXT, X_SEXT,
  X_ITE, X_MULHI, X_EQ, X_ULT, X_ULE, X_SLT, X_SLE };

struct Expr {
  u8 op, w, sb; u32 id;
  Expr *a, *b, *d;      // kids
  u64 c;                // constant / var index / extract low bit
  u64 kz, ko;           // known zero / one bits
  u64 um, ul;           // unsigned bounds: ul <= value <= um
  i64 sl, sh;           // signed bounds
  Z3_ast zv, zb;        // lowered as bitvector / as boolean (w==1)
  u64 ep, ev;           // concrete-evaluation cache
  Expr* hnext;
};

static inline u64 maskw(int w){ return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline i64 sx(u64 v,int w){ if(w>=64) return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m); }

static const u32 HBITS=20;
static Expr** htab; static u32 nexpr=0;
static char* xpool=nullptr; static size_t xleft=0;
static Expr* xalloc(){ if(xleft<sizeof(Expr)){ xleft=1<<20; xpool=(char*)malloc(xleft);} Expr*e=(Expr*)xpool; xpool+=sizeof(Expr); xleft-=sizeof(Expr); memset(e,0,sizeof *e); return e; }
static inline u64 hmix(u64 h,u64 v){ h^=v+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); return h*0xff51afd7ed558ccdull; }

static int lead_same(u64 kz,u64 ko,int w){ // number of known identical sign bits (>=1)
  u64 top=1ull<<(w-1); int n=0;
  if(kz&top){ while(n<w && (kz&(1ull<<(w-1-n)))) n++; return n; }
  if(ko&top){ while(n<w && (ko&(1ull<<(w-1-n)))) n++; return n; }
  return 1; }

static void addknown(u64 az,u64 ao,u64 bz,u64 bo,u64 carry,int w,u64&kz,u64&ko){
  u64 m=maskw(w);
  u64 pz=((~az&m)+(~bz&m)+carry), po=(ao+bo+carry);
  u64 ckz=~(pz^az^bz) , cko=(po^ao^bo);
  // carry known zero: pz ^ ~az ^ ~bz ... (a possible max sum)
  ckz=~(pz^(~az)^(~bz)); 
  u64 known=((az|ao)&(bz|bo)&(ckz|cko))&m;
  kz=~pz&known; ko=po&known; }

static u64 varmax=~0ull; // bound of the variable being created
static void annotate(Expr*e){
  u64 m=maskw(e->w), kz=0,ko=0; int sb=1,w=e->w;
  Expr*a=e->a,*b=e->b,*d=e->d;
  switch(e->op){
  case X_CONST: ko=e->c&m; kz=~e->c&m; break;
  case X_AND: kz=a->kz|b->kz; ko=a->ko&b->ko; sb=std::min(a->sb,b->sb); break;
  case X_OR: kz=a->kz&b->kz; ko=a->ko|b->ko; sb=std::min(a->sb,b->sb); break;
  case X_XOR: { u64 k=(a->kz|a->ko)&(b->kz|b->ko); ko=(a->ko^b->ko)&k; kz=~(a->ko^b->ko)&k; sb=std::min(a->sb,b->sb); break; }
  case X_ADD: addknown(a->kz,a->ko,b->kz,b->ko,0,w,kz,ko); sb=std::max(1,std::min<int>(a->sb,b->sb)-1); break;
  case X_SUB: addknown(a->kz,a->ko,b->ko,b->kz,1,w,kz,ko); sb=std::max(1,std::min<int>(a->sb,b->sb)-1); if(a->op==X_CONST&&a->c==0&&(b->kz>>(w-1)&1)) sb=b->sb; break;
  case X_MUL: { int tz=0; while(tz<w && (a->kz>>tz&1)) tz++; int t2=0; while(t2<w && (b->kz>>t2&1)) t2++; int t=std::min(w,tz+t2);
      kz=maskw(t); if(t==0)kz=0;
      int lz1=0; while(lz1<w && (a->kz>>(w-1-lz1)&1)) lz1++; int lz2=0; while(lz2<w && (b->kz>>(w-1-lz2)&1)) lz2++;
      int hb=(w-lz1)+(w-lz2); if(hb<w) kz|=m&~maskw(hb);
      int va=w-a->sb+1, vb=w-b->sb+1; if(va+vb<=w) sb=w-(va+vb)+1; break; }
  case X_UDIV: { int lz=0; while(lz<w && (a->kz>>(w-1-lz)&1)) lz++; if(b->op==X_CONST && b->c){ int k=63-__builtin_clzll(b->c); lz=std::min(w,lz+k);} if(b->op==X_CONST&&b->c) kz= lz? m&~maskw(w-lz):0; if(lz>=w&&b->ko)kz=m; break; }
  case X_UREM: if(b->op==X_CONST && b->c){ int hb=64-__builtin_clzll(b->c); kz=m&~maskw(hb);} break;
  case X_SDIV: if(b->op==X_CONST && b->c!=0 && b->c!=m) sb=a->sb; break;
  case X_SREM: if(b->op==X_CONST && b->c!=0 && b->c!=m){ u64 v=(u64)llabs(sx(b->c,w)); int hb=v?64-__builtin_clzll(v):1; if(hb<w) sb=std::max<int>(a->sb,w-hb);} break;
  case X_SHL: if(b->op==X_CONST && b->c<(u64)w){ int k=b->c; kz=((a->kz<<k)|maskw(k)*(k>0))&m; if(k) kz|=maskw(k); kz&=m; ko=(a->ko<<k)&m; sb=std::max(1,(int)a->sb-k);} break;
  case X_LSHR: if(b->op==X_CONST && b->c<(u64)w){ int k=b->c; kz=(a->kz>>k)|(m&~(m>>k)); ko=a->ko>>k; } break;
  case X_ASHR: if(b->op==X_CONST && b->c<(u64)w){ int k=b->c; kz=(u64)(sx(a->kz,w)>>k)&m; ko=(u64)(sx(a->ko,w)>>k)&m; sb=std::min(w,a->sb+k);} else sb=a->sb; break;
  case X_CONCAT: kz=(a->kz<<b->w)|b->kz; ko=(a->ko<<b->w)|b->ko; sb=a->sb; break;
  case X_EXTRACT: kz=(a->kz>>e->c)&m; ko=(a->ko>>e->c)&m; { int cut=a->w-(int)e->c-w; sb=std::max(1,(int)a->sb-cut); if(sb>w)sb=w; } break;
  case X_ZEXT: kz=a->kz|(m&~maskw(a->w)); ko=a->ko; break;
  case X_SEXT: kz=(u64)sx(a->kz,a->w)&m; ko=(u64)sx(a->ko,a->w)&m; sb=w-a->w+a->sb; break;
  case X_ITE: kz=b->kz&d->kz; ko=b->ko&d->ko; sb=std::min(b->sb,d->sb); break;
  default: break; }
  kz&=m; ko&=m;
  typedef unsigned __int128 u128;
  u64 um=m,ul=0;
  switch(e->op){
  case X_CONST: um=ul=e->c&m; break;
  case X_VAR: um=std::min(m,varmax); break;
  case X_ADD: if((u128)a->um+b->um<=m){ um=a->um+b->um; ul=a->ul+b->ul; } else if(b->op==X_CONST&&(m-b->c+1)<=a->ul){ um=a->um-(m-b->c+1); ul=a->ul-(m-b->c+1); } break;
  case X_SUB: if(b->um<=a->ul){ um=a->um-b->ul; ul=a->ul-b->um; } break;
  case X_MUL: if((u128)a->um*b->um<=m){ um=a->um*b->um; ul=a->ul*b->ul; } break;
  case X_UDIV: if(b->op==X_CONST&&b->c){ um=a->um/b->c; ul=a->ul/b->c; } break;
  case X_UREM: if(b->op==X_CONST&&b->c) um=std::min(a->um,b->c-1); break;
  case X_AND: um=std::min(a->um,b->um); break;
  case X_OR: ul=std::max(a->ul,b->ul); if((~a->kz&~b->kz&m)==0&&(u128)a->um+b->um<=m) um=a->um+b->um; break;
  case X_SHL: if(b->op==X_CONST&&b->c<(u64)w&&(((u128)a->um)<<b->c)<=m){ um=a->um<<b->c; ul=a->ul<<b->c; } break;
  case X_LSHR: if(b->op==X_CONST&&b->c<(u64)w){ um=a->um>>b->c; ul=a->ul>>b->c; } break;
  case X_CONCAT: um=(a->um<<b->w)+b->um; ul=(a->ul<<b->w)+b->ul; break;
  case X_EXTRACT: if((a->um>>e->c)<=m){ um=a->um>>e->c; ul=a->ul>>e->c; } break;
  case X_ZEXT: um=a->um; ul=a->ul; break;
  case X_SEXT: if(!(a->um>>(a->w-1)&1)){ um=a->um; ul=a->ul; } break;
  case X_ITE: um=std::max(b->um,d->um); ul=std::min(b->ul,d->ul); break;
  default: break; }
  if(um<(~kz&m)){ u64 top= um? maskw(64-__builtin_clzll(um)):0; kz|=m&~top; } 
  um=std::min(um,~kz&m); ul=std::max(ul,ko);
  typedef __int128 s128; u64 TOP=1ull<<(w-1); s128 lo=-(s128)TOP, hi=(s128)TOP-1;
  { int v=w-std::max(sb,lead_same(kz,ko,w))+1; if(v<w){ lo=-((s128)1<<(v-1)); hi=((s128)1<<(v-1))-1; } }
  auto meet=[&](s128 l,s128 h){ if(l>lo) lo=l; if(h<hi) hi=h; };
  auto fits=[&](s128 l,s128 h){ return l>=-(s128)TOP&&h<=(s128)TOP-1; };
  if(um<TOP) meet(ul,um); else if(ul>=TOP) meet(sx(ul,w),sx(um,w));
  switch(e->op){
  case X_ADD: { s128 l=(s128)a->sl+b->sl,h=(s128)a->sh+b->sh; if(fits(l,h)) meet(l,h); break; }
  case X_SUB: { s128 l=(s128)a->sl-b->sh,h=(s128)a->sh-b->sl; if(fits(l,h)) meet(l,h); break; }
  case X_MUL: { s128 p[4]={(s128)a->sl*b->sl,(s128)a->sl*b->sh,(s128)a->sh*b->sl,(s128)a->sh*b->sh}; s128 l=*std::min_element(p,p+4),h=*std::max_element(p,p+4); if(fits(l,h)) meet(l,h); break; }
  case X_SHL: if(b->op==X_CONST&&b->c<(u64)w){ s128 f=(s128)1<<b->c, l=a->sl*f,h=a->sh*f; if(fits(l,h)) meet(l,h); } break;
  case X_ASHR: if(b->op==X_CONST&&b->c<(u64)w) meet(a->sl>>b->c,a->sh>>b->c); break;
  case X_SEXT: meet(a->sl,a->sh); break;
  case X_ZEXT: break;
  case X_EXTRACT: if(e->c==0&&fits(a->sl,a->sh)) meet(a->sl,a->sh); break;
  case X_ITE: meet(std::min(b->sl,d->sl),std::max(b->sh,d->sh)); break;
  case X_SDIV: if(b->op==X_CONST&&b->c&&!(b->c>>(w-1)&1)){ i64 k=(i64)b->c; meet(a->sl/k,a->sh/k); } break;
  default: break; }
  if(lo>=0){ um=std::min(um,(u64)hi); ul=std::max(ul,(u64)lo); kz|=TOP; } else if(hi<0){ ko|=TOP; ul=std::max(ul,(u64)lo&m); um=std::min(um,(u64)hi&m); }
  { int n=1; while(n<w&&lo>=-((s128)1<<(w-1-n))&&hi<=((s128)1<<(w-1-n))-1) n++; if(n>sb) sb=n; }
  if(um<(~kz&m)){ u64 top= um? maskw(64-__builtin_clzll(um)):0; kz|=m&~top; }
  e->sl=(i64)lo; e->sh=(i64)hi;
  e->um=um; e->ul=ul;
  int ls=lead_same(kz,ko,w); if(ls>sb) sb=ls;
  if(sb>w) sb=w;
  e->kz=kz; e->ko=ko; e->sb=sb; }

static Expr* intern(u8 op,u8 w,Expr*a,Expr*b,Expr*d,u64 c){
  u64 h=hmix(op*131+w,c); h=hmix(h,(u64)a); h=hmix(h,(u64)b); h=hmix(h,(u64)d); u32 ix=(h>>20)&((1u<<HBITS)-1);
  for(Expr*e=htab[ix];e;e=e->hnext) if(e->op==op&&e->w==w&&e->a==a&&e->b==b&&e->d==d&&e->c==c) return e;
  Expr*e=xalloc(); e->op=op; e->w=w; e->a=a; e->b=b; e->d=d; e->c=c; e->id=nexpr++; annotate(e); e->hnext=htab[ix]; htab[ix]=e; return e; }

static inline Expr* K(int w,u64 c){ return intern(X_CONST,w,0,0,0,c&maskw(w)); }
static inline bool isK(Expr*e){ return e->op==X_CONST; }
static Expr* fin(u8 op,int w,Expr*a,Expr*b=0,Expr*d=0,u64 c=0){
  Expr*e=intern(op,w,a,b,d,c);
  if(e->op!=X_CONST && ((e->kz|e->ko)==maskw(w))) return K(w,e->ko);
  return e; }

// variables are not hash-consed: the caller decides when two paths share one (same index, width and bound)
static Expr* newVarExpr(int w,u64 i,Z3_ast z){ Expr*e=xalloc(); e->op=X_VAR; e->w=w; e->c=i; e->id=nexpr++; annotate(e); e->zv=z; if((e->kz|e->ko)==maskw(w)) return K(w,e->ko); return e; }

static u64 foldbin(int op,int w,u64 a,u64 b){
  u64 m=maskw(w);
  switch(op){
  case X_MULHI: return (u64)(((__int128)(i64)a*(i64)b)>>64);
  case X_ADD: return (a+b)&m; case X_SUB: return (a-b)&m; case X_MUL: return (a*b)&m;
  case X_UDIV: return b? (a/b)&m : m; case X_UREM: return b? a%b : a;
  case X_SDIV: { i64 x=sx(a,w),y=sx(b,w); if(!y) return x<0?1:m; if(y==-1) return (u64)(0-(u64)x)&m; return (u64)(x/y)&m; }
  case X_SREM: { i64 x=sx(a,w),y=sx(b,w); if(!y) return a; if(y==-1) return 0; return (u64)(x%y)&m; }
  case X_AND: return a&b; case X_OR: return a|b; case X_XOR: return a^b;
  case X_SHL: return b>=(u64)w?0:(a<<b)&m; case X_LSHR: return b>=(u64)w?0:a>>b;
  case X_ASHR: return b>=(u64)w? (sx(a,w)<0?m:0) : (u64)(sx(a,w)>>b)&m;
  case X_EQ: return a==b; case X_ULT: return a<b; case X_ULE: return a<=b;
  case X_SLT: return sx(a,w)<sx(b,w); case X_SLE: return sx(a,w)<=sx(b,w); }
  abort(); }

static Expr* mkIte(Expr*c,Expr*a,Expr*b);
static Expr* mkBin(int op,Expr*a,Expr*b);
static Expr* mkExtract(Expr*a,int lo,int w);
static Expr* mkZext(Expr*a,int w);
static Expr* mkSext(Expr*a,int w);
static Expr* mkConcat(Expr*hi,Expr*lo);
static inline Expr* mkNot(Expr*a){ return mkBin(X_XOR,a,K(1,1)); }
static bool iteK(Expr*e,int d=0){ if(e->op!=X_ITE) return false; for(Expr*k:{e->b,e->d}) if(!isK(k)&&!(d<6&&iteK(k,d+1))) return false; return true; }
static bool isNotOf(Expr*e,Expr*&in){ if(e->w==1&&e->op==X_XOR&&isK(e->b)&&e->b->c==1){ in=e->a; return true;} return false; }

static bool linEq(Expr*a,Expr*b,Expr*&r);
static Expr* negOf(Expr*e){ // N with e = 0-N, when e is written so
  if(e->op==X_SUB&&isK(e->a)&&e->a->c==0) return e->b;
  if(e->op==X_SHL&&isK(e->b)&&e->a->op==X_SUB&&isK(e->a->a)&&e->a->a->c==0) return mkBin(X_SHL,e->a->b,e->b);
  return nullptr; }
static Expr* mkCmp(int op,Expr*a,Expr*b){
  int w=a->w; u64 m=maskw(w);
  if(isK(a)&&isK(b)) return K(1,foldbin(op,w,a->c,b->c));
  if(a==b) return K(1,op==X_EQ||op==X_ULE||op==X_SLE);
  if(op==X_EQ && isK(a)) std::swap(a,b);
  // distribute over ite with constant leaves
  if(isK(b)&&a->op==X_ITE&&(isK(a->b)||isK(a->d)||iteK(a))) return mkIte(a->a,mkCmp(op,a->b,b),mkCmp(op,a->d,b));
  if(isK(a)&&b->op==X_ITE&&(isK(b->b)||isK(b->d)||iteK(b))) return mkIte(b->a,mkCmp(op,a,b->b),mkCmp(op,a,b->d));
  // known-bit ranges
  u64 aumin=a->ul,aumax=a->um,bumin=b->ul,bumax=b->um;
  u64 S=1ull<<(w-1);
  i64 asmin=sx((a->ko)|((a->kz&S)?0:S),w), asmax=sx((~a->kz&m)&~((a->ko&S)?0:S),w);
  i64 bsmin=sx((b->ko)|((b->kz&S)?0:S),w), bsmax=sx((~b->kz&m)&~((b->ko&S)?0:S),w);
  // tighten signed by sign bits
  auto tight=[&](Expr*e,i64&lo,i64&hi){ int v=w-e->sb+1; if(v<64){ i64 l=-(1ll<<(v-1)),h=(1ll<<(v-1))-1; if(l>lo)lo=l; if(h<hi)hi=h; } };
  tight(a,asmin,asmax); tight(b,bsmin,bsmax);
  asmin=std::max(asmin,a->sl); asmax=std::min(asmax,a->sh); bsmin=std::max(bsmin,b->sl); bsmax=std::min(bsmax,b->sh);
  if(a->kz&S){ asmin=std::max(asmin,(i64)aumin); asmax=std::min(asmax,(i64)aumax); } if(b->kz&S){ bsmin=std::max(bsmin,(i64)bumin); bsmax=std::min(bsmax,(i64)bumax); }
  switch(op){
  case X_EQ: if((a->kz&b->ko)|(a->ko&b->kz)) return K(1,0); if(aumax<bumin||bumax<aumin||asmax<bsmin||bsmax<asmin) return K(1,0); break;
  case X_ULT: if(aumax<bumin) return K(1,1); if(aumin>=bumax) return K(1,0); break;
  case X_ULE: if(aumax<=bumin) return K(1,1); if(aumin>bumax) return K(1,0); break;
  case X_SLT: if(asmax<bsmin) return K(1,1); if(asmin>=bsmax) return K(1,0); break;
  case X_SLE: if(asmax<=bsmin) return K(1,1); if(asmin>bsmax) return K(1,0); break; }
  bool uns=(op==X_ULT||op==X_ULE);
  // signed compare of non-negatives => unsigned
  if((op==X_SLT||op==X_SLE) && (a->kz&S) && (b->kz&S)) return mkCmp(op==X_SLT?X_ULT:X_ULE,a,b);
  // strip common structure: or(shl(x,k),c) with c < 2^k
  auto parts=[&](Expr*e,Expr*&x,u64&k,u64&c)->bool{ // e = (x<<k)|c
    if(e->op==X_OR&&isK(e->b)){ c=e->b->c; e=e->a; } else c=0;
    if(e->op==X_SHL&&isK(e->b)){ k=e->b->c; x=e->a; return k<64&&k<(u64)w&&c<(1ull<<k); } return false; };
  { Expr*x,*y; u64 k,c,k2,c2;
    bool pa=parts(a,x,k,c);
    if(pa && isK(b)){
      u64 lowm=maskw(k), bl=b->c&lowm; 
      bool sok = uns||op==X_EQ ? true : x->sb>k; // shl must not lose
      bool lossless = uns ? ((x->kz>>(w-k))==maskw(k)) : x->sb>k;
      if(op==X_EQ){ if(bl!=c) return K(1,0); if(lossless&&!uns){ return mkCmp(X_EQ,x,K(w,(u64)(sx(b->c,w)>>k))); } return mkCmp(X_EQ,mkExtract(x,0,w-k),K(w-k,b->c>>k)); }
      (void)sok;
      if(lossless){ u64 q= uns? b->c>>k : (u64)(sx(b->c,w)>>k);
        // (x<<k|c) < (q<<k|bl)  <=> x<q or (x==q and c<bl)
        bool strict=(op==X_ULT||op==X_SLT); bool tie = strict? c<bl : c<=bl;
        return mkCmp(uns?(tie?X_ULE:X_ULT):(tie?X_SLE:X_SLT),x,K(w,q)); } }
    bool pb=parts(b,y,k2,c2);
    if(pb && isK(a)){
      u64 al=a->c&maskw(k2); bool lossless= uns? ((y->kz>>(w-k2))==maskw(k2)) : y->sb>k2;
      if(lossless){ u64 q= uns? a->c>>k2 : (u64)(sx(a->c,w)>>k2); bool strict=(op==X_ULT||op==X_SLT); bool tie=strict? al<c2: al<=c2;
        return mkCmp(uns?(tie?X_ULE:X_ULT):(tie?X_SLE:X_SLT),K(w,q),y); } }
    if(pa&&pb&&k==k2){
      bool la= uns? ((x->kz>>(w-k))==maskw(k)) : x->sb>k, lb= uns? ((y->kz>>(w-k))==maskw(k)) : y->sb>k;
      if(op==X_EQ){ if(c!=c2) return K(1,0); if(la&&lb) return mkCmp(X_EQ,x,y); return mkCmp(X_EQ,mkExtract(x,0,w-k),mkExtract(y,0,w-k)); }
      if(la&&lb){ bool strict=(op==X_ULT||op==X_SLT); bool tie=strict? c<c2:c<=c2; return mkCmp(uns?(tie?X_ULE:X_ULT):(tie?X_SLE:X_SLT),x,y); } } }
  if(op==X_EQ&&isK(b)){
    if(a->op==X_ADD&&isK(a->b)) return mkCmp(X_EQ,a->a,K(w,b->c-a->b->c));
    if(a->op==X_XOR&&isK(a->b)) return mkCmp(X_EQ,a->a,K(w,b->c^a->b->c));
    if(a->op==X_SUB&&isK(a->a)) return mkCmp(X_EQ,a->b,K(w,a->a->c-b->c));
    if(a->op==X_SUB&&b->c==0) return mkCmp(X_EQ,a->a,a->b);
    if(a->op==X_CONCAT) return mkBin(X_AND,mkCmp(X_EQ,a->a,K(a->a->w,b->c>>a->b->w)),mkCmp(X_EQ,a->b,K(a->b->w,b->c)));
    if(w==1) return b->c? a : mkNot(a);
  }
  if(op==X_EQ && a->op==X_ADD && b->op==X_ADD && isK(a->b) && isK(b->b) && a->b==b->b) return mkCmp(op,a->a,b->a);
  if(op==X_EQ&&w>1&&!isK(b)){ Expr*x=negOf(a),*y=x?negOf(b):nullptr; if(x&&y) return mkCmp(op,x,y); }
  if(op==X_EQ&&w>1&&!isK(b)){ Expr*r; auto q=[](Expr*s){ while(s->op==X_ZEXT||s->op==X_EXTRACT) s=s->a; return s->op==X_ADD||s->op==X_MUL; }; if((q(a)||q(b))&&linEq(a,b,r)) return r; }
  if(op==X_EQ&&a->op==X_EXTRACT&&b->op==X_EXTRACT&&a->c==0&&b->c==0&&a->a->op==X_MUL&&b->a->op==X_MUL) return mkCmp(X_EQ,mkBin(X_MUL,mkExtract(a->a->a,0,w),mkExtract(a->a->b,0,w)),mkBin(X_MUL,mkExtract(b->a->a,0,w),mkExtract(b->a->b,0,w)));
  if(op==X_ULT&&isK(b)&&a->op==X_XOR&&b->c>1&&(b->c&(b->c-1))==0){ int k=__builtin_ctzll(b->c); return mkCmp(X_EQ,mkExtract(a->a,k,w-k),mkExtract(a->b,k,w-k)); }
  if(op==X_SLT&&isK(b)&&b->c==0&&a->op==X_XOR&&isK(a->b)) return (a->b->c&S)? mkNot(mkCmp(X_SLT,a->a,b)):mkCmp(X_SLT,a->a,b);
  if(op==X_SLT&&isK(b)&&b->c==0&&a->op==X_SUB&&isK(a->a)&&a->a->c==0&&(a->b->kz&S)) return mkNot(mkCmp(X_EQ,a->b,b));
  if(op==X_SLT&&isK(b)&&b->c==0&&(a->op==X_XOR||a->op==X_AND||a->op==X_OR)&&!isK(a->b)) return mkBin(a->op,mkCmp(op,a->a,b),mkCmp(op,a->b,b));
  // extensions
  if(a->op==X_ZEXT){
    int wx=a->a->w;
    if(isK(b)){ if(op==X_EQ){ if(b->c>maskw(wx)) return K(1,0); return mkCmp(X_EQ,a->a,K(wx,b->c)); }
      if(uns){ if(b->c>maskw(wx)) return K(1,1); return mkCmp(op,a->a,K(wx,b->c)); } }
    if(b->op==X_ZEXT && b->a->w==wx) return mkCmp(op==X_SLT?X_ULT:op==X_SLE?X_ULE:op,a->a,b->a); }
  if(b->op==X_ZEXT&&isK(a)){ int wx=b->a->w; if(uns){ if(a->c>maskw(wx)) return K(1,0); return mkCmp(op,K(wx,a->c),b->a);} }
  if(a->op==X_SEXT){
    int wx=a->a->w;
    if(isK(b)&&sx(b->c&maskw(wx),wx)==sx(b->c,w)&&!uns) return mkCmp(op,a->a,K(wx,b->c));
    if(b->op==X_SEXT&&b->a->w==wx&&!uns) return mkCmp(op,a->a,b->a); 
    if(b->op==X_SEXT&&!uns){ int wm=std::max<int>(a->a->w,b->a->w); if(wm<w) return mkCmp(op,mkSext(a->a,wm),mkSext(b->a,wm)); } }
  if(b->op==X_SEXT&&isK(a)&&!uns){ int wx=b->a->w; if(sx(a->c&maskw(wx),wx)==sx(a->c,w)) return mkCmp(op,K(wx,a->c),b->a); }
  // narrow by sign bits
  if(op==X_EQ||!uns){ int s=std::min<int>(a->sb,b->sb); if(s>1 && w-s+1<w){ int nw=w-s+1; bool ok=isK(a)||isK(b)||a->op==X_SEXT||b->op==X_SEXT||a->op==X_ZEXT||b->op==X_ZEXT; if(ok) return mkCmp(op,mkExtract(a,0,nw),mkExtract(b,0,nw)); } }
  if(op==X_EQ && a->id>b->id && !isK(b)) std::swap(a,b);
  // canonicalise <= into not(b<a)
  if(op==X_ULE) return mkNot(mkCmp(X_ULT,b,a));
  if(op==X_SLE) return mkNot(mkCmp(X_SLT,b,a));
  return fin(op,1,a,b); }

static int ubits(Expr*e){ u64 x=~e->kz&maskw(e->w); return x? 64-__builtin_clzll(x):0; }
// y with (y<<k) = e, or null
static u64 halveN=0;
static Expr* halve(Expr*e,int k,int dep=0){ int w=e->w; if(k<=0||k>=w||(e->kz&maskw(k))!=maskw(k)||dep>60) return nullptr;
  switch(e->op){
  case X_CONST: return K(w,e->c>>k);
  case X_SHL: if(!isK(e->b)||e->b->c>=(u64)w) return nullptr; if(e->b->c>=(u64)k) return mkBin(X_SHL,e->a,K(w,e->b->c-k)); { Expr*x=halve(e->a,k-e->b->c,dep+1); return x; }
  case X_ADD: case X_SUB: case X_OR: { Expr*x=halve(e->a,k,dep+1); if(!x) return nullptr; Expr*y=halve(e->b,k,dep+1); return y? mkBin(e->op,x,y):nullptr; }
  case X_MUL: { Expr*x=halve(e->a,k,dep+1); if(x) return mkBin(X_MUL,x,e->b); x=halve(e->b,k,dep+1); return x? mkBin(X_MUL,e->a,x):nullptr; }
  case X_ZEXT: { Expr*x=halve(e->a,k,dep+1); if(!x) return nullptr; if((((unsigned __int128)x->um)<<k)>maskw(x->w)) x=mkExtract(x,0,x->w-k); return mkZext(x,w); }
  case X_ITE: { Expr*x=halve(e->b,k,dep+1); if(!x) return nullptr; Expr*y=halve(e->d,k,dep+1); return y? mkIte(e->a,x,y):nullptr; }
  default: return nullptr; } }
// value as c + sum coef*atom over the non-negative integers, exact (nothing wraps)
struct Lin { u64 c=0; std::vector<std::pair<Expr*,u64>> t; };
static Expr* mkZext(Expr*a,int w);
static Expr* linAtom(Expr*e){ int n=64-(e->um?__builtin_clzll(e->um):63); while(e->op==X_ZEXT) e=e->a; if(n<e->w) e=mkExtract(e,0,n); while(e->op==X_ZEXT) e=e->a; return e; }
static bool linOf(Expr*e,u64 mul,Lin&L,int dep=0){
  typedef unsigned __int128 u128; u64 m=maskw(e->w); Expr*a=e->a,*b=e->b;
  if(L.t.size()>48) return false;
  if(dep<200) switch(e->op){
  case X_CONST: L.c+=mul*e->c; return true;
  case X_ADD: if((u128)a->um+b->um<=m) return linOf(a,mul,L,dep+1)&&linOf(b,mul,L,dep+1); break;
  case X_OR: if((~a->kz&~b->kz&m)==0) return linOf(a,mul,L,dep+1)&&linOf(b,mul,L,dep+1); break;
  case X_SHL: if(isK(b)&&b->c<(u64)e->w&&(((u128)a->um)<<b->c)<=m) return linOf(a,mul<<b->c,L,dep+1); break;
  case X_MUL: if(isK(b)&&(u128)a->um*b->c<=m) return linOf(a,mul*b->c,L,dep+1); break;
  case X_ZEXT: return linOf(a,mul,L,dep+1);
  case X_SEXT: if(!(a->um>>(a->w-1)&1)) return linOf(a,mul,L,dep+1); break;
  case X_EXTRACT: if(e->c==0&&a->um<=m) return linOf(a,mul,L,dep+1); break;
  case X_CONCAT: if(a->um==0||b->w+(64-__builtin_clzll(a->um))<=64) return linOf(a,mul<<b->w,L,dep+1)&&linOf(b,mul,L,dep+1); break;
  default: break; }
  Expr*x=linAtom(e); if(x->op!=X_VAR&&x!=e&&x->op!=X_ITE&&x->op!=X_EXTRACT) { /* a narrowed compound: keep as is */ }
  for(auto&p:L.t) if(p.first==x){ p.second+=mul; return true; }
  L.t.push_back({x,mul}); return true; }
static Expr* linBuild(Lin&L,int w){ std::sort(L.t.begin(),L.t.end(),[](const std::pair<Expr*,u64>&x,const std::pair<Expr*,u64>&y){ return x.second!=y.second? x.second>y.second : x.first->id<y.first->id; });
  Expr*r=nullptr; for(auto&p:L.t){ Expr*z=p.first->w<=w? mkZext(p.first,w):mkExtract(p.first,0,w); Expr*t=mkBin(X_MUL,z,K(w,p.second)); r=r? mkBin(X_ADD,r,t):t; }
  Expr*c=K(w,L.c); return r? (L.c? mkBin(X_ADD,r,c):r) : c; }
static bool linSplit(Expr*a,u64 k,Lin&Q,Lin&R){ Lin L; Expr*s=a; while(s->op==X_ZEXT||(s->op==X_EXTRACT&&s->c==0&&s->a->um<=maskw(s->w))) s=s->a; if(s->op!=X_ADD&&s->op!=X_OR&&s->op!=X_MUL&&s->op!=X_CONCAT&&s->op!=X_SHL) return false;
  if(!linOf(a,1,L)) return false; for(auto&p:L.t) if(p.second%k==0) Q.t.push_back({p.first,p.second/k}); else R.t.push_back(p);
  Q.c=L.c/k; R.c=L.c%k; return !Q.t.empty()||Q.c; }
static bool linEq(Expr*a,Expr*b,Expr*&r){ Lin A,B; if(!linOf(a,1,A)||!linOf(b,1,B)) return false; Lin A2,B2; bool common=false;
  for(auto&p:A.t){ u64 o=0; for(auto&q:B.t) if(q.first==p.first) o=q.second; if(o) common=true; if(p.second>o) A2.t.push_back({p.first,p.second-o}); }
  for(auto&q:B.t){ u64 o=0; for(auto&p:A.t) if(q.first==p.first) o=p.second; if(q.second>o) B2.t.push_back({q.first,q.second-o}); }
  if(A.c>=B.c) A2.c=A.c-B.c; else B2.c=B.c-A.c;
  if(A2.t.empty()&&B2.t.empty()){ r=K(1,A2.c==B2.c); return true; }
  if(!common) return false;
  r=mkCmp(X_EQ,linBuild(A2,64),linBuild(B2,64)); return true; }
// a = x<<k, b = y<<k without loss
static Expr* mkZext(Expr*a,int w);
static bool shlLow(Expr*a,Expr*b,Expr*&x,Expr*&y){ int w=a->w; if(a->op!=X_SHL||b->op!=X_SHL||!isK(a->b)||a->b!=b->b||a->b->c<1||a->b->c>=(u64)w) return false; int k=a->b->c; x=mkZext(mkExtract(a->a,0,w-k),w); y=mkZext(mkExtract(b->a,0,w-k),w); return true; }
static bool shlBoth(Expr*a,Expr*b,Expr*&x,Expr*&y,bool sgn){ if(a->op!=X_SHL||b->op!=X_SHL||a->b!=b->b||!isK(a->b)||a->b->c>=a->w) return false; x=a->a; y=b->a; u64 k=a->b->c; int w=a->w; return sgn? x->sb>k&&y->sb>k : (x->kz>>(w-k))==maskw(k)&&(y->kz>>(w-k))==maskw(k); }
static bool commut(int op){ return op==X_ADD||op==X_MUL||op==X_AND||op==X_OR||op==X_XOR; }

struct BCache { Expr*a,*b,*r; int op; };
static BCache* bcache=nullptr; static const u32 BCB=18;
static Expr* mkBin0(int op,Expr*a,Expr*b);
static Expr* mkBin(int op,Expr*a,Expr*b){
  if(a->op==X_CONST&&b->op==X_CONST) return K(op>=X_EQ?1:a->w,foldbin(op,a->w,a->c,b->c));
  if(!bcache) bcache=(BCache*)calloc(1u<<BCB,sizeof(BCache));
  u64 h=hmix(hmix(op,(u64)a),(u64)b); u32 ix=(h>>24)&((1u<<BCB)-1); { BCache&c=bcache[ix]; if(c.a==a&&c.b==b&&c.op==op&&c.r) return c.r; }
  Expr*r=mkBin0(op,a,b); BCache&c=bcache[ix]; c.a=a; c.b=b; c.op=op; c.r=r; return r; }
static Expr* mkBin0(int op,Expr*a,Expr*b){
  int w=a->w; u64 m=maskw(w);
  if(op>=X_EQ) return mkCmp(op,a,b);
  if(isK(a)&&isK(b)) return K(w,foldbin(op,w,a->c,b->c));
  if(commut(op)&&(isK(a)||(!isK(b)&&a->id>b->id))) std::swap(a,b);
  // distribute constants over ite-with-constant leaves
  if(isK(b)&&a->op==X_ITE&&iteK(a)&&w>1) return mkIte(a->a,mkBin(op,a->b,b),mkBin(op,a->d,b));
  if(isK(a)&&b->op==X_ITE&&iteK(b)&&w>1) return mkIte(b->a,mkBin(op,a,b->b),mkBin(op,a,b->d));
  // booleans carried as 0/k words
  if((op==X_AND||op==X_OR)&&a->op==X_ITE&&b->op==X_ITE&&w>1&&isK(a->b)&&isK(a->d)&&isK(b->b)&&isK(b->d)){
    auto nb=[&](Expr*e,Expr*&c,u64&k)->bool{ if(e->d->c==0){ c=e->a; k=e->b->c; return true; } if(e->b->c==0){ c=mkNot(e->a); k=e->d->c; return true; } return false; };
    Expr*c1,*c2; u64 k1,k2; if(nb(a,c1,k1)&&nb(b,c2,k2)){ if(op==X_AND) return mkIte(mkBin(X_AND,c1,c2),K(w,k1&k2),K(w,0)); if(k1==k2) return mkIte(mkBin(X_OR,c1,c2),K(w,k1),K(w,0)); } }
  switch(op){
  case X_ADD:
    if(isK(b)){ if(b->c==0) return a;
      if(a->op==X_ADD&&isK(a->b)) return mkBin(X_ADD,a->a,K(w,a->b->c+b->c));
      if(a->op==X_SUB&&isK(a->a)) return mkBin(X_SUB,K(w,a->a->c+b->c),a->b);
      if(a->op==X_OR&&isK(a->b)&&((a->b->c&~a->a->kz)==0)) return mkBin(X_ADD,a->a,K(w,a->b->c+b->c));
      if(a->op==X_ZEXT&&a->a->op==X_OR&&isK(a->a->b)&&((a->a->b->c&~a->a->a->kz)==0)) return mkBin(X_ADD,mkZext(a->a->a,w),K(w,a->a->b->c+b->c));
      if((b->c&~a->kz&m)==0) return mkBin(X_OR,a,b);
      }
    else {
      if(a->op==X_SUB&&isK(a->a)&&a->a->c==0) return mkBin(X_SUB,b,a->b);
      if(b->op==X_SUB&&isK(b->a)&&b->a->c==0) return mkBin(X_SUB,a,b->b);
      if(a->op==X_ADD&&isK(a->b)) return mkBin(X_ADD,mkBin(X_ADD,a->a,b),a->b);
      if(b->op==X_ADD&&isK(b->b)) return mkBin(X_ADD,mkBin(X_ADD,a,b->a),b->b);
      if(a->op==X_OR&&isK(a->b)&&((a->b->c&~a->a->kz)==0)) return mkBin(X_ADD,mkBin(X_ADD,a->a,b),a->b);
      if(b->op==X_OR&&isK(b->b)&&((b->b->c&~b->a->kz)==0)) return mkBin(X_ADD,mkBin(X_ADD,a,b->a),b->b);
      if(a->op==X_SHL&&b->op==X_SHL&&a->b==b->b&&isK(a->b)) return mkBin(X_SHL,mkBin(X_ADD,a->a,b->a),a->b);
      if(a->op==X_SHL&&isK(a->b)){ Expr*h=halve(b,a->b->c); if(h) return mkBin(X_SHL,mkBin(X_ADD,a->a,h),a->b); }
      if(b->op==X_SHL&&isK(b->b)){ Expr*h=halve(a,b->b->c); if(h) return mkBin(X_SHL,mkBin(X_ADD,b->a,h),b->b); }
      if((~a->kz&~b->kz&m)==0) return mkBin(X_OR,a,b);
      if(b->op==X_SUB&&b->b==a) return b->a;
      if(a->op==X_SUB&&a->b==b) return a->a;
    }
    break;
  case X_SUB:
    if(a==b) return K(w,0);
    if(isK(b)) return mkBin(X_ADD,a,K(w,0-b->c));
    if(a->op==X_ADD&&isK(a->b)) return mkBin(X_ADD,mkBin(X_SUB,a->a,b),a->b);
    if(a->op==X_OR&&isK(a->b)&&((a->b->c&~a->a->kz)==0)) return mkBin(X_ADD,mkBin(X_SUB,a->a,b),a->b);
    if(isK(a)&&sx(a->c,w)<0) return mkBin(X_SUB,K(w,0),mkBin(X_ADD,b,K(w,0-a->c)));
    if(isK(a)&&((b->op==X_ADD&&isK(b->b))||(b->op==X_OR&&isK(b->b)&&((b->b->c&~b->a->kz)==0)))){ u64 k=(a->c-b->b->c)&m; if(sx(k,w)>=0) return mkBin(X_SUB,K(w,k),b->a); if(a->c!=0) return mkBin(X_SUB,K(w,0),mkBin(X_ADD,b->a,K(w,0-k))); break; }
    if(b->op==X_ADD&&isK(b->b)) return mkBin(X_ADD,mkBin(X_SUB,a,b->a),K(w,0-b->b->c));
    if(b->op==X_OR&&isK(b->b)&&((b->b->c&~b->a->kz)==0)) return mkBin(X_ADD,mkBin(X_SUB,a,b->a),K(w,0-b->b->c));
    if(a->op==X_SHL&&b->op==X_SHL&&a->b==b->b&&isK(a->b)) return mkBin(X_SHL,mkBin(X_SUB,a->a,b->a),a->b);
    if(isK(a)&&b->op==X_SUB&&isK(b->a)) return mkBin(X_ADD,b->b,K(w,a->c-b->a->c));
    if(b->op==X_SUB&&isK(b->a)&&b->a->c==0) return mkBin(X_ADD,a,b->b);
    if(a->op==X_SHL&&isK(a->b)&&a->a->op==X_SUB&&isK(a->a->a)&&a->a->a->c==0&&!isK(b)) return mkBin(X_SUB,K(w,0),mkBin(X_ADD,mkBin(X_SHL,a->a->b,a->b),b));
    if(a->op==X_SUB&&isK(a->a)&&!isK(b)) return mkBin(X_SUB,a->a,mkBin(X_ADD,a->b,b));
    if(a->op==X_ADD&&a->a==b) return a->b;
    if(a->op==X_ADD&&a->b==b) return a->a;
    if(isK(a)&&b->op!=X_SHL&&(b->kz&1)&&(b->op==X_ADD||b->op==X_MUL||b->op==X_ZEXT)){ Expr*h=halve(b,1); if(h){ h=mkBin(X_SHL,h,K(w,1)); if(h->op==X_SHL) return mkBin(X_SUB,a,h); } }
    if(isK(a)&&b->op==X_SHL&&isK(b->b)&&b->b->c<(u64)w&&b->b->c>0) return mkBin(X_OR,mkBin(X_SHL,mkBin(X_SUB,K(w,(u64)(sx(a->c,w)>>b->b->c)),b->a),b->b),K(w,a->c&maskw(b->b->c)));
    break;
  case X_MUL:
    if(a->op==X_SUB&&isK(a->a)&&a->a->c==0) return mkBin(X_SUB,a->a,mkBin(X_MUL,a->b,b));
    if(b->op==X_SUB&&isK(b->a)&&b->a->c==0) return mkBin(X_SUB,b->a,mkBin(X_MUL,a,b->b));
    if(a->op==X_SHL&&isK(a->b)) return mkBin(X_SHL,mkBin(X_MUL,a->a,b),a->b);
    if(b->op==X_SHL&&isK(b->b)) return mkBin(X_SHL,mkBin(X_MUL,a,b->a),b->b);
    if(!(isK(b)&&(b->c&(b->c-1))==0)){ int na=w-a->sb+1,nb=w-b->sb+1,ua=ubits(a),ub=ubits(b); int ns=na+nb,nu=ua+ub; 
      if(nu<w&&nu<=ns) return mkZext(mkBin(X_MUL,mkExtract(a,0,nu),mkExtract(b,0,nu)),w);
      if(ns<w) return mkSext(mkBin(X_MUL,mkExtract(a,0,ns),mkExtract(b,0,ns)),w); }
    if(isK(b)){ if(b->c==0) return b; if(b->c==1) return a; if((b->c&(b->c-1))==0) return mkBin(X_SHL,a,K(w,__builtin_ctzll(b->c)));
      if(a->op==X_MUL&&isK(a->b)) return mkBin(X_MUL,a->a,K(w,a->b->c*b->c));
      if(a->op==X_SHL&&isK(a->b)) return mkBin(X_SHL,mkBin(X_MUL,a->a,b),a->b); }
    else { if(a->op==X_SHL&&isK(a->b)) return mkBin(X_SHL,mkBin(X_MUL,a->a,b),a->b);
      if(b->op==X_SHL&&isK(b->b)) return mkBin(X_SHL,mkBin(X_MUL,a,b->a),b->b); }
    break;
  case X_UDIV: if(isK(b)&&b->c==1) return a; if(isK(b)&&b->c>1){ if(a->um<b->c) return K(w,0); Lin Q,R; if(linSplit(a,b->c,Q,R)) return mkBin(X_ADD,linBuild(Q,w),mkBin(X_UDIV,linBuild(R,w),b)); } if(isK(b)&&b->c&&(b->c&(b->c-1))==0) return mkBin(X_LSHR,a,K(w,__builtin_ctzll(b->c)));
    if((isK(b)&&b->c)||(w>8)){ int n=std::max(ubits(a),ubits(b)); if(n<w&&n>0) return mkZext(mkBin(X_UDIV,mkExtract(a,0,n),mkExtract(b,0,n)),w); } // b = 0 traps before this is used
    { Expr*x,*y; if(shlBoth(a,b,x,y,false)) return mkBin(X_UDIV,x,y); if(shlLow(a,b,x,y)) return mkBin(X_UDIV,x,y); }
    break;
  case X_UREM: if(isK(b)&&b->c>1){ if(a->um<b->c) return a; Lin Q,R; if(linSplit(a,b->c,Q,R)) return mkBin(X_UREM,linBuild(R,w),b); }
    if(isK(b)&&b->c&&(b->c&(b->c-1))==0) return mkBin(X_AND,a,K(w,b->c-1)); 
    { Expr*x,*y; if(shlBoth(a,b,x,y,false)||shlLow(a,b,x,y)) return mkBin(X_SHL,mkBin(X_UREM,x,y),a->b); }
    { int n=std::max(ubits(a),ubits(b)); if(n<w&&n>0) return mkZext(mkBin(X_UREM,mkExtract(a,0,n),mkExtract(b,0,n)),w); }
    break;
  case X_SDIV: if(isK(b)&&b->c==1) return a;
    { Expr*x,*y; if(shlBoth(a,b,x,y,true)) return mkBin(X_SDIV,x,y); }
    if(a->op==X_SUB&&isK(a->a)&&a->a->c==0&&a->sb>1) return mkBin(X_SUB,a->a,mkBin(X_SDIV,a->b,b));
    if(b->op==X_SUB&&isK(b->a)&&b->a->c==0&&b->sb>1&&a->sb>1) return mkBin(X_SUB,b->a,mkBin(X_SDIV,a,b->b)); // b = 0 traps before this is used
    if((a->kz>>(w-1)&1)&&(b->kz>>(w-1)&1)&&(b->ko||!isK(b))) return mkBin(X_UDIV,a,b);
    if((a->kz>>(w-1)&1)&&isK(b)&&(b->c>>(w-1)&1)) return mkBin(X_SUB,K(w,0),mkBin(X_UDIV,a,K(w,0-b->c)));
    { int n=std::max(w-a->sb+1,w-b->sb+1)+1; if(n<w) return mkSext(mkBin(X_SDIV,mkExtract(a,0,n),mkExtract(b,0,n)),w); }
    break;
  case X_SREM: 
    { Expr*x,*y; if(shlBoth(a,b,x,y,true)) return mkBin(X_SHL,mkBin(X_SREM,x,y),a->b); }
    if(a->op==X_SUB&&isK(a->a)&&a->a->c==0&&a->sb>1) return mkBin(X_SUB,a->a,mkBin(X_SREM,a->b,b));
    if(b->op==X_SUB&&isK(b->a)&&b->a->c==0&&b->sb>1&&a->sb>1) return mkBin(X_SREM,a,b->b);
    if((a->kz>>(w-1)&1)&&(b->kz>>(w-1)&1)) return mkBin(X_UREM,a,b);
    if((a->kz>>(w-1)&1)&&isK(b)&&(b->c>>(w-1)&1)) return mkBin(X_UREM,a,K(w,0-b->c));
    { int n=std::max(w-a->sb+1,w-b->sb+1)+1; if(n<w) return mkSext(mkBin(X_SREM,mkExtract(a,0,n),mkExtract(b,0,n)),w); }
    break;
  case X_AND:
    if(a==b) return a;
    if(isK(b)){ if(b->c==0) return b; if((b->c|a->kz)==m || ((~b->c&m)&~a->kz)==0) return a;
      if(a->op==X_AND&&isK(a->b)) return mkBin(X_AND,a->a,K(w,a->b->c&b->c));
      u64 mm=b->c; if((mm&(mm+1))==0 && w>1){ int nb=64-__builtin_clzll(mm); if(nb<w) return mkZext(mkExtract(a,0,nb),w); }
      if(a->op==X_ADD&&isK(a->b)&&((~mm&m)&(~mm+1)&m)==0&&(a->a->kz&~mm&m)==(~mm&m)) return mkBin(X_ADD,a->a,K(w,a->b->c&mm));
      if(a->op==X_OR&&isK(a->b)) return mkBin(X_OR,mkBin(X_AND,a->a,b),K(w,a->b->c&b->c)); }
    if(w==1){ Expr*n; if(isNotOf(a,n)&&n==b) return K(1,0); if(isNotOf(b,n)&&n==a) return K(1,0); }
    break;
  case X_OR:
    if(a==b) return a;
    if(isK(b)){ if(b->c==0) return a; if(b->c==m) return b; if((b->c&~a->ko)==0) return a;
      if(a->op==X_OR&&isK(a->b)) return mkBin(X_OR,a->a,K(w,a->b->c|b->c)); }
    else { if(a->op==X_OR&&isK(a->b)) return mkBin(X_OR,mkBin(X_OR,a->a,b),a->b);
      if(b->op==X_OR&&isK(b->b)) return mkBin(X_OR,mkBin(X_OR,a,b->a),b->b); 
      if(a->op==X_SHL&&b->op==X_SHL&&isK(a->b)&&isK(b->b)){ if(a->b->c>b->b->c) std::swap(a,b); if(b->b->c<(u64)w) return mkBin(X_SHL,mkBin(X_OR,a->a,mkBin(X_SHL,b->a,K(w,b->b->c-a->b->c))),a->b); }
      // or of zext/shl pieces -> concat (byte assembly)
      Expr*x=a,*y=b; for(int t=0;t<2;t++,std::swap(x,y)) if(x->op==X_SHL&&isK(x->b)&&y->op==X_ZEXT&&y->a->w==(int)x->b->c&&x->a->op==X_ZEXT&&x->a->a->w+y->a->w<=w) return mkZext(mkConcat(x->a->a,y->a),w); }
    if(w==1){ Expr*n; if(isNotOf(a,n)&&n==b) return K(1,1); if(isNotOf(b,n)&&n==a) return K(1,1); }
    break;
  case X_XOR:
    if(a==b) return K(w,0);
    if(isK(b)){ if(b->c==0) return a; if(a->op==X_XOR&&isK(a->b)) return mkBin(X_XOR,a->a,K(w,a->b->c^b->c));
      if(w==1&&a->op==X_ITE) return mkIte(a->a,mkNot(a->b),mkNot(a->d)); }
    break;
  case X_SHL: case X_LSHR: case X_ASHR:
    if(isK(b)){
      u64 k=b->c; if(k==0) return a; if(k>=(u64)w){ if(op!=X_ASHR) return K(w,0); k=w-1; b=K(w,k);} 
      if(op==X_SHL){
        if(a->op==X_SHL&&isK(a->b)) return mkBin(X_SHL,a->a,K(w,k+a->b->c));
        if(a->op==X_OR&&isK(a->b)) return mkBin(X_OR,mkBin(X_SHL,a->a,b),K(w,a->b->c<<k));
        if(a->op==X_ADD&&isK(a->b)) return mkBin(X_ADD,mkBin(X_SHL,a->a,b),K(w,a->b->c<<k));
        if((a->op==X_LSHR||a->op==X_ASHR)&&a->b==b) return mkBin(X_AND,a->a,K(w,m<<k));
      } else {
        if(a->op==op&&isK(a->b)){ u64 t=k+a->b->c; return mkBin(op,a->a,K(w,t)); }
        if(a->op==X_OR||(a->op==X_AND)||(a->op==X_XOR)) if(isK(a->b)) return mkBin(a->op,mkBin(op,a->a,b),K(w,foldbin(op,w,a->b->c,k)));
        if(op==X_ASHR && a->op==X_SHL && isK(a->b)){ u64 k2=a->b->c; if(a->a->sb>k2){ if(k2==k) return a->a; if(k2>k) return mkBin(X_SHL,a->a,K(w,k2-k)); return mkBin(X_ASHR,a->a,K(w,k-k2)); }
            if(k2==k) return mkSext(mkExtract(a->a,0,w-k),w); if(k>k2) return mkBin(X_ASHR,mkSext(mkExtract(a->a,0,w-k2),w),K(w,k-k2)); }
        if(op==X_LSHR && a->op==X_SHL && isK(a->b)){ u64 k2=a->b->c; if(k2==k) return mkZext(mkExtract(a->a,0,w-k),w); if(k>k2) return mkBin(X_LSHR,mkZext(mkExtract(a->a,0,w-k2),w),K(w,k-k2)); }
        if(a->op==X_SUB&&isK(a->a)&&k<(u64)w){ Expr*y=mkExtract(a,k,w-k); if(y->op!=X_EXTRACT||y->a!=a) return op==X_ASHR? mkSext(y,w):mkZext(y,w); }
        if(a->op==X_ADD&&isK(a->b)&&a->a->op==X_SHL&&a->a->b==b&&k<(u64)w){ Expr*y=mkExtract(mkBin(X_ADD,a->a->a,K(w,(u64)(sx(a->b->c,w)>>k))),0,w-k); return op==X_ASHR? mkSext(y,w):mkZext(y,w); }
        if(op==X_ASHR && (a->kz>>(w-1)&1)) return mkBin(X_LSHR,a,b);
        if(op==X_LSHR && a->op==X_ZEXT){ int wx=a->a->w; if(k>=(u64)wx) return K(w,0); return mkZext(mkExtract(a->a,k,wx-k),w); }
        if(op==X_ASHR && a->op==X_SEXT){ int wx=a->a->w; if(k>=(u64)wx) return mkSext(mkExtract(a->a,wx-1,1),w); return mkSext(mkExtract(a->a,k,wx-k),w); }
        if(op==X_LSHR && a->op==X_CONCAT && k>=a->b->w) return mkBin(X_LSHR,mkZext(a->a,w),K(w,k-a->b->w));
      }
    }
    break;
  }
  return fin(op,w,a,b); }

static bool zeroIf(Expr*x,Expr*d,int dep=0){ // is x = 0 whenever d = 0
  if(x==d) return true; if(dep>12) return false;
  switch(x->op){ case X_CONST: return x->c==0;
  case X_ZEXT: case X_SEXT: case X_EXTRACT: return zeroIf(x->a,d,dep+1);
  case X_SHL: case X_LSHR: case X_ASHR: return zeroIf(x->a,d,dep+1);
  case X_MUL: case X_AND: return zeroIf(x->a,d,dep+1)||zeroIf(x->b,d,dep+1);
  case X_SUB: case X_ADD: case X_OR: case X_CONCAT: return zeroIf(x->a,d,dep+1)&&zeroIf(x->b,d,dep+1);
  default: return false; } }
static Expr* mkIte(Expr*c,Expr*a,Expr*b){
  if(isK(c)) return c->c? a:b;
  if(a==b) return a;
  Expr*n; if(isNotOf(c,n)) return mkIte(n,b,a);
  if(a->w==1){
    if(isK(a)&&isK(b)) return a->c? c : mkNot(c);
    if(isK(a)) return a->c? mkBin(X_OR,c,b) : mkBin(X_AND,mkNot(c),b);
    if(isK(b)) return b->c? mkBin(X_OR,mkNot(c),a) : mkBin(X_AND,c,a); 
    if(a==c) return mkBin(X_OR,c,b); if(b==c) return mkBin(X_AND,c,a); }
  if(a->op==X_ITE&&a->a==c) a=a->b;
  if(b->op==X_ITE&&b->a==c) b=b->d;
  if(a==b) return a;
  if(a->w>1&&c->op==X_EQ&&isK(c->b)&&c->b->c==0&&!isK(a)&&!isK(b)){ Expr*z=K(a->w,0);
    if((mkBin(X_SUB,z,a)==b||mkBin(X_SUB,z,b)==a)&&zeroIf(a,c->a)&&zeroIf(b,c->a)) return b; }
  if(b->op==X_ITE&&b->b==a) return mkIte(mkBin(X_OR,c,b->a),a,b->d);
  if(b->op==X_ITE&&b->d==a) return mkIte(mkBin(X_OR,c,mkNot(b->a)),a,b->b);
  return fin(X_ITE,a->w,c,a,b); }

struct ECache { Expr*a,*r; int lo,w; }; static ECache* ecache=nullptr;
static Expr* mkExtract0(Expr*a,int lo,int w);
static Expr* mkExtract(Expr*a,int lo,int w){
  if(lo==0&&w==a->w) return a;
  if(isK(a)) return K(w,a->c>>lo);
  if(!ecache) ecache=(ECache*)calloc(1u<<16,sizeof(ECache));
  ECache*c=&ecache[(hmix(hmix(lo*64+w,(u64)a),7)>>24)&0xffff]; if(c->a==a&&c->lo==lo&&c->w==w&&c->r) return c->r;
  Expr*r=mkExtract0(a,lo,w); c->a=a; c->lo=lo; c->w=w; c->r=r; return r; }
static Expr* mkExtract0(Expr*a,int lo,int w){
  switch(a->op){
  case X_EXTRACT: return mkExtract(a->a,lo+a->c,w);
  case X_CONCAT: if(lo>=a->b->w) return mkExtract(a->a,lo-a->b->w,w); if(lo+w<=a->b->w) return mkExtract(a->b,lo,w);
    return mkConcat(mkExtract(a->a,0,lo+w-a->b->w),mkExtract(a->b,lo,a->b->w-lo));
  case X_ADD: if(lo==0) goto lowarith; if(isK(a->b)&&(a->a->kz&1)){ Expr*h=halve(a->a,lo); if(h) return mkExtract(mkBin(X_ADD,h,K(a->w,(u64)(sx(a->b->c,a->w)>>lo))),0,w); } break;
  case X_SUB: if(lo==0) goto lowarith; if(isK(a->a)){ Expr*y=a->b; u64 k=a->a->c; if((y->op==X_ADD&&isK(y->b))||(y->op==X_OR&&isK(y->b)&&(y->b->c&~y->a->kz)==0)){ k-=y->b->c; y=y->a; } Expr*h=(y->kz&1)?halve(y,lo):nullptr; if(h) return mkExtract(mkBin(X_SUB,K(a->w,(u64)(sx(k,a->w)>>lo)),h),0,w); } break;
  case X_ZEXT: if(lo>=a->a->w) return K(w,0); if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); return mkZext(mkExtract(a->a,lo,a->a->w-lo),w);
  case X_SEXT: if(lo+w<=a->a->w) return mkExtract(a->a,lo,w); if(lo<a->a->w) return mkSext(mkExtract(a->a,lo,a->a->w-lo),w); return mkSext(mkExtract(a->a,a->a->w-1,1),w);
  case X_AND: case X_OR: case X_XOR: return mkBin(a->op,mkExtract(a->a,lo,w),mkExtract(a->b,lo,w));
  lowarith: case X_MUL: if(lo==0&&(a->op!=X_MUL||isK(a->b)||isK(a->a))) return mkBin(a->op,mkExtract(a->a,0,w),mkExtract(a->b,0,w)); break;
  case X_ITE: if(iteK(a)||isK(a->b)||isK(a->d)) return mkIte(a->a,mkExtract(a->b,lo,w),mkExtract(a->d,lo,w)); break;
  case X_LSHR: if(isK(a->b)&&lo+w+(int)a->b->c<=a->w) return mkExtract(a->a,lo+a->b->c,w); break;
  case X_ASHR: if(isK(a->b)&&lo+w+(int)a->b->c<=a->w) return mkExtract(a->a,lo+a->b->c,w); break;
  case X_SHL: if(isK(a->b)){ int k=a->b->c; if(lo>=k) return mkExtract(a->a,lo-k,w); if(lo+w<=k) return K(w,0); return mkBin(X_SHL,mkExtract(a->a,0,w),K(w,k-lo)); } break;
  }
  return fin(X_EXTRACT,w,a,0,0,lo); }

static Expr* mkZext(Expr*a,int w){
  if(w==a->w) return a; if(isK(a)) return K(w,a->c);
  if(a->op==X_ZEXT) return mkZext(a->a,w);
  if(a->w==1) return mkIte(a,K(w,1),K(w,0));
  if(a->op==X_ITE&&iteK(a)) return mkIte(a->a,mkZext(a->b,w),mkZext(a->d,w));
  if(a->op==X_SHL&&isK(a->b)&&a->b->c<(u64)a->w&&(((unsigned __int128)a->a->um)<<a->b->c)<=maskw(a->w)) return mkBin(X_SHL,mkZext(a->a,w),K(w,a->b->c));
  return fin(X_ZEXT,w,a); }
static Expr* mkSext(Expr*a,int w){
  if(w==a->w) return a; if(isK(a)) return K(w,(u64)sx(a->c,a->w));
  if(a->op==X_SEXT) return mkSext(a->a,w);
  if(a->op==X_SUB&&isK(a->a)&&a->a->c==0&&a->b->sb>1) return mkBin(X_SUB,K(w,0),mkSext(a->b,w));
  if(a->kz>>(a->w-1)&1) return mkZext(a,w);
  if(a->w==1) return mkIte(a,K(w,~0ull),K(w,0));
  if(a->op==X_ITE&&iteK(a)) return mkIte(a->a,mkSext(a->b,w),mkSext(a->d,w));
  if(a->op==X_EXTRACT&&a->c==0&&a->a->w==w&&a->a->sb>w-a->w) return a->a;
  return fin(X_SEXT,w,a); }
static Expr* mkConcat(Expr*hi,Expr*lo){
  int w=hi->w+lo->w;
  if(isK(hi)&&isK(lo)) return K(w,(hi->c<<lo->w)|lo->c);
  if(hi->op==X_EXTRACT&&lo->op==X_EXTRACT&&hi->a==lo->a&&hi->c==lo->c+lo->w) return mkExtract(lo->a,lo->c,w);
  if(isK(hi)&&hi->c==0) return mkZext(lo,w);
  if(hi->op==X_EXTRACT && lo->w==(int)hi->c && hi->a==lo) return lo; // cannot happen by width, defensive
  if(lo->op==X_CONCAT){ // right-assoc merge: concat(hi, concat(x,y))
    if(hi->op==X_EXTRACT&&lo->a->op==X_EXTRACT&&hi->a==lo->a->a&&hi->c==lo->a->c+lo->a->w) return mkConcat(mkConcat(hi,lo->a),lo->b);
    if(isK(hi)&&isK(lo->a)) return mkConcat(mkConcat(hi,lo->a),lo->b); }
  return fin(X_CONCAT,w,hi,lo); }

// high 64 bits of the signed 128-bit product
static Expr* mkMulHi(Expr*a,Expr*b){ if(isK(a)&&isK(b)) return K(64,foldbin(X_MULHI,64,a->c,b->c));
  { int i=0,j=0; Expr*x=a,*y=b; if(x->op==X_SHL&&isK(x->b)&&x->a->sb>x->b->c){ i=x->b->c; x=x->a; } if(y->op==X_SHL&&isK(y->b)&&y->a->sb>y->b->c){ j=y->b->c; y=y->a; }
    if(i+j>0){ int n=64-x->sb+1+64-y->sb+1; if(n<=64&&i+j<64) return mkBin(X_ASHR,mkBin(X_MUL,x,y),K(64,64-i-j)); } }
   int va=64-a->sb+1,vb=64-b->sb+1; if(va+vb<=64) return mkBin(X_ASHR,mkBin(X_MUL,a,b),K(64,63)); if(a->id>b->id) std::swap(a,b); return fin(X_MULHI,64,a,b); }
// ---------------- concrete evaluation under an assignment ----------------
static std::vector<u64> witness;   // var index -> value
static u64 evepoch=1;
static u64 evalx(Expr*e){
  if(e->op==X_CONST) return e->c;
  if(e->ep==evepoch) return e->ev;
  u64 r=0,m=maskw(e->w);
  switch(e->op){
  case X_VAR: r=e->c<witness.size()?witness[e->c]&m:0; break;
  case X_CONCAT: r=(evalx(e->a)<<e->b->w)|evalx(e->b); break;
  case X_EXTRACT: r=(evalx(e->a)>>e->c)&m; break;
  case X_ZEXT: r=evalx(e->a); break;
  case X_SEXT: r=(u64)sx(evalx(e->a),e->a->w)&m; break;
  case X_ITE: r=evalx(e->a)?evalx(e->b):evalx(e->d); break;
  default: r=foldbin(e->op,e->a->w,evalx(e->a),evalx(e->b)); }
  e->ep=evepoch; e->ev=r; return r; }

// ---------------- z3 lowering ----------------
static Z3_context Z; 
static std::vector<Z3_ast> zvars; static std::vector<int> zvarw;
static Z3_sort bvs[65];
static Z3_sort bvsort(int w){ if(!bvs[w]) { bvs[w]=Z3_mk_bv_sort(Z,w); Z3_inc_ref(Z,Z3_sort_to_ast(Z,bvs[w])); } return bvs[w]; }
static Z3_ast keep(Z3_ast a){ Z3_inc_ref(Z,a); return a; }
static Z3_ast lowB(Expr*e);
// Products and quotients of two unknowns are first left undefined (a fresh variable); solve() adds the definitions,
// each behind a guard literal, only when the abstract query is not already unsatisfiable.
struct Hard { Z3_ast guard; Z3_ast def; };
static std::vector<Hard> hards;
static Z3_ast rawop(Expr*e);
static Z3_ast lowV(Expr*e){
  if(e->zv) return e->zv;
  if(e->w>8&&(e->op==X_MUL||e->op==X_MULHI||e->op==X_UDIV||e->op==X_SDIV||e->op==X_UREM||e->op==X_SREM)&&!isK(e->a)&&!isK(e->b)){
    char n[32]; snprintf(n,32,"h%zu",hards.size()); Z3_ast v=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),bvsort(e->w))); n[0]='d'; Z3_ast g=keep(Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),Z3_mk_bool_sort(Z)));
    Z3_ast d=keep(Z3_mk_eq(Z,v,rawop(e))); hards.push_back({g,d}); return e->zv=v; }
  return e->zv=keep(rawop(e)); }
static Z3_ast rawop(Expr*e){
  Z3_ast r;
  switch(e->op){
  case X_CONST: r=Z3_mk_unsigned_int64(Z,e->c,bvsort(e->w)); break;
  case X_VAR: r=zvars[e->c]; break;
  case X_ADD: r=Z3_mk_bvadd(Z,lowV(e->a),lowV(e->b)); break;
  case X_SUB: r=Z3_mk_bvsub(Z,lowV(e->a),lowV(e->b)); break;
  case X_MUL: r=Z3_mk_bvmul(Z,lowV(e->a),lowV(e->b)); break;
  case X_MULHI: r=Z3_mk_extract(Z,127,64,Z3_mk_bvmul(Z,Z3_mk_sign_ext(Z,64,lowV(e->a)),Z3_mk_sign_ext(Z,64,lowV(e->b)))); break;
  case X_UDIV: r=Z3_mk_bvudiv(Z,lowV(e->a),lowV(e->b)); break;
  case X_SDIV: r=Z3_mk_bvsdiv(Z,lowV(e->a),lowV(e->b)); break;
  case X_UREM: r=Z3_mk_bvurem(Z,lowV(e->a),lowV(e->b)); break;
  case X_SREM: r=Z3_mk_bvsrem(Z,lowV(e->a),lowV(e->b)); break;
  case X_SHL: r=Z3_mk_bvshl(Z,lowV(e->a),lowV(e->b)); break;
  case X_LSHR: r=Z3_mk_bvlshr(Z,lowV(e->a),lowV(e->b)); break;
  case X_ASHR: r=Z3_mk_bvashr(Z,lowV(e->a),lowV(e->b)); break;
  case X_CONCAT: r=Z3_mk_concat(Z,lowV(e->a),lowV(e->b)); break;
  case X_EXTRACT: r=Z3_mk_extract(Z,e->c+e->w-1,e->c,lowV(e->a)); break;
  case X_ZEXT: r=Z3_mk_zero_ext(Z,e->w-e->a->w,lowV(e->a)); break;
  case X_SEXT: r=Z3_mk_sign_ext(Z,e->w-e->a->w,lowV(e->a)); break;
  default:
    if(e->w==1){ r=Z3_mk_ite(Z,lowB(e),Z3_mk_unsigned_int64(Z,1,bvsort(1)),Z3_mk_unsigned_int64(Z,0,bvsort(1))); break; }
    switch(e->op){
    case X_AND: r=Z3_mk_bvand(Z,lowV(e->a),lowV(e->b)); break;
    case X_OR: r=Z3_mk_bvor(Z,lowV(e->a),lowV(e->b)); break;
    case X_XOR: r=Z3_mk_bvxor(Z,lowV(e->a),lowV(e->b)); break;
    case X_ITE: r=Z3_mk_ite(Z,lowB(e->a),lowV(e->b),lowV(e->d)); break;
    default: fprintf(stderr,"lowV: op %d\n",e->op); abort(); } }
  return r; }
static Z3_ast lowB(Expr*e){
  if(e->zb) return e->zb;
  Z3_ast r, t[2];
  switch(e->op){
  case X_CONST: r=e->c?Z3_mk_true(Z):Z3_mk_false(Z); break;
  case X_EQ: if(e->a->w==1) r=Z3_mk_iff(Z,lowB(e->a),lowB(e->b)); else r=Z3_mk_eq(Z,lowV(e->a),lowV(e->b)); break;
  case X_ULT: r=Z3_mk_bvult(Z,lowV(e->a),lowV(e->b)); break;
  case X_ULE: r=Z3_mk_bvule(Z,lowV(e->a),lowV(e->b)); break;
  case X_SLT: r=Z3_mk_bvslt(Z,lowV(e->a),lowV(e->b)); break;
  case X_SLE: r=Z3_mk_bvsle(Z,lowV(e->a),lowV(e->b)); break;
  case X_AND: t[0]=lowB(e->a); t[1]=lowB(e->b); r=Z3_mk_and(Z,2,t); break;
  case X_OR: t[0]=lowB(e->a); t[1]=lowB(e->b); r=Z3_mk_or(Z,2,t); break;
  case X_XOR: if(isK(e->b)&&e->b->c) r=Z3_mk_not(Z,lowB(e->a)); else r=Z3_mk_xor(Z,lowB(e->a),lowB(e->b)); break;
  case X_ITE: r=Z3_mk_ite(Z,lowB(e->a),lowB(e->b),lowB(e->d)); break;
  default: r=Z3_mk_eq(Z,lowV(e),Z3_mk_unsigned_int64(Z,1,bvsort(1))); }
  return e->zb=keep(r); }
