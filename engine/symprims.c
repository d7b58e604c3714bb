/* Extra runtime primitives used by the verification harnesses.
   -DSYMEX: compiled to bitcode, backed by the symbolic executor.
   otherwise: native build; inputs are replayed from the file named by SYMREPLAY. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include "mlvalues.h"
#include "alloc.h"
#include "memory.h"
#include "fail.h"
#include "str.h"
#include "major_gc.h"
#include "minor_gc.h"

#ifdef SYMEX
extern long __se_var(int), __se_varr(int,unsigned long), __se_conc(long), __se_ite(long,long,long);
extern void __se_assume(long), __se_check(long,const char*), __se_reach(const char*), __se_input(long), __se_done(void), __se_obs(long), __se_violate(const char*);
#else
static long *rin; static long nin=-1, pin=0; static unsigned long ohash=1469598103934665603ul; static long nobs=0; static int isdone=0;
static void atend(void){ const char*f=getenv("SYMREPORT"); if(f){ FILE*o=fopen(f,"w"); if(o){ fprintf(o,"obs %lx\nnobs %ld\nused %ld of %ld\ndone %d\n",ohash,nobs,pin,nin,isdone); fclose(o);} } }
static void ld(void){ if(nin>=0) return; nin=0; atexit(atend); const char*f=getenv("SYMREPLAY"); if(!f) return; FILE*i=fopen(f,"r"); if(!i) return; long cap=1024; rin=malloc(cap*sizeof(long)); long v; while(fscanf(i,"%ld",&v)==1){ if(nin==cap){ cap*=2; rin=realloc(rin,cap*sizeof(long)); } rin[nin++]=v; } fclose(i); }
static long nextin(void){ ld(); if(pin<nin) return rin[pin++]; fprintf(stderr,"SYMEXHAUSTED\n"); _exit(98); }
static void __se_assume(long c){ if(!c){ fprintf(stderr,"SYMASSUME\n"); _exit(96); } }
static void fail_(const char*l){ fprintf(stderr,"SYMFAIL %s\n",l); ld(); fflush(stderr); _exit(97); }
static void __se_check(long c,const char*l){ if(!c) fail_(l); }
static void __se_violate(const char*l){ fail_(l); }
static void __se_reach(const char*l){} 
static void __se_done(void){ ld(); isdone=1; }
static void __se_obs(long v){ ld(); nobs++; for(int i=0;i<8;i++){ ohash^=((unsigned long)v>>(8*i))&255; ohash*=1099511628211ul; } }
static long __se_conc(long v){ return v; }
static long __se_ite(long c,long a,long b){ return c?a:b; }
#endif

/* signed value of [bits] bits */
static long in_bits(int bits){
#ifdef SYMEX
  long v=__se_var(bits); if(bits<64) v=(v<<(64-bits))>>(64-bits); __se_input(v); return v;
#else
  return nextin();
#endif
}
static int bitlen(unsigned long x){ int n=0; while(x){ n++; x>>=1; } return n; }
long sym_fault(long lo,long hi){
#ifdef SYMEX
  unsigned long span=(unsigned long)hi-(unsigned long)lo; int b=bitlen(span); unsigned long v= b? (unsigned long)__se_varr(b,span):0; long r=lo+(long)v; __se_input(r); return r;
#else
  return nextin();
#endif
}
static long rng(long lo,long hi){ return sym_fault(lo,hi); }

value sym_int(value bits)          /* ML */
{ return Val_long(in_bits(Long_val(bits))); }

value sym_range(value lo, value hi)          /* ML */
{ return Val_long(rng(Long_val(lo),Long_val(hi))); }

value sym_bool(value u)          /* ML */
{ long b=rng(0,1); return (value)__se_ite(b,(long)Atom(1),(long)Atom(0)); }

/* concrete value, one path per feasible value */
value sym_pick(value v)          /* ML */
{ return (value)__se_conc((long)v); }

value sym_string(value n, value lo, value hi)          /* ML */
{ long k=Long_val(n); value s=alloc_string(k); long i; for(i=0;i<k;i++) Byte(s,i)=(char)rng(Long_val(lo),Long_val(hi)); return s; }

value sym_alpha(value n, value set)          /* ML */
{ Push_roots(r,1); long k=Long_val(n); value s; long i,j,m; r[0]=set; s=alloc_string(k); set=r[0]; m=string_length(set);
  for(i=0;i<k;i++){ long ix=rng(0,m-1); long c=(unsigned char)Byte(set,0); for(j=1;j<m;j++) c=__se_ite(ix==j,(long)(unsigned char)Byte(set,j),c); Byte(s,i)=(char)c; }
  Pop_roots(); return s; }

value sym_assume(value b)          /* ML */
{ __se_assume(Tag_val(b)); return Atom(0); }

value sym_check(value label, value b)          /* ML */
{ __se_check(Tag_val(b),String_val(label)); return Atom(0); }

value sym_violate(value label)          /* ML */
{ __se_violate(String_val(label)); return Atom(0); }

value sym_reach(value label)          /* ML */
{ __se_reach(String_val(label)); return Atom(0); }

value sym_done(value u)          /* ML */
{ __se_done(); return Atom(0); }

value sym_obs(value v)          /* ML */
{ __se_obs(Long_val(v)); return Atom(0); }

value sym_obss(value s)          /* ML */
{ long i,n=string_length(s); __se_obs(n); for(i=0;i<n;i++) __se_obs((unsigned char)Byte(s,i)); return Atom(0); }

/* conditions combined without branching */
value sym_and(value a, value b)          /* ML */
{ long x=Tag_val(a), y=Tag_val(b); return (value)__se_ite(x&y,(long)Atom(1),(long)Atom(0)); }
value sym_or(value a, value b)          /* ML */
{ long x=Tag_val(a), y=Tag_val(b); return (value)__se_ite(x|y,(long)Atom(1),(long)Atom(0)); }
value sym_not(value a)          /* ML */
{ long x=Tag_val(a); return (value)__se_ite(x,(long)Atom(0),(long)Atom(1)); }
value sym_sel(value c, value a, value b)          /* ML */
{ return (value)__se_ite(Tag_val(c),(long)a,(long)b); }
value sym_streq(value a, value b)          /* ML */
{ long n=string_length(a); if(n!=string_length(b)) return Atom(0); { long d=memcmp(String_val(a),String_val(b),n); return (value)__se_ite(d==0,(long)Atom(1),(long)Atom(0)); } }

/* exact 128-bit products for specifications: is a*b = c as integers? */
value sym_mulexact(value a, value b, value c)          /* ML */
{ long x=Long_val(a), y=Long_val(b), z=Long_val(c), hi; 
#ifdef SYMEX
  extern long __se_mulhi(long,long); hi=__se_mulhi(x,y);
#else
  hi=(long)(((__int128)x*y)>>64);
#endif
  { long lo=(long)((unsigned long)x*(unsigned long)y); long ok=(lo==z)&(hi==(z>>63)); return (value)__se_ite(ok,(long)Atom(1),(long)Atom(0)); } }
value sym_mulfits(value a, value b)          /* ML */
{ long x=Long_val(a), y=Long_val(b), hi; 
#ifdef SYMEX
  extern long __se_mulhi(long,long); hi=__se_mulhi(x,y);
#else
  hi=(long)(((__int128)x*y)>>64);
#endif
  { long lo=(long)((unsigned long)x*(unsigned long)y); long ok=(hi==(lo>>63))&(((lo<<1)>>1)==lo); return (value)__se_ite(ok,(long)Atom(1),(long)Atom(0)); } }

/* ---- independent integer oracle: wrapping results and exactness, computed in C */
#define WR(x) (((long)((unsigned long)(x)<<1))>>1)
#define U63(x) (((unsigned long)Long_val(x)<<1)>>1)
#define BOOLV(c) ((value)__se_ite((c),(long)Atom(1),(long)Atom(0)))
value sym_wadd(value a, value b)          /* ML */
{ return Val_long(Long_val(a)+Long_val(b)); }
value sym_wsub(value a, value b)          /* ML */
{ return Val_long(Long_val(a)-Long_val(b)); }
value sym_wmul(value a, value b)          /* ML */
{ return Val_long((unsigned long)Long_val(a)*(unsigned long)Long_val(b)); }
value sym_wand(value a, value b)          /* ML */
{ return Val_long(Long_val(a)&Long_val(b)); }
value sym_wshr(value a, value k)          /* ML */
{ return Val_long((long)((((unsigned long)Long_val(a)<<1)>>1)>>Long_val(k))); }
value sym_wor(value a, value b)          /* ML */
{ return Val_long(Long_val(a)|Long_val(b)); }
value sym_wxor(value a, value b)          /* ML */
{ return Val_long(Long_val(a)^Long_val(b)); }
/* shifts by any amount, taken as a 63-bit unsigned number */
value sym_wshl(value a, value k)          /* ML */
{ unsigned long n=Long_val(k), in=(n>=63); return Val_long(__se_ite(in,0,(long)((unsigned long)Long_val(a)<<(n&63)))); }
value sym_wsar(value a, value k)          /* ML */
{ unsigned long n=Long_val(k), in=(n>=63); long x=Long_val(a); return Val_long(__se_ite(in,x>>63,x>>(n&63))); }
value sym_wlsr(value a, value k)          /* ML */
{ unsigned long n=Long_val(k), in=(n>=63); return Val_long(__se_ite(in,0,(long)((((unsigned long)Long_val(a)<<1)>>1)>>(n&63)))); }
value sym_udiv(value a, value b)          /* ML */
{ unsigned long y=U63(b); if(y==0) return Val_long(0); return Val_long(U63(a)/y); }
value sym_umod(value a, value b)          /* ML */
{ unsigned long y=U63(b); if(y==0) return Val_long(0); return Val_long(U63(a)%y); }
value sym_addfits(value a, value b)          /* ML */
{ long r=Long_val(a)+Long_val(b); return BOOLV(WR(r)==r); }
value sym_subfits(value a, value b)          /* ML */
{ long r=Long_val(a)-Long_val(b); return BOOLV(WR(r)==r); }
value sym_slt(value a, value b)          /* ML */
{ return BOOLV(Long_val(a)<Long_val(b)); }
value sym_ult(value a, value b)          /* ML */
{ return BOOLV(((unsigned long)Long_val(a)<<1)<((unsigned long)Long_val(b)<<1)); }
value sym_eq(value a, value b)          /* ML */
{ return BOOLV(Long_val(a)==Long_val(b)); }

/* ---- garbage collection schedule */
#ifdef REALMINOR
extern void real_minor_collection(void);
long sym_ngc=0;
void minor_collection(void){ char*end=young_ptr; if(end>young_end||end<young_start) end=young_end; sym_ngc++; real_minor_collection(); if(end-young_start<=65536) memset(young_start,0xD6,end-young_start); else { memset(young_start,0xD6,4096); memset(end-61440,0xD6,61440);} }
#endif
value sym_gcafter(value j)          /* ML */
{ long k=__se_conc(Long_val(j)); char*p=young_end-8*k; if(k>=0 && p>young_ptr) young_ptr=p; return Atom(0); }
value sym_minor(value u)          /* ML */
{ minor_collection(); return Atom(0); }
value sym_ngcs(value u)          /* ML */
{
#ifdef REALMINOR
  return Val_long(sym_ngc);
#else
  return Val_long(0);
#endif
}
value sym_slice(value n)          /* ML */
{ long k=__se_conc(Long_val(n)); while(k-->0) minor_collection(); return Atom(0); }

/* ---- I/O nondeterminism: the next n transfers on files may be short or interrupted */
extern int se_chaos, se_chaos_used, se_chaos_err;
value sym_chaos(value n)          /* ML */
{ long k=Long_val(n); se_chaos_err=k>=1000; se_chaos=k%1000; return Atom(0); }
#ifndef SYMEX
int se_chaos=0,se_chaos_used=0,se_chaos_err=0;
extern ssize_t __real_read(int,void*,size_t), __real_write(int,const void*,size_t);
static size_t cut(size_t n,int*intr){ *intr=0; if(se_chaos>0&&n>0){ se_chaos--; se_chaos_used++; long k=__se_conc(sym_fault(se_chaos_err?-1:0,(long)(n<4?n:4))); if(k==0){ *intr=EINTR; return 0; } if(k<0){ *intr=EIO; return 0; } if(k<=3) return (size_t)k<n?(size_t)k:n; } return n; }
ssize_t __wrap_read(int f,void*b,size_t n){ if(f<3||se_chaos<=0) return __real_read(f,b,n); ssize_t r=__real_read(f,b,n); if(r<=0) return r; int in; size_t c=cut(r,&in); if(in){ lseek(f,-r,SEEK_CUR); errno=in; return -1; } if((ssize_t)c<r) lseek(f,(long)c-r,SEEK_CUR); return c; }
ssize_t __wrap_write(int f,const void*b,size_t n){ if(f<3||se_chaos<=0) return __real_write(f,b,n); int in; size_t c=cut(n,&in); if(in){ errno=in; return -1; } return __real_write(f,b,c); }
#endif
/* modelled clock */
#ifdef SYMEX
extern long se_clock_s, se_clock_us;
value sym_clock(value s, value us)          /* ML */
{ se_clock_s=Long_val(s); se_clock_us=Long_val(us); return Atom(0); }
#else
static long ck_s=1000000000,ck_us=0; 
#include <sys/time.h>
#include <time.h>
int __wrap_gettimeofday(struct timeval*tv,void*z){ tv->tv_sec=ck_s; tv->tv_usec=ck_us; return 0; }
time_t __wrap_time(time_t*t){ if(t)*t=ck_s; return ck_s; }
value sym_clock(value s, value us)          /* ML */
{ ck_s=Long_val(s); ck_us=Long_val(us); return Atom(0); }
#endif
/* raw views of heap objects */
value sym_isblk(value v)          /* ML */
{ return Atom(Is_block(v)); }
value sym_tag(value v)          /* ML */
{ return Val_long(Tag_val(v)); }
value sym_wsize(value v)          /* ML */
{ return Val_long(Wosize_val(v)); }
value sym_fld(value v, value i)          /* ML */
{ return Field(v,Long_val(i)); }
value sym_same(value a, value b)          /* ML */
{ return Atom(a==b); }
/* byte i of an object */
value sym_objbyte(value v, value i)          /* ML */
{ return Val_long(((unsigned char*)v)[Long_val(i)]); }
/* copy and comparison of parts of strings */
value sym_blit(value src, value so, value dst, value dof, value n)          /* ML */
{ memmove((char*)dst+Long_val(dof),(char*)src+Long_val(so),__se_conc(Long_val(n))); return Atom(0); }
value sym_eqsub(value a, value ao, value b, value bo, value n)          /* ML */
{ const unsigned char*p=(unsigned char*)a+Long_val(ao),*q=(unsigned char*)b+Long_val(bo); long k=__se_conc(Long_val(n)),i=0; unsigned long acc=0;
  for(;i+8<=k;i+=8) acc|=*(unsigned long*)(p+i)^*(unsigned long*)(q+i);
  for(;i<k;i++) acc|=p[i]^q[i];
  return (value)__se_ite(acc==0,(long)Atom(1),(long)Atom(0)); }
/* ---- the major heap: allocation and a walk of every chunk and of the free list */
extern char *fl_merge;
extern value alloc_shr(mlsize_t, tag_t);
value sym_shr(value n, value tag, value pat)          /* ML */
{ long k=__se_conc(Long_val(n)), i; value v=alloc_shr(k,Long_val(tag)); for(i=1;i<k;i++) { if(i==64&&k>128) i=k-64; ((long*)v)[i]=i*1000003; } ((long*)v)[0]=pat; ((long*)v)[k-1]=pat; return v; }
value sym_shrok(value v, value n, value tag, value pat)          /* ML */
{ long k=__se_conc(Long_val(n)), i; if(!Is_block(v)||Wosize_val(v)!=k||Tag_val(v)!=Long_val(tag)) return Atom(0);
  for(i=1;i<k-1;i++) { if(i==64&&k>128) i=k-64; if(((long*)v)[i]!=i*1000003) return Atom(0); }
  { long ok=(((long*)v)[0]==pat)&(((long*)v)[k-1]==pat); return (value)__se_ite(ok,(long)Atom(1),(long)Atom(0)); } }
/* let slices run until the sweep starts, or has passed the block */
value sym_sweepto(value v)          /* ML */
{ long n=0; int seen=0;
  while(n++<100000){
    if(gc_phase==Phase_sweep){ if(!Is_block(v)||(char*)v<gc_sweep_hp) break; seen=1; { long d=((char*)v-gc_sweep_hp)/8; if(d>2000&&(char*)v-gc_sweep_hp<4000000) allocated_words+=d/20; } }
    else { if(seen) break; allocated_words+=100000; }
    minor_collection(); }
  return Val_long(gc_phase); }
static char*flhead(void){ char*s=fl_merge,*h; fl_init_merge(); h=fl_merge; fl_merge=s; return h; }
value sym_nthfree(value n)          /* ML */
{ long k=Long_val(n); char*p=*(char**)flhead(); while(p&&k-->0) p=*(char**)p; return Val_long(p?(long)Wosize_hd(((header_t*)p)[-1]):0); }
/* 0 when the heap is well formed, else what is wrong */
value sym_heapok(value tight)          /* ML */
{ char*c,*prevc=NULL; char*fr=*(char**)flhead(); char*lastfree=NULL; long total=0;
  for(c=heap_start;c;c=((heap_chunk_head*)c)[-1].next){
    long sz=((heap_chunk_head*)c)[-1].size; char*p=c,*e=c+sz; int prevfree=0;
    if(prevc&&c<=prevc) return Val_long(1);
    if(e>heap_end) return Val_long(2);
    if(!Is_in_heap(c)||!Is_in_heap(e-1)) return Val_long(3);
    while(p<e){ header_t h=*(header_t*)p; long w=Wosize_hd(h);
      if(w<0||w>=(e-p)/8) return Val_long(4);
      if(Is_blue_hd(h)){ if(w<1) return Val_long(5); if(fr!=p+8) return Val_long(6); lastfree=fr; fr=*(char**)(p+8); if(Tag_val(tight)&&prevfree) return Val_long(9); prevfree=1; }
      else { if(Is_gray_hd(h)&&gc_phase!=Phase_mark) return Val_long(7); if(Tag_val(tight)&&w==0&&prevfree) return Val_long(10); prevfree=0; }
      p+=8*(w+1); }
    if(p!=e) return Val_long(8);
    total+=sz; prevc=c; }
  if(fr) return Val_long(11);
  { extern asize_t stat_heap_size; if(total!=(long)stat_heap_size) return Val_long(12); }
  return Val_long(0); }
value sym_chunks(value u)          /* ML */
{ long n=0; char*c; for(c=heap_start;c;c=((heap_chunk_head*)c)[-1].next) n++; return Val_long(n); }
/* where the next chunk of the heap goes: slots 0..15 lie below the first heap, 16..31 above */
#define SLOT 786432
static long place=-1; 
/* slots 1000.. : a large area of 400 slots of 278528 bytes, for long runs of chunks in any order */
static char*farea; static void*farslot(long p,size_t n){ if(!farea) farea=malloc(400*278528l+8192); return n<=278528?farea+(p-1000)*278528l:malloc(n); }
#ifdef SYMEX
static char lowslots[16*SLOT] __attribute__((aligned(4096))); static char*highslots;
void*se_malloc(size_t n){ long p=place; place=-1; if(p>=1000) return farslot(p,n); if(p<0||n>SLOT) return malloc(n); return p<16?lowslots+p*SLOT:highslots+(p-16)*SLOT; }
value sym_place(value k)          /* ML */
{ if(!highslots) highslots=malloc(16*SLOT); place=__se_conc(Long_val(k)); return Atom(0); }
#else
static char slots[48*SLOT] __attribute__((aligned(4096))); static size_t mid=0;
void*se_malloc(size_t n){ long p=place; place=-1; if(p>=1000) return farslot(p,n); if(p<0||n>SLOT) { size_t r=(n+63)&~63ul; if(mid+r<=16*SLOT){ mid+=r; return slots+16*SLOT+mid-r; } return malloc(n); } return p<16?slots+p*SLOT:slots+(p+16)*SLOT; }
value sym_place(value k)          /* ML */
{ place=Long_val(k); return Atom(0); }
#endif
/* ---- reals by their bits, and exact comparisons with integers */
value sym_mkreal(value sign, value e, value m)          /* ML */
{ long b=(Long_val(sign)<<63)|(Long_val(e)<<52)|Long_val(m); value v=alloc(1,Double_tag); *(long*)v=b; return v; }
value sym_rhi(value r)          /* ML */
{ return Val_long((*(unsigned long*)r)>>32); }
value sym_rlo(value r)          /* ML */
{ return Val_long((*(unsigned long*)r)&0xffffffff); }
static long sel_(long c,long a,long b){ return __se_ite(c,a,b); }
/* sign of r * 2^k - (i * 2^k + d), r not a NaN */
value sym_rcmp(value r, value iv, value kv, value dv)          /* ML */
{ long b=*(long*)r, k=Long_val(kv), i=(Long_val(iv)<<k)+Long_val(dv), e=(b>>52)&0x7ff, m=b&((1l<<52)-1), neg=b<0;
  unsigned long mm, ip, fr; long res;
  if(e==0&&m==0) return Val_long(sel_(0<i,-1,sel_(i<0,1,0)));
  if(e) e+=k;
  if(e>=1086) return Val_long(sel_(neg,-1,1));
  if(e<1023){ ip=0; fr=1; } else { mm=m|(1ul<<52); if(e>=1075){ ip=mm<<(e-1075); fr=0; } else { ip=mm>>(1075-e); fr=(mm&((1ul<<(1075-e))-1))!=0; } }
  /* value = +-(ip + f), 0 <= f < 1, f > 0 iff fr */
  { long lt=((long)ip<i), eq=((long)ip==i), pos=sel_(lt,-1,sel_(eq,sel_(fr,1,0),1));
    long gt2=(-(long)ip>i), eq2=(-(long)ip==i), ng=sel_(gt2,sel_(fr&(-(long)ip-1<i),-1,sel_(fr&(-(long)ip-1==i),1,1)),sel_(eq2,sel_(fr,-1,0),-1));
    res=sel_(neg,ng,pos); }
  return Val_long(res); }
/* order of two non-NaN reals by their bits */
value sym_dcmp(value x, value y)          /* ML */
{ long a=*(long*)x, b=*(long*)y; long ka=sel_(a<0,-(a&0x7fffffffffffffffl),a), kb=sel_(b<0,-(b&0x7fffffffffffffffl),b); return Val_long(sel_(ka<kb,-1,sel_(ka==kb,0,1))); }
/* ---- the MD5 digest of RFC 1321 of a whole string, as 22 base64 characters; written from the RFC ---- */
typedef unsigned int u32_; typedef unsigned char u8_;
static const u32_ md5T[64]={0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const u8_ md5R[16]={7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21};
value sym_md5(value str)          /* ML */
{ static u8_ msg[20000]; static const char b64[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  unsigned long n=string_length(str), tot, i, j, bits; u32_ A=0x67452301,B=0xefcdab89,C=0x98badcfe,D=0x10325476; u8_ dg[18]; value res;
  tot=((n+8)/64+1)*64; for(i=0;i<n;i++) msg[i]=Byte_u(str,i); msg[n]=0x80; for(i=n+1;i<tot;i++) msg[i]=0; bits=n*8; for(i=0;i<8;i++) msg[tot-8+i]=bits>>(8*i);
  for(j=0;j<tot;j+=64){ u32_ a=A,b=B,c=C,d=D,f,t; u32_ M[16]; int k;
    for(i=0;i<16;i++){ u8_*p=msg+j+4*i; M[i]=(u32_)p[0]|(u32_)p[1]<<8|(u32_)p[2]<<16|(u32_)p[3]<<24; }
    for(i=0;i<64;i++){
      if(i<16){ f=(b&c)|(~b&d); k=i; } else if(i<32){ f=(b&d)|(c&~d); k=(5*i+1)%16; } else if(i<48){ f=b^c^d; k=(3*i+5)%16; } else { f=c^(b|~d); k=(7*i)%16; }
      t=a+f; t=t+(M[k]+md5T[i]); t=t<<md5R[i/16*4+i%4]|t>>(32-md5R[i/16*4+i%4]); t=t+b; a=d; d=c; c=b; b=t; }
    A+=a; B+=b; C+=c; D+=d; }
  for(i=0;i<4;i++){ dg[i]=A>>(8*i); dg[4+i]=B>>(8*i); dg[8+i]=C>>(8*i); dg[12+i]=D>>(8*i); } dg[16]=0; dg[17]=0;
  res=alloc_string(22); for(i=0;i<22;i++){ u32_ w=dg[i/4*3]<<16|dg[i/4*3+1]<<8|dg[i/4*3+2]; ((u8_*)res)[i]=b64[w>>(18-6*(i%4))&63]; }
  return res; }
