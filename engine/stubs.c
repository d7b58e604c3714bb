/* C library model for the symbolic executor (interpreted like the code under test).
   Virtual file system, formatted printing, strings, character classes, calendar. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/resource.h>
#include <sys/utsname.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <utime.h>
#undef errno
#undef toupper
#undef tolower
typedef unsigned long u64;
extern void *__se_hostload(const char*, u64*);
extern int __se_fmtd(char*, long, const char*, double);
extern double __se_strtod(const char*, char**, int*);
extern void __se_print(const char*, long);
extern void __se_kill(void);
extern void *__se_dlsym(const char*);
extern long __se_var(int), __se_ite(long,long,long);
extern void __se_assume(long), __se_input(long);

static int g_errno; int *__errno_location(void){ return &g_errno; }
#define errno g_errno

/* ---- strings */
size_t strlen(const char*s){ const char*p=s; while(*p) p++; return p-s; }
size_t strnlen(const char*s,size_t n){ size_t i=0; while(i<n&&s[i]) i++; return i; }
char*strcpy(char*d,const char*s){ char*r=d; while((*d++=*s++)); return r; }
char*stpcpy(char*d,const char*s){ while((*d=*s)){d++;s++;} return d; }
char*strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*strcat(char*d,const char*s){ strcpy(d+strlen(d),s); return d; }
char*strncat(char*d,const char*s,size_t n){ char*e=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++) e[i]=s[i]; e[i]=0; return d; }
int strcmp(const char*a,const char*b){ while(*a&&*a==*b){a++;b++;} return (int)(unsigned char)*a-(int)(unsigned char)*b; }
int strncmp(const char*a,const char*b,size_t n){ while(n&&*a&&*a==*b){a++;b++;n--;} return n? (int)(unsigned char)*a-(int)(unsigned char)*b:0; }
int strcoll(const char*a,const char*b){ return strcmp(a,b); }
char*strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char*strrchr(const char*s,int c){ const char*r=0; for(;;s++){ if(*s==(char)c) r=s; if(!*s) return (char*)r; } }
char*strstr(const char*h,const char*n){ size_t l=strlen(n); for(;;h++){ if(!strncmp(h,n,l)) return (char*)h; if(!*h) return 0; } }
size_t strspn(const char*s,const char*a){ size_t i=0; while(s[i]&&strchr(a,s[i])) i++; return i; }
size_t strcspn(const char*s,const char*a){ size_t i=0; while(s[i]&&!strchr(a,s[i])) i++; return i; }
char*strpbrk(const char*s,const char*a){ s+=strcspn(s,a); return *s?(char*)s:0; }
void*memchr(const void*s,int c,size_t n){ const unsigned char*p=s; for(;n;n--,p++) if(*p==(unsigned char)c) return (void*)p; return 0; }
char*strdup(const char*s){ size_t n=strlen(s)+1; char*p=malloc(n); memcpy(p,s,n); return p; }
void bcopy(const void*s,void*d,size_t n){ memmove(d,s,n); }
void bzero(void*d,size_t n){ memset(d,0,n); }
char*strerror(int e){ switch(e){ case ENOENT: return "No such file or directory"; case EACCES: return "Permission denied"; case EIO: return "Input/output error"; case EBADF: return "Bad file descriptor"; case EEXIST: return "File exists"; case EINTR: return "Interrupted system call"; case ENOSPC: return "No space left on device"; case EAGAIN: return "Resource temporarily unavailable"; default: return "Error"; } }
/* ---- ctype ("C" locale) */
static int up(int c){ return c>='A'&&c<='Z'; } static int lo(int c){ return c>='a'&&c<='z'; } static int di(int c){ return c>='0'&&c<='9'; }
int isupper(int c){return up(c);} int islower(int c){return lo(c);} int isdigit(int c){return di(c);} int isalpha(int c){return up(c)|lo(c);} int isalnum(int c){return up(c)|lo(c)|di(c);} int isspace(int c){return (c>=9)&(c<=13)|(c==32);} int isprint(int c){return (c>=32)&(c<127);} int isgraph(int c){return (c>32)&(c<127);} int iscntrl(int c){return ((c>=0)&(c<32))|(c==127);} int ispunct(int c){return isgraph(c)&!isalnum(c);} int isxdigit(int c){return di(c)|((c>='a')&(c<='f'))|((c>='A')&(c<='F'));} int isascii(int c){return (c&~127)==0;}
int toupper(int c){ return c-(lo(c)?32:0); } int tolower(int c){ return c+(up(c)?32:0); }
static unsigned short ctab[384]; static int tup[384], tlo[384]; static const unsigned short*pctab; static const int*ptup,*ptlo;
static void ctinit(void){ for(int i=-128;i<256;i++){ int c=i; unsigned short m=0; if(c>=0&&c<128){ if(up(c)) m|=1<<8; if(lo(c)) m|=1<<9; if(isalpha(c)) m|=1<<10; if(di(c)) m|=1<<11; if(isxdigit(c)) m|=1<<12; if(isspace(c)) m|=1<<13; if(isprint(c)) m|=1<<14; if(isgraph(c)) m|=1<<15; if(c==32||c==9) m|=1<<0; if(iscntrl(c)) m|=1<<1; if(ispunct(c)) m|=1<<2; if(isalnum(c)) m|=1<<3; } ctab[i+128]=m; tup[i+128]=toupper(c); tlo[i+128]=tolower(c);} pctab=ctab+128; ptup=tup+128; ptlo=tlo+128; }
const unsigned short**__ctype_b_loc(void){ if(!pctab) ctinit(); return &pctab; }
const int**__ctype_toupper_loc(void){ if(!pctab) ctinit(); return &ptup; }
const int**__ctype_tolower_loc(void){ if(!pctab) ctinit(); return &ptlo; }
/* ---- numbers */
static int dig(int c,int b){ int d; if(di(c)) d=c-'0'; else if(lo(c)) d=c-'a'+10; else if(up(c)) d=c-'A'+10; else return -1; return d<b?d:-1; }
unsigned long strtoul(const char*s,char**e,int b){ const char*p=s; int neg=0,any=0,ov=0; while(isspace((unsigned char)*p)) p++; if(*p=='-'){neg=1;p++;} else if(*p=='+') p++; if((b==0||b==16)&&*p=='0'&&(p[1]=='x'||p[1]=='X')&&dig((unsigned char)p[2],16)>=0){ p+=2; b=16; } else if(b==0) b= *p=='0'?8:10; u64 r=0; int d; while((d=dig((unsigned char)*p,b))>=0){ any=1; if(r>(~0ul-d)/b) ov=1; r=r*b+d; p++; } if(e) *e=(char*)(any?p:s); if(ov){ errno=ERANGE; return ~0ul; } return neg?-r:r; }
long strtol(const char*s,char**e,int b){ const char*p=s; int neg=0,any=0,ov=0; while(isspace((unsigned char)*p)) p++; if(*p=='-'){neg=1;p++;} else if(*p=='+') p++; if((b==0||b==16)&&*p=='0'&&(p[1]=='x'||p[1]=='X')&&dig((unsigned char)p[2],16)>=0){ p+=2; b=16; } else if(b==0) b= *p=='0'?8:10; u64 r=0,lim=neg?1ul<<63:~0ul>>1; int d; while((d=dig((unsigned char)*p,b))>=0){ any=1; if(r>(lim-d)/b) ov=1; r=r*b+d; p++; } if(e) *e=(char*)(any?p:s); if(ov){ errno=ERANGE; return neg?(long)(1ul<<63):(long)(~0ul>>1);} return neg?-r:r; }
long long strtoll(const char*s,char**e,int b){ return strtol(s,e,b); } unsigned long long strtoull(const char*s,char**e,int b){ return strtoul(s,e,b); }
#define ALIAS(ty,nm,args,call) ty sx_##nm args __asm__(#nm); ty sx_##nm args { return nm call; }
ALIAS(long,strtol,(const char*s,char**e,int b),(s,e,b)) ALIAS(unsigned long,strtoul,(const char*s,char**e,int b),(s,e,b))
int atoi(const char*s){ return (int)strtol(s,0,10); } long atol(const char*s){ return strtol(s,0,10); }
double strtod(const char*s,char**e){ int er=0; double d=__se_strtod(s,e,&er); if(er) errno=er; return d; }
double atof(const char*s){ return strtod(s,0); }
int abs(int x){ return x<0?-x:x; } long labs(long x){ return x<0?-x:x; }
div_t div(int a,int b){ div_t r={a/b,a%b}; return r; } ldiv_t ldiv(long a,long b){ ldiv_t r={a/b,a%b}; return r; }
void qsort(void*b,size_t n,size_t s,int(*c)(const void*,const void*)){ char*p=b; for(size_t i=1;i<n;i++) for(size_t j=i;j>0&&c(p+(j-1)*s,p+j*s)>0;j--) for(size_t k=0;k<s;k++){ char t=p[(j-1)*s+k]; p[(j-1)*s+k]=p[j*s+k]; p[j*s+k]=t; } }
static unsigned rnd=12345; int rand(void){ rnd=rnd*1103515245+12345; return (rnd>>16)&0x7fff; } void srand(unsigned s){ rnd=s; } long random(void){ return rand(); } void srandom(unsigned s){ rnd=s; }
/* ---- printf */
static void outc(char*b,size_t n,size_t*k,char c){ if(*k+1<n) b[*k]=c; (*k)++; }
int vsnprintf(char*b,size_t n,const char*f,va_list ap){ size_t k=0; for(;*f;f++){ if(*f!='%'){ outc(b,n,&k,*f); continue; }
  const char*st=f; f++; int left=0,zero=0,alt=0,plus=0,sp=0; for(;;f++){ if(*f=='-')left=1; else if(*f=='0')zero=1; else if(*f=='#')alt=1; else if(*f=='+')plus=1; else if(*f==' ')sp=1; else break; }
  int w=0,pr=-1; if(*f=='*'){ w=va_arg(ap,int); if(w<0){left=1;w=-w;} f++; } else while(di(*f)) w=w*10+(*f++-'0');
  if(*f=='.'){ f++; pr=0; if(*f=='*'){ pr=va_arg(ap,int); f++; } else while(di(*f)) pr=pr*10+(*f++-'0'); }
  int lg=0; while(*f=='l'||*f=='z'||*f=='j'||*f=='t'||*f=='h'||*f=='q'){ if(*f!='h') lg++; f++; }
  char t[80]; int tl=0; const char*body; int neg=0; 
  switch(*f){ case '%': outc(b,n,&k,'%'); continue;
  case 'c': t[0]=(char)va_arg(ap,int); tl=1; body=t; zero=0; break;
  case 's': body=va_arg(ap,char*); if(!body) body="(null)"; tl= pr>=0? (int)strnlen(body,pr):(int)strlen(body); zero=0; break;
  case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': { u64 v; unsigned base=10; const char*dg="0123456789abcdef"; if(*f=='x'||*f=='p') base=16; if(*f=='X'){base=16;dg="0123456789ABCDEF";} if(*f=='o') base=8;
     if(*f=='d'||*f=='i'){ long s= lg? va_arg(ap,long):va_arg(ap,int); neg=s<0; v= neg? -(u64)s:(u64)s; } else if(*f=='p') { v=(u64)va_arg(ap,void*); alt=1; } else v= lg? va_arg(ap,u64):va_arg(ap,unsigned);
     int p=80; u64 x=v; int nd=0; if(!(pr==0&&v==0)) do{ { unsigned dd=x%base; t[--p]= base<=10? (char)(48+dd) : dg[dd]; } x/=base; nd++; }while(x); while(nd<pr&&p>4){ t[--p]='0'; nd++; }
     if(alt&&base==16&&v){ t[--p]= *f=='X'?'X':'x'; t[--p]='0'; } if(alt&&base==8&&t[p]!='0') t[--p]='0';
     if(pr>=0) zero=0; 
     if(zero&&!left){ int tot=80-p+(neg||plus||sp); while(tot<w&&p>4){ t[--p]='0'; tot++; } }
     if(neg) t[--p]='-'; else if((*f=='d'||*f=='i')&&plus) t[--p]='+'; else if((*f=='d'||*f=='i')&&sp) t[--p]=' ';
     body=t+p; tl=80-p; break; }
  case 'e': case 'f': case 'g': case 'E': case 'G': case 'F': case 'a': { static char fb[400]; char fs[40]; int q=0; const char*z=st; fs[q++]='%'; for(z=st+1;z<f&&q<30;z++){ if(*z=='*') { const char*num; char nb[16]; snprintf(nb,16,"%d", (z>st+1&&z[-1]=='.')?pr:w); for(num=nb;*num;num++) fs[q++]=*num; } else if(*z!='l') fs[q++]=*z; } fs[q++]=*f; fs[q]=0; tl=__se_fmtd(fb,400,fs,va_arg(ap,double)); body=fb; w=0; break; }
  default: outc(b,n,&k,'%'); outc(b,n,&k,*f); continue; }
  int pad=w-tl; if(!left) while(pad-->0) outc(b,n,&k,' '); for(int i=0;i<tl;i++) outc(b,n,&k,body[i]); if(left) while(pad-->0) outc(b,n,&k,' '); }
  if(n) b[k<n?k:n-1]=0; return (int)k; }
int snprintf(char*b,size_t n,const char*f,...){ va_list a; va_start(a,f); int r=vsnprintf(b,n,f,a); va_end(a); return r; }
int sprintf(char*b,const char*f,...){ va_list a; va_start(a,f); int r=vsnprintf(b,1<<30,f,a); va_end(a); return r; }
int vsprintf(char*b,const char*f,va_list a){ return vsnprintf(b,1<<30,f,a); }
static char pbuf[4096];
int fprintf(FILE*o,const char*f,...){ va_list a; va_start(a,f); int r=vsnprintf(pbuf,4096,f,a); va_end(a); __se_print(pbuf,r<4095?r:4095); return r; }
int printf(const char*f,...){ va_list a; va_start(a,f); int r=vsnprintf(pbuf,4096,f,a); va_end(a); __se_print(pbuf,r<4095?r:4095); return r; }
int vfprintf(FILE*o,const char*f,va_list a){ int r=vsnprintf(pbuf,4096,f,a); __se_print(pbuf,r<4095?r:4095); return r; }
int puts(const char*s){ __se_print(s,strlen(s)); __se_print("\n",1); return 1; } int putchar(int c){ char b=c; __se_print(&b,1); return c; }
int fputs(const char*s,FILE*o){ __se_print(s,strlen(s)); return 1; } int fputc(int c,FILE*o){ char b=c; __se_print(&b,1); return c; } int putc(int c,FILE*o){ return fputc(c,o); }
size_t fwrite(const void*p,size_t a,size_t b,FILE*o){ __se_print(p,a*b); return b; } int fflush(FILE*o){ return 0; }
FILE*stdin,*stdout,*stderr;
int sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int n=0; for(;*f;f++){ if(*f==' '){ while(isspace((unsigned char)*s)) s++; continue; } if(*f!='%'){ if(*s!=*f) break; s++; continue; } f++; int lg=0; while(*f=='l'){lg++;f++;} if(*f=='d'||*f=='u'||*f=='x'){ char*e; long v=strtol(s,&e,*f=='x'?16:10); if(e==s) break; if(lg) *va_arg(ap,long*)=v; else *va_arg(ap,int*)=v; s=e; n++; } else break; } va_end(ap); return n; }
int __isoc99_sscanf(const char*s,const char*f,...){ va_list ap; va_start(ap,f); int n=0; for(;*f;f++){ if(*f!='%'){ if(*s!=*f) break; s++; continue; } f++; int lg=0; while(*f=='l'){lg++;f++;} if(*f=='d'||*f=='u'||*f=='x'){ char*e; long v=strtol(s,&e,*f=='x'?16:10); if(e==s) break; if(lg) *va_arg(ap,long*)=v; else *va_arg(ap,int*)=v; s=e; n++; } else break; } va_end(ap); return n; }
/* ---- virtual file system.  Fault plan for chaotic descriptors: every transfer may be short and may
   fail once with EINTR, decided by symbolic inputs registered by the harness (se_chaos). */
struct vnode { char*name; unsigned char*data; u64 size,cap; int used,isdir; };
struct vfd { int used,node,flags; u64 pos; };
#define NN 64
static struct vnode nd[NN]; static struct vfd fds[64];
int se_chaos_err=0; int se_chaos=0; /* remaining number of nondeterministic transfer decisions */
int se_chaos_used=0; int se_bigread=0;
extern long sym_fault(long lo,long hi);  /* defined by the primitives: a logged nondeterministic choice */
extern long __se_conc(long);
#define se_conc __se_conc
static int findn(const char*p){ for(int i=0;i<NN;i++) if(nd[i].used&&!strcmp(nd[i].name,p)) return i; return -1; }
static int newn(const char*p){ for(int i=0;i<NN;i++) if(!nd[i].used){ nd[i].used=1; nd[i].isdir=0; nd[i].name=strdup(p); nd[i].data=0; nd[i].size=nd[i].cap=0; return i; } return -1; }
static int getn(const char*p){ int i=findn(p); if(i>=0) return i; u64 sz; void*d=__se_hostload(p,&sz); if(!d) return -1; i=newn(p); nd[i].data=d; nd[i].size=nd[i].cap=sz; return i; }
int open(const char*p,int fl,...){ int i=getn(p); if(i<0){ if(!(fl&O_CREAT)){ errno=ENOENT; return -1; } i=newn(p); } else if((fl&O_CREAT)&&(fl&O_EXCL)){ errno=EEXIST; return -1; } if(fl&O_TRUNC) nd[i].size=0; for(int k=3;k<64;k++) if(!fds[k].used){ fds[k].used=1; fds[k].node=i; fds[k].pos=0; fds[k].flags=fl; return k; } errno=EMFILE; return -1; }
int close(int f){ if(f<0||f>=64||(f>2&&!fds[f].used)){ errno=EBADF; return -1; } fds[f].used=0; return 0; }
static u64 cut(u64 n,int*intr){ *intr=0; if(se_chaos>0&&n>0){ se_chaos--; se_chaos_used++; long k=se_conc(sym_fault(se_chaos_err?-1:0,(long)(n<4?n:4))); if(k==0){ *intr=EINTR; return 0; } if(k<0){ *intr=EIO; return 0; } if(k<=3) return (u64)k<n?(u64)k:n; } return n; }
ssize_t read(int f,void*b,size_t n){ if(f==0&&!fds[0].used) return 0; if(f<0||f>=64||!fds[f].used){ errno=EBADF; return -1; } struct vnode*v=&nd[fds[f].node]; u64 av= fds[f].pos<v->size? v->size-fds[f].pos:0; if(n>av) n=av; int in; n=cut(n,&in); if(in){ errno=in; return -1; } memcpy(b,v->data+fds[f].pos,n); fds[f].pos+=n; return n; }
ssize_t write(int f,const void*b,size_t n){ if((f==1||f==2)&&!fds[f].used){ __se_print(b,n); return n; } if(f<0||f>=64||!fds[f].used){ errno=EBADF; return -1; } struct vnode*v=&nd[fds[f].node]; int in; n=cut(n,&in); if(in){ errno=in; return -1; } if(fds[f].flags&O_APPEND) fds[f].pos=v->size; if(fds[f].pos+n>v->cap){ u64 c=(fds[f].pos+n)*2+64; unsigned char*d=malloc(c); memset(d,0,c); if(v->size) memcpy(d,v->data,v->size); v->data=d; v->cap=c; } memcpy(v->data+fds[f].pos,b,n); fds[f].pos+=n; if(fds[f].pos>v->size) v->size=fds[f].pos; return n; }
off_t lseek(int f,off_t o,int w){ if(f<0||f>=64||!fds[f].used){ errno=EBADF; return -1; } struct vnode*v=&nd[fds[f].node]; long p= w==0?o: w==1?(long)fds[f].pos+o:(long)v->size+o; if(p<0){ errno=EINVAL; return -1; } fds[f].pos=p; return p; }
off_t lseek64(int f,off_t o,int w){ return lseek(f,o,w); }
static int fillst(int i,struct stat*s){ memset(s,0,sizeof *s); s->st_size=nd[i].size; s->st_mode= nd[i].isdir?040755:0100644; s->st_mtime=1000000000; s->st_ino=i+1; s->st_dev=1; return 0; }
int stat(const char*p,struct stat*s){ int i=getn(p); if(i<0){ errno=ENOENT; return -1; } return fillst(i,s); } int lstat(const char*p,struct stat*s){ return stat(p,s); } int fstat(int f,struct stat*s){ if(f<0||f>=64||!fds[f].used){ errno=EBADF; return -1; } return fillst(fds[f].node,s); }
int access(const char*p,int m){ if(getn(p)>=0) return 0; errno=ENOENT; return -1; }
int unlink(const char*p){ int i=findn(p); if(i<0){ errno=ENOENT; return -1; } nd[i].used=0; return 0; }
int remove(const char*p){ return unlink(p); }
int rename(const char*a,const char*b){ int i=findn(a); if(i<0){ errno=ENOENT; return -1; } int j=findn(b); if(j>=0) nd[j].used=0; nd[i].name=strdup(b); return 0; }
int mkdir(const char*p,mode_t m){ if(findn(p)>=0){ errno=EEXIST; return -1; } int i=newn(p); nd[i].isdir=1; return 0; } int rmdir(const char*p){ return unlink(p); } int chdir(const char*p){ return 0; }
char*getcwd(char*b,size_t n){ strcpy(b,"/w"); return b; } char*realpath(const char*p,char*b){ strcpy(b,p); return b; }
DIR*opendir(const char*p){ errno=ENOENT; return 0; } struct dirent*readdir(DIR*d){ return 0; } int closedir(DIR*d){ return 0; } void rewinddir(DIR*d){}
ssize_t readlink(const char*p,char*b,size_t n){ errno=EINVAL; return -1; }
int fcntl(int f,int c,...){ return 0; } int utime(const char*p,const struct utimbuf*t){ return 0; } char*tmpnam(char*s){ static char b[32]="/tmp/seXXXX"; return s?strcpy(s,b):b; } int mkstemp(char*t){ return open(t,O_CREAT|O_RDWR); } int isatty(int f){ return 0; }
int system(const char*c){ return 0; } char*getenv(const char*n){ return 0; } unsigned sleep(unsigned s){ return 0; } int usleep(unsigned u){ return 0; } int getpid(void){ return 42; } int uname(struct utsname*u){ memset(u,0,sizeof *u); return 0; }
/* ---- signals */
int sigaction(int s,const struct sigaction*a,struct sigaction*o){ return 0; } void(*signal(int s,void(*h)(int)))(int){ return 0; } int sigemptyset(sigset_t*s){ return 0; } int sigaddset(sigset_t*s,int n){ return 0; } int sigprocmask(int h,const sigset_t*s,sigset_t*o){ return 0; } int kill(int p,int s){ return 0; } int raise(int s){ return 0; }
/* ---- time (UTC) */
long se_clock_s=1000000000, se_clock_us=0;
time_t time(time_t*t){ if(t) *t=se_clock_s; return se_clock_s; } int gettimeofday(struct timeval*tv,void*z){ tv->tv_sec=se_clock_s; tv->tv_usec=se_clock_us; return 0; } int getrusage(int w,struct rusage*r){ memset(r,0,sizeof *r); return 0; } clock_t clock(void){ return 0; } double difftime(time_t a,time_t b){ return (double)(a-b); }
static long daysciv(long y,int m,int d){ y-= m<=2; long era=(y>=0?y:y-399)/400; long yoe=y-era*400; long doy=(153*(m+(m>2?-3:9))+2)/5+d-1; long doe=yoe*365+yoe/4-yoe/100+doy; return era*146097+doe-719468; }
static struct tm gtm;
struct tm*gmtime_r(const time_t*t,struct tm*r){ long z=*t/86400, s=*t%86400; if(s<0){ s+=86400; z--; } r->tm_hour=s/3600; r->tm_min=s/60%60; r->tm_sec=s%60; r->tm_wday=(int)((z+4)%7); if(r->tm_wday<0) r->tm_wday+=7; long zz=z+719468; long era=(zz>=0?zz:zz-146096)/146097; long doe=zz-era*146097; long yoe=(doe-doe/1460+doe/36524-doe/146096)/365; long y=yoe+era*400; long doy=doe-(365*yoe+yoe/4-yoe/100); int mp=(5*doy+2)/153; int d=doy-(153*mp+2)/5+1; int m=mp+(mp<10?3:-9); y+= m<=2; r->tm_year=y-1900; r->tm_mon=m-1; r->tm_mday=d; r->tm_yday=z-daysciv(y,1,1); r->tm_isdst=0; r->tm_gmtoff=0; r->tm_zone="UTC"; return r; }
struct tm*gmtime(const time_t*t){ return gmtime_r(t,&gtm); } struct tm*localtime(const time_t*t){ return gmtime_r(t,&gtm); } struct tm*localtime_r(const time_t*t,struct tm*r){ return gmtime_r(t,r); }
time_t mktime(struct tm*r){ long mon=r->tm_mon, y=(long)r->tm_year+1900; y+=mon/12; mon%=12; if(mon<0){ mon+=12; y--; } time_t t=(daysciv(y,mon+1,1)+(long)r->tm_mday-1)*86400+(long)r->tm_hour*3600+(long)r->tm_min*60+r->tm_sec; gmtime_r(&t,r); return t; }
time_t timegm(struct tm*r){ return mktime(r); }
static const char wn[]="SunMonTueWedThuFriSat", mn[]="JanFebMarAprMayJunJulAugSepOctNovDec";
char*asctime(const struct tm*t){ static char b[40]; snprintf(b,40,"%.3s %.3s%3d %.2d:%.2d:%.2d %d\n",(t->tm_wday<0||t->tm_wday>6)?"???":wn+3*t->tm_wday,(t->tm_mon<0||t->tm_mon>11)?"???":mn+3*t->tm_mon,t->tm_mday,t->tm_hour,t->tm_min,t->tm_sec,t->tm_year+1900); return b; }
char*ctime(const time_t*t){ return asctime(gmtime(t)); }
size_t strftime(char*b,size_t n,const char*f,const struct tm*t){ size_t k=0; char x[64]; for(;*f;f++){ if(*f!='%'){ x[0]=*f; x[1]=0; } else { f++; switch(*f){ case 'Y': snprintf(x,64,"%d",t->tm_year+1900); break; case 'm': snprintf(x,64,"%02d",t->tm_mon+1); break; case 'd': snprintf(x,64,"%02d",t->tm_mday); break; case 'H': snprintf(x,64,"%02d",t->tm_hour); break; case 'M': snprintf(x,64,"%02d",t->tm_min); break; case 'S': snprintf(x,64,"%02d",t->tm_sec); break; case 'j': snprintf(x,64,"%03d",t->tm_yday+1); break; case 'y': snprintf(x,64,"%02d",t->tm_year%100); break; case 'a': snprintf(x,64,"%.3s",wn+3*t->tm_wday); break; case 'b': snprintf(x,64,"%.3s",mn+3*t->tm_mon); break; case 'w': snprintf(x,64,"%d",t->tm_wday); break; case '%': x[0]='%'; x[1]=0; break; default: x[0]=0; } } for(char*p=x;*p;p++){ if(k+1>=n) return 0; b[k++]=*p; } } if(n) b[k]=0; return k; }
void tzset(void){} 
/* ---- dynamic linking */
void*dlopen(const char*p,int f){ return (void*)1; } void*dlsym(void*h,const char*s){ return __se_dlsym(s); } int dlclose(void*h){ return 0; } char*dlerror(void){ return "dlerror"; }
int atexit(void(*f)(void)){ return 0; }
char*setlocale(int c,const char*l){ return "C"; }
void __stack_chk_fail(void){ abort(); }
int __longjmp_chk_unused;
