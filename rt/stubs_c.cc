// C library models. eo_*: used inside the executor only (native replay uses the real libc);
// sx_*: replace the libc function in both worlds (environment under harness control).
#include "symx.h"
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <limits.h>
extern "C" {
static int rt_errno_[32];
int *eo___errno_location(void){ return &rt_errno_[symx_tid()]; }
size_t eo_strlen(const char*s){ size_t n=0; while(s[n]) n++; return n; }
size_t eo_strnlen(const char*s,size_t m){ size_t n=0; while(n<m&&s[n]) n++; return n; }
int eo_strcmp(const char*a,const char*b){ for(size_t i=0;;i++){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } }
int eo_strncmp(const char*a,const char*b,size_t n){ for(size_t i=0;i<n;i++){ unsigned char x=a[i],y=b[i]; if(x!=y) return x<y?-1:1; if(!x) return 0; } return 0; }
static int rt_low(int c){ return c>='A'&&c<='Z'?c+32:c; }
int eo_strcasecmp(const char*a,const char*b){ for(size_t i=0;;i++){ int x=rt_low((unsigned char)a[i]),y=rt_low((unsigned char)b[i]); if(x!=y) return x<y?-1:1; if(!x) return 0; } }
char*eo_strcpy(char*d,const char*s){ size_t i=0; do d[i]=s[i]; while(s[i++]); return d; }
char*eo_strncpy(char*d,const char*s,size_t n){ size_t i=0; for(;i<n&&s[i];i++) d[i]=s[i]; for(;i<n;i++) d[i]=0; return d; }
char*eo_strcat(char*d,const char*s){ eo_strcpy(d+eo_strlen(d),s); return d; }
char*eo_strncat(char*d,const char*s,size_t n){ char*e=d+eo_strlen(d); size_t i=0; for(;i<n&&s[i];i++) e[i]=s[i]; e[i]=0; return d; }
char*eo_strchr(const char*s,int c){ for(;;s++){ if(*s==(char)c) return (char*)s; if(!*s) return 0; } }
char*eo_strrchr(const char*s,int c){ char*r=0; for(;;s++){ if(*s==(char)c) r=(char*)s; if(!*s) return r; } }
char*eo_strchrnul(const char*s,int c){ while(*s&&*s!=(char)c) s++; return (char*)s; }
char*eo_strstr(const char*h,const char*n){ size_t l=eo_strlen(n); for(;;h++){ if(!eo_strncmp(h,n,l)) return (char*)h; if(!*h) return 0; } }
void*eo_memchr(const void*p,int c,size_t n){ const unsigned char*s=(const unsigned char*)p; for(size_t i=0;i<n;i++) if(s[i]==(unsigned char)c) return (void*)(s+i); return 0; }
void*eo_memrchr(const void*p,int c,size_t n){ const unsigned char*s=(const unsigned char*)p; while(n--) if(s[n]==(unsigned char)c) return (void*)(s+n); return 0; }
size_t eo_strspn(const char*s,const char*a){ size_t n=0; while(s[n]&&eo_strchr(a,s[n])) n++; return n; }
size_t eo_strcspn(const char*s,const char*a){ size_t n=0; while(s[n]&&!eo_strchr(a,s[n])) n++; return n; }
char*eo_strdup(const char*s){ size_t n=eo_strlen(s)+1; char*p=(char*)malloc(n); memcpy(p,s,n); return p; }
char*eo_strtok_r(char*s,const char*d,char**sv){ if(!s) s=*sv; s+=eo_strspn(s,d); if(!*s){ *sv=s; return 0; } char*e=s+eo_strcspn(s,d); if(*e){ *e=0; *sv=e+1; } else *sv=e; return s; }
int eo_isspace(int c){ return c==' '||(c>=9&&c<=13); } int eo_isdigit(int c){ return c>='0'&&c<='9'; }
int eo_isprint(int c){ return c>=32&&c<127; } int eo_isgraph(int c){ return c>32&&c<127; }
int eo_tolower(int c){ return rt_low(c); } int eo_toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int eo_isxdigit(int c){ return (c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'); }
int eo_isalnum(int c){ return (c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
int eo_isalpha(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z'); }
static unsigned short rt_ctype[384]; static int rt_lowt[384],rt_upt[384]; static const unsigned short*rt_ctp; static const int*rt_lop,*rt_upp;
const unsigned short**eo___ctype_b_loc(void){ if(!rt_ctp){ for(int i=0;i<256;i++){ unsigned short f=0; int u=i>='A'&&i<='Z',l=i>='a'&&i<='z',d=i>='0'&&i<='9'; 
   if(u) f|=1<<8; if(l) f|=1<<9; if(u||l) f|=1<<10; if(d) f|=1<<11; if(eo_isxdigit(i)) f|=1<<12; if(eo_isspace(i)) f|=1<<13; if(i>=32&&i<127) f|=1<<14; if(i>32&&i<127) f|=1<<15; if(i==' '||i=='\t') f|=1<<0; if(i<32||i==127) f|=1<<1; if(i>32&&i<127&&!u&&!l&&!d) f|=1<<2; if(u||l||d) f|=1<<3; rt_ctype[128+i]=f; } rt_ctp=rt_ctype+128; } return &rt_ctp; }
const int**eo___ctype_tolower_loc(void){ if(!rt_lop){ for(int i=0;i<256;i++) rt_lowt[128+i]=rt_low(i); rt_lop=rt_lowt+128; } return &rt_lop; }
const int**eo___ctype_toupper_loc(void){ if(!rt_upp){ for(int i=0;i<256;i++) rt_upt[128+i]=eo_toupper(i); rt_upp=rt_upt+128; } return &rt_upp; }
static unsigned long long rt_strtoull(const char*s,char**e,int base,int sgn,unsigned long long maxp,unsigned long long maxn){
  const char*p=s; while(eo_isspace((unsigned char)*p)) p++; int neg=0; if(*p=='+'||*p=='-'){ neg=*p=='-'; p++; }
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&eo_isxdigit((unsigned char)p[2])){ p+=2; base=16; } else if(base==0) base=p[0]=='0'?8:10;
  unsigned long long v=0; int any=0,ov=0; unsigned long long lim=neg?maxn:maxp;
  for(;;p++){ int c=(unsigned char)*p,d; if(c>='0'&&c<='9') d=c-'0'; else if(c>='a'&&c<='z') d=c-'a'+10; else if(c>='A'&&c<='Z') d=c-'A'+10; else break; if(d>=base) break; any=1; if(ov) continue; 
    unsigned long long lq=lim/(unsigned)base; if(v>lq) { ov=1; continue; } if(v==lq&&(unsigned)d>lim%(unsigned)base) { ov=1; continue; } v=v*(unsigned)base+(unsigned)d; }
  if(e) *e=(char*)(any?p:s); if(ov){ errno=ERANGE; return neg&&sgn?(unsigned long long)-(long long)maxn:lim; } return neg?-v:v; }
unsigned long eo_strtoul(const char*s,char**e,int b){ return rt_strtoull(s,e,b,0,ULONG_MAX,ULONG_MAX); }
unsigned long long eo_strtoull(const char*s,char**e,int b){ return rt_strtoull(s,e,b,0,ULONG_MAX,ULONG_MAX); }
long eo_strtol(const char*s,char**e,int b){ return rt_strtoull(s,e,b,1,LONG_MAX,1ull<<63); }
long long eo_strtoll(const char*s,char**e,int b){ return rt_strtoull(s,e,b,1,LONG_MAX,1ull<<63); }
unsigned long eo___isoc23_strtoul(const char*s,char**e,int b){ return eo_strtoul(s,e,b); }
unsigned long long eo___isoc23_strtoull(const char*s,char**e,int b){ return eo_strtoul(s,e,b); }
long eo___isoc23_strtol(const char*s,char**e,int b){ return eo_strtol(s,e,b); }
long long eo___isoc23_strtoll(const char*s,char**e,int b){ return eo_strtol(s,e,b); }
int eo_atoi(const char*s){ return (int)eo_strtol(s,0,10); }
long eo_atol(const char*s){ return eo_strtol(s,0,10); }
// compact vsnprintf: integers, strings, chars, pointers
static void rt_put(char*b,size_t n,size_t&o,char c){ if(o+1<n) b[o]=c; o++; }
int eo_vsnprintf(char*b,size_t n,const char*f,va_list ap){ size_t o=0;
  for(;*f;f++){ if(*f!='%'){ rt_put(b,n,o,*f); continue; } f++; int zero=0,left=0,plus=0,alt=0,space=0; for(;;f++){ if(*f=='0') zero=1; else if(*f=='-') left=1; else if(*f=='+') plus=1; else if(*f=='#') alt=1; else if(*f==' ') space=1; else break; }
    int w=0; if(*f=='*'){ w=va_arg(ap,int); if(w<0){ left=1; w=-w; } f++; } else while(*f>='0'&&*f<='9') w=w*10+(*f++-'0'); int pr=-1; if(*f=='.'){ f++; pr=0; if(*f=='*'){ pr=va_arg(ap,int); f++; } else while(*f>='0'&&*f<='9') pr=pr*10+(*f++-'0'); }
    int l=0; for(;;f++){ if(*f=='l') l++; else if(*f=='z'||*f=='j'||*f=='t') l=2; else if(*f=='h') l--; else break; }
    char t[72]; int tl=0; const char*s=t; int neg=0; 
    switch(*f){ case '%': rt_put(b,n,o,'%'); continue; case 'c': t[0]=(char)va_arg(ap,int); tl=1; zero=0; break; case 's': s=va_arg(ap,const char*); if(!s) s="(null)"; while((pr<0||tl<pr)&&s[tl]) tl++; zero=0; break;
    case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long long v; if(*f=='p'){ v=(unsigned long long)va_arg(ap,void*); alt=1; } else if(l>=1) v=va_arg(ap,unsigned long); else v=va_arg(ap,unsigned); if(*f=='d'||*f=='i'){ long long sv= l>=1?(long long)v:l==-1?(short)v:l<=-2?(signed char)v:(int)v; neg=sv<0; v=neg?-(unsigned long long)sv:sv; } else if(l==-1) v=(unsigned short)v; else if(l<=-2) v=(unsigned char)v;
       int base=*f=='x'||*f=='X'||*f=='p'?16:*f=='o'?8:10; const char*dg=*f=='X'?"0123456789ABCDEF":"0123456789abcdef"; char r[32]; int k=0; unsigned long long vv=v; while(v){ r[k++]=dg[v%base]; v/=base; } if(!k&&pr!=0) r[k++]='0'; while(k<pr&&k<31) r[k++]='0'; if(pr>=0) zero=0; 
       char pfx[3]; int pl=0; if(neg) pfx[pl++]='-'; else if((*f=='d'||*f=='i')&&plus) pfx[pl++]='+'; else if((*f=='d'||*f=='i')&&space) pfx[pl++]=' '; if(alt&&base==16&&(vv||*f=='p')){ pfx[pl++]='0'; pfx[pl++]=*f=='X'?'X':'x'; } if(zero&&!left) while(k+pl<w&&k<31) r[k++]='0'; for(int i=0;i<pl;i++) t[tl++]=pfx[i]; while(k) t[tl++]=r[--k]; break; }
    case 'e': case 'E': case 'f': case 'F': case 'g': case 'G': case 'a': case 'A': { if(l||pr>200||w>200) symx_fail("vsnprintf model: unsupported floating point conversion"); char fs[24],big[600]; int fn=0; fs[fn++]='%'; if(alt) fs[fn++]='#'; if(zero) fs[fn++]='0'; if(left) fs[fn++]='-'; if(plus) fs[fn++]='+'; if(space) fs[fn++]=' '; if(w){ char r[8]; int k=0,x=w; while(x){ r[k++]='0'+x%10; x/=10; } while(k) fs[fn++]=r[--k]; } if(pr>=0){ fs[fn++]='.'; char r[8]; int k=0,x=pr; do { r[k++]='0'+x%10; x/=10; } while(x); while(k) fs[fn++]=r[--k]; } fs[fn++]=*f; fs[fn]=0; double d=va_arg(ap,double); uint64_t bits; memcpy(&bits,&d,8); int r=symx_fmtdbl(big,sizeof(big),fs,bits); for(int i=0;i<r&&i<599;i++) rt_put(b,n,o,big[i]); continue; }
    default: symx_fail("vsnprintf model: unsupported conversion"); }
    if(!left) for(int i=tl;i<w;i++) rt_put(b,n,o,' '); for(int i=0;i<tl;i++) rt_put(b,n,o,s[i]); if(left) for(int i=tl;i<w;i++) rt_put(b,n,o,' '); }
  if(n) b[o<n?o:n-1]=0; return (int)o; }
int eo_snprintf(char*b,size_t n,const char*f,...){ va_list ap; va_start(ap,f); int r=eo_vsnprintf(b,n,f,ap); va_end(ap); return r; }
int eo_sprintf(char*b,const char*f,...){ va_list ap; va_start(ap,f); int r=eo_vsnprintf(b,1<<20,f,ap); va_end(ap); return r; }
void eo_qsort(void*,size_t,size_t,int(*)(const void*,const void*)){ symx_fail("qsort"); }
char*eo_strerror(int){ return (char*)"error"; }
char*eo_getenv(const char*){ return 0; }
// diagnostics sinks: messages to stderr/stdout are not part of any property
__attribute__((weak)) size_t sx_fwrite(const void*,size_t s,size_t n,FILE*){ return n; }
int sx_fputs(const char*,FILE*){ return 1; } int sx_fputc(int c,FILE*){ return c; } __attribute__((weak)) int sx_fflush(FILE*){ return 0; } int sx_puts(const char*){ return 0; }
int sx_perror(const char*){ return 0; }
int sx_fprintf(FILE*,const char*,...){ return 0; } int sx_printf(const char*,...){ return 0; }
// weak-symbol presence probes
int eo___libc_single_threaded_dummy(void){ return 0; }
}
