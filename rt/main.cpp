// driver: rt <mode> <seed> <first> <stride> <count> <maxseconds> [statusfile]
#include "gen.hpp"
#include <map>
#include <time.h>
Rng R; std::string NOTE; int g_isa=3; static int real_isa=-1;
extern "C" int __real_croaring_hardware_support(void);
extern "C" int __wrap_croaring_hardware_support(void){ if(real_isa<0) real_isa=__real_croaring_hardware_support(); return real_isa & g_isa; }
static u64 cur_case; static const char*cur_mode; static u64 cur_seed;
static const char* status_path=nullptr; static u64* status=nullptr;
[[noreturn]] void fail(const char*fmt,...){
  va_list ap; va_start(ap,fmt); static char buf[8192]; vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap);
  printf("FAIL mode=%s seed=%llu case=%llu isa=%d\nWHAT %s\nINPUT %s\n",cur_mode,(unsigned long long)cur_seed,(unsigned long long)cur_case,g_isa,buf,NOTE.c_str()); fflush(stdout); _exit(3);
}
void note(const char*fmt,...){ va_list ap; va_start(ap,fmt); static char buf[16384]; vsnprintf(buf,sizeof buf,fmt,ap); va_end(ap); if(NOTE.size()<60000){ NOTE+=buf; NOTE+="; "; } }
std::string show(const Set&a,size_t lim){ std::string s="{"; char b[64]; for(size_t i=0;i<a.size()&&i<lim;i++){ if(a[i].first==a[i].second) snprintf(b,sizeof b,"%s%llu",i?",":"",(unsigned long long)a[i].first); else snprintf(b,sizeof b,"%s%llu-%llu",i?",":"",(unsigned long long)a[i].first,(unsigned long long)a[i].second); s+=b; } if(a.size()>lim){ snprintf(b,sizeof b,",...%zu intervals, card %llu",a.size(),(unsigned long long)card(a)); s+=b;} return s+"}"; }
std::string describe(const RB*r){ std::string s; char b[80]; const roaring_array_t&a=r->high_low_container; for(int i=0;i<a.size&&i<12;i++){ uint8_t t=a.typecodes[i]; const container_t*c=a.containers[i]; bool sh=t==SHARED_CONTAINER_TYPE; c=container_unwrap_shared(c,&t); snprintf(b,sizeof b,"%s%u:%s%s",i?" ":"",a.keys[i],sh?"shared ":"",t==ARRAY_CONTAINER_TYPE?"array":t==RUN_CONTAINER_TYPE?"run":"bitset"); s+=b; } return s; }
static void on_alarm(int){ char b[300]; int n=snprintf(b,sizeof b,"FAIL mode=%s seed=%llu case=%llu isa=%d\nWHAT no termination within the time limit\n",cur_mode,(unsigned long long)cur_seed,(unsigned long long)cur_case,g_isa); if(write(1,b,n)){} n=NOTE.size(); if(write(1,"INPUT ",6)){} if(write(1,NOTE.c_str(),n)){} if(write(1,"\n",1)){} _exit(3); }
typedef void(*Mode)();
std::map<std::string,Mode>& modes(){ static std::map<std::string,Mode> m; return m; }
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int main(int argc,char**argv){
  if(argc<7){ for(auto&m:modes()) printf("%s\n",m.first.c_str()); return 2; }
  std::string m=argv[1]; if(!modes().count(m)){ fprintf(stderr,"unknown mode\n"); return 2; }
  cur_mode=argv[1]; u64 seed=strtoull(argv[2],0,10),first=strtoull(argv[3],0,10),stride=strtoull(argv[4],0,10),count=strtoull(argv[5],0,10); double lim=atof(argv[6]); cur_seed=seed;
  setvbuf(stdout,nullptr,_IOFBF,1<<16); signal(SIGALRM,on_alarm);
  int sfd=-1; if(argc>7){ FILE*f=fopen(argv[7],"w+"); u64 z[2]={0,0}; fwrite(z,8,2,f); fflush(f); sfd=fileno(f); status=(u64*)mmap(0,16,PROT_READ|PROT_WRITE,MAP_SHARED,sfd,0); }
  double t0=now(); u64 done=0;
  for(u64 i=first;done<count;i+=stride,done++){
    if((done&3)==0&&now()-t0>lim) break;
    cur_case=i; NOTE.clear(); R.s=seed*0x1000193ULL+i*0xD1342543DE82EF95ULL+std::hash<std::string>()(m); R.next();
    static const int L[]={3,3,3,1,0,0}; g_isa=L[R.below(6)];
    if(status){ status[0]=i; status[1]=done; }
    alarm(60); modes()[m](); 
  }
  alarm(0); printf("OK mode=%s cases=%llu\n",m.c_str(),(unsigned long long)done); return 0;
}
