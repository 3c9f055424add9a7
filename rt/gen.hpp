// Input generator, builder of real bitmaps with a chosen representation, and an independent decoder.
#pragma once
#include "oracle.hpp"
#include <roaring/roaring.h>
#include <roaring/roaring64.h>
#include <roaring/roaring_array.h>
#include <roaring/bitset/bitset.h>
#include <roaring/containers/containers.h>
using namespace roaring::api;
using namespace roaring::internal;
typedef roaring_bitmap_t RB;
extern int g_isa;

// ---- one 16-bit container worth of values
inline Set gen16(int kind=-1){
  if(kind<0) kind=R.below(18);
  Set s;
  static const u64 B[]={0,1,2,15,16,31,32,62,63,64,65,127,128,4095,4096,4097,32767,32768,65471,65472,65533,65534,65535};
  auto rnd=[&](size_t n,u64 lo,u64 hi){ std::vector<u64> v; for(size_t i=0;i<n;i++) v.push_back(R.range(lo,hi)); return norm(v); };
  auto exact=[&](size_t n){ std::vector<bool> m(65536); size_t c=0; bool inv=n>32768; size_t t=inv?65536-n:n; while(c<t){ size_t x=R.below(65536); if(!m[x]){m[x]=true;c++;} } Set o; for(u64 x=0;x<65536;x++) if(m[x]!=inv) app(o,x,x); return o; };
  switch(kind){
    case 0: { u64 x=R.p(50)?B[R.below(23)]:R.below(65536); s=rng_(x,x); break; }
    case 1: { std::vector<u64> v; int n=R.range(1,10); while(n--) v.push_back(R.p(70)?B[R.below(23)]:R.below(65536)); s=norm(v); break; }
    case 2: s=exact(R.range(4094,4099)); break;
    case 3: { static const int z[]={7,8,9,15,16,17,24,31,32,33,63,64,65,127,128,129}; s=exact(z[R.below(16)]); break; }
    case 4: s=rnd(R.range(1,400),0,65535); break;
    case 5: s=rnd(R.range(400,4200),0,65535); break;
    case 6: { unsigned p=R.range(1,9); u64 x=0; while(x<65536){ if(R.below(10)<p) app(s,x,x); x++; } break; }
    case 7: s=rng_(0,65535); break;
    case 8: { s=rng_(0,65535); s=sSub(s,rnd(R.range(1,4),0,65535)); if(R.p(50)) s=sSub(s,rng_(R.p(50)?0:65535,R.p(50)?0:65535)); break; }
    case 9: case 10: { int n=R.range(1,5); while(n--){ u64 a=R.p(50)?B[R.below(23)]:R.below(65536), l=R.p(30)?R.below(65536):R.p(50)?R.below(64):R.below(5000); s=sOr(s,rng_(a,std::min<u64>(65535,a+l))); } break; }
    case 11: { u64 x=R.below(50),g=R.range(2,120),l=R.range(1,g); while(x<65536){ app(s,x,std::min<u64>(65535,x+R.below(l))); x+=g+R.below(3)+1; } break; }
    case 12: { u64 a=R.below(60000); s=rnd(R.range(2,300),a,a+R.range(1,5000)>65535?65535:a+R.range(1,5000)); break; }
    case 13: { u64 st=R.range(2,40),x=R.below(st); while(x<65536){ app(s,x,x); x+=st; } break; }
    case 14: { u64 l=R.range(4090,4100),a=R.p(50)?0:R.below(65536-l); s=rng_(a,a+l-1); break; }
    case 15: { s=rng_(0,65535); u64 a=R.below(65536); s=sSub(s,rng_(a,std::min<u64>(65535,a+R.below(40000)))); break; }
    case 16: { // runs whose count sits around the array/run/bitset size tradeoffs
      static const int z[]={1,2,3,1023,1024,1025,2046,2047,2048,2049}; int n=z[R.below(10)]; u64 step=65536/n; u64 x=0; for(int i=0;i<n;i++){ app(s,x,x+R.below(std::min<u64>(step-1,30))+0); x+=step; } break; }
    default: { // few far apart (galloping)
      int n=R.range(1,6); std::vector<u64> v; while(n--) v.push_back(R.below(65536)); s=norm(v); }
  }
  if(s.empty()) s=rng_(5,5);
  return s;
}
inline Set shiftS(const Set&s,u64 d){ Set o; for(auto&i:s) o.push_back({i.first+d,i.second+d}); return o; }
inline Set mask16(const Set&s){ return sAnd(s,rng_(0,65535)); }
// a container related to c
inline Set mutate16(const Set&c){
  Set o=c;
  switch(R.below(12)){
    case 0: return gen16();
    case 1: return c;
    case 2: { int n=R.range(1,4); while(n--){u64 x=pick(c,65535); o=sXor(o,rng_(x,x));} break; }
    case 3: { u64 a=pick(c,65535),b=pick(c,65535); if(a>b) std::swap(a,b); o=sSub(o,rng_(a,b)); break; }
    case 4: { u64 a=pick(c,65535),b=pick(c,65535); if(a>b) std::swap(a,b); o=sOr(o,rng_(a,b)); break; }
    case 5: o=sSub(rng_(0,65535),c); break;
    case 6: { o.clear(); for(auto&i:c) if(i.second<65535) o.push_back({i.first+1,i.second+1}); break; }
    case 7: { o.clear(); for(auto&i:c) if(R.p(50)) o.push_back(i); break; } // subset of the runs
    case 8: o=sAnd(c,gen16()); break;
    case 9: o=sOr(c,gen16()); break;
    case 10: o=sSub(gen16(),c); break;
    case 11: { // abut: runs that touch the runs of c
      o.clear(); for(auto&i:c) if(R.p(60)&&i.second<65535){ u64 e=std::min<u64>(65535,i.second+1+R.below(6)); o=sOr(o,rng_(i.second+1,e)); if(o.size()>200) break; } break; }
  }
  o=mask16(o);
  return o;
}
inline u16 genkey(){ static const u16 K[]={0,1,2,3,100,0x7fff,0x8000,0xfffd,0xfffe,0xffff}; return R.p(85)?K[R.below(10)]:(u16)R.below(65536); }
// sparse set over many keys (key galloping)
inline Set genManyKeys(){ Set s; int n=R.range(20,90); u64 k=R.below(50); std::vector<u64> v; while(n--){ v.push_back((k<<16)|R.below(65536)); if(R.p(30)) v.push_back((k<<16)|R.below(65536)); k+=R.p(60)?1:R.range(1,40);} return norm(v); }
inline Set gen32(int maxc=4){
  if(R.p(4)) return Set();
  if(R.p(6)) return genManyKeys();
  int n=R.range(1,maxc); Set s; 
  bool cons=R.p(40); u16 k0=genkey();
  for(int i=0;i<n;i++){ u64 k= cons? (u16)std::min<u64>(0xffff,k0+i):genkey(); u64 b=k<<16; s=sSub(s,rng_(b,b+65535)); s=sOr(s,shiftS(gen16(),b)); }
  return s;
}
inline Set mutate32(const Set&a,int maxc=4){
  if(R.p(12)) return gen32(maxc);
  if(a.empty()) return gen32(maxc);
  if(R.p(6)) return genManyKeys();
  Set o; size_t i=0; 
  while(i<a.size()){
    u64 b=a[i].first&~0xffffULL; Set c=shiftS(sAnd(a,rng_(b,b+65535)),(u64)-(int64_t)b);
    while(i<a.size()&&a[i].second<=b+65535) i++;
    if(i<a.size()&&a[i].first<=b+65535){ // interval spans chunk: treat the remaining chunks verbatim or dropped
      Set rest=sAnd(a,rng_(b+65536,UINT32_MAX)); o=sOr(o,shiftS(mutate16(c),b)); if(R.p(70)) o=sOr(o,rest); return o; }
    if(R.p(88)) o=sOr(o,shiftS(mutate16(c),b));
  }
  if(R.p(30)) o=sOr(o,shiftS(gen16(),(u64)genkey()<<16));
  return o;
}
// ---- build a real container / bitmap
inline container_t* buildC(const Set&c,uint8_t*t,int want){ // want: 0 natural, 1 run, 2 random
  u64 n=card(c); bool run = want==1 || (want==2&&R.p(45)); 
  if(run && c.size()>32768) run=false;
  if(run){ run_container_t*r=run_container_create_given_capacity((int)c.size()+(R.p(40)?R.below(5):0)); for(size_t i=0;i<c.size();i++){ r->runs[i].value=(u16)c[i].first; r->runs[i].length=(u16)(c[i].second-c[i].first);} r->n_runs=(int)c.size(); *t=RUN_CONTAINER_TYPE; return r; }
  if(n<=4096){ array_container_t*a=array_container_create_given_capacity((int)n+(R.p(40)?R.below(9):0)); int k=0; for(auto&i:c) for(u64 x=i.first;x<=i.second;x++) a->array[k++]=(u16)x; a->cardinality=k; *t=ARRAY_CONTAINER_TYPE; return a; }
  bitset_container_t*b=bitset_container_create(); for(auto&i:c) for(u64 x=i.first;x<=i.second;x++) b->words[x>>6]|=1ULL<<(x&63); b->cardinality=(int)n; *t=BITSET_CONTAINER_TYPE; return b;
}
template<class F> void chunks(const Set&s,F f){ // f(key, Set16)
  size_t i=0; u64 pos=0; while(i<s.size()){ u64 start=std::max(pos,s[i].first); u64 b=start&~0xffffULL,e=b+65535; Set c; 
    while(i<s.size()&&s[i].first<=e){ u64 a=std::max(s[i].first,b),z=std::min(s[i].second,e); app(c,a-b,z-b); if(s[i].second>e) break; i++; }
    f(b>>16,c); if(e==UINT64_MAX) break; pos=e+1; } }
inline RB* build(const Set&s,int want=2,int cow=-1){
  RB*r=roaring_bitmap_create_with_capacity(R.p(50)?0:R.below(6));
  chunks(s,[&](u64 k,const Set&c){ uint8_t t; container_t*p=buildC(c,&t,want); ra_append(&r->high_low_container,(u16)k,p,t); });
  if(cow<0? R.p(25):cow) roaring_bitmap_set_copy_on_write(r,true);
  return r;
}
// ---- independent decoder; returns false (with why) if the structure is not well formed
struct Dec { Set s; std::string bad; bool shared=false; };
inline void decodeC(const void*c,uint8_t t,u64 base,Dec&d,bool top=true){
  char buf[200];
  #define BAD(...) do{ snprintf(buf,sizeof buf,__VA_ARGS__); d.bad=buf; return; }while(0)
  if(!c) BAD("null container");
  if(t==SHARED_CONTAINER_TYPE){ const shared_container_t*sc=(const shared_container_t*)c; d.shared=true; if(!top) BAD("nested shared"); decodeC(sc->container,sc->typecode,base,d,false); return; }
  if(t==ARRAY_CONTAINER_TYPE){ const array_container_t*a=(const array_container_t*)c; if(a->cardinality<=0) BAD("array container cardinality %d",a->cardinality); if(a->cardinality>4096) BAD("array container cardinality %d > 4096",a->cardinality); if(a->capacity<a->cardinality) BAD("array capacity %d < card %d",a->capacity,a->cardinality);
    int last=-1; for(int i=0;i<a->cardinality;i++){ if((int)a->array[i]<=last) BAD("array values not strictly increasing at %d",i); last=a->array[i]; app(d.s,base+last,base+last);} return; }
  if(t==RUN_CONTAINER_TYPE){ const run_container_t*r=(const run_container_t*)c; if(r->n_runs<=0) BAD("run container n_runs %d",r->n_runs); if(r->capacity<r->n_runs) BAD("run capacity %d < n_runs %d",r->capacity,r->n_runs);
    int64_t last=-2; for(int i=0;i<r->n_runs;i++){ int64_t a=r->runs[i].value,b=a+r->runs[i].length; if(b>65535) BAD("run %d overflows",i); if(a<=last) BAD("runs overlap at %d",i); if(a==last+1) BAD("runs adjacent at %d",i); last=b; app(d.s,base+a,base+b);} return; }
  if(t==BITSET_CONTAINER_TYPE){ const bitset_container_t*b=(const bitset_container_t*)c; int n=0; for(int i=0;i<1024;i++){ u64 w=b->words[i]; n+=__builtin_popcountll(w); while(w){ int p=__builtin_ctzll(w); int q=p; while(q<63&&(w>>(q+1)&1)) q++; app(d.s,base+i*64+p,base+i*64+q); w&= q==63?0:(~0ULL<<(q+1)); } }
    if(n!=b->cardinality) BAD("bitset cardinality %d but popcount %d",b->cardinality,n); if(n<=4096) BAD("bitset container with only %d values",n); return; }
  BAD("unknown typecode %d",t);
}
inline Dec decode(const RB*r){
  Dec d; const roaring_array_t&a=r->high_low_container; char buf[200]; 
  if(a.size<0||a.size>a.allocation_size){ d.bad="size/allocation_size"; return d; }
  int last=-1;
  for(int i=0;i<a.size;i++){ if((int)a.keys[i]<=last){ snprintf(buf,sizeof buf,"keys not strictly increasing at %d",i); d.bad=buf; return d;} last=a.keys[i]; 
    decodeC(a.containers[i],a.typecodes[i],(u64)last<<16,d); if(!d.bad.empty()) { snprintf(buf,sizeof buf," (container %d of %d, key %d)",i,a.size,last); d.bad+=buf; return d;} }
  return d;
}
inline void expectSet(const RB*r,const Set&want,const char*what){
  Dec d=decode(r); if(!d.bad.empty()) fail("%s: result is not a well-formed bitmap: %s",what,d.bad.c_str());
  if(d.s!=want){ Set x=sXor(d.s,want); fail("%s: wrong content; first difference at %llu (%s); expected %s got %s",what,(unsigned long long)x[0].first,has(want,x[0].first)?"missing":"spurious",show(want).c_str(),show(d.s).c_str()); }
}
inline void checkValid(const RB*r,const char*what){ const char*why=nullptr; if(!roaring_bitmap_internal_validate(r,&why)) fail("%s: internal_validate rejects: %s",what,why?why:"?"); }
std::string describe(const RB*r);
