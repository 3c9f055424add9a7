// Independent oracle: a set of integers as a sorted list of disjoint, non-adjacent closed intervals.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <vector>
#include <string>
#include <utility>
#include <algorithm>
#include <functional>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16;
typedef std::pair<u64,u64> Iv;
typedef std::vector<Iv> Set;

struct Rng { u64 s; u64 next(){ s += 0x9E3779B97F4A7C15ULL; u64 z=s; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31);} 
  u64 below(u64 n){ return n? next()%n:0; } bool p(unsigned pc){ return below(100)<pc; }
  u64 range(u64 a,u64 b){ return a+below(b-a+1); } };
extern Rng R;
extern std::string NOTE; // description of the current case
[[noreturn]] void fail(const char*fmt,...);
void note(const char*fmt,...);

inline void app(Set&s,u64 a,u64 b){ if(!s.empty() && s.back().second!=UINT64_MAX && s.back().second+1==a) s.back().second=b; else s.push_back({a,b}); }
inline Set norm(std::vector<u64> v){ std::sort(v.begin(),v.end()); Set s; for(u64 x:v){ if(!s.empty()&&s.back().second==x) continue; app(s,x,x);} return s; }
// generic boolean combination
template<class F> Set comb(const Set&a,const Set&b,F f){
  Set o; size_t i=0,j=0; u64 pos=0; bool more=true;
  while(more){
    while(i<a.size()&&a[i].second<pos) i++;
    while(j<b.size()&&b[j].second<pos) j++;
    bool ia = i<a.size()&&a[i].first<=pos, ib=j<b.size()&&b[j].first<=pos;
    u64 end=UINT64_MAX;
    if(i<a.size()) end=std::min(end, ia? a[i].second : a[i].first-1);
    if(j<b.size()) end=std::min(end, ib? b[j].second : b[j].first-1);
    if(f(ia,ib)) app(o,pos,end);
    if(end==UINT64_MAX) more=false; else pos=end+1;
  }
  return o;
}
inline Set sAnd(const Set&a,const Set&b){ return comb(a,b,[](bool x,bool y){return x&&y;}); }
inline Set sOr(const Set&a,const Set&b){ return comb(a,b,[](bool x,bool y){return x||y;}); }
inline Set sXor(const Set&a,const Set&b){ return comb(a,b,[](bool x,bool y){return x!=y;}); }
inline Set sSub(const Set&a,const Set&b){ return comb(a,b,[](bool x,bool y){return x&&!y;}); }
inline u64 card(const Set&a){ u64 c=0; for(auto&i:a) c+=i.second-i.first+1; return c; }
inline size_t ivat(const Set&a,u64 x){ // first interval with end>=x
  size_t lo=0,hi=a.size(); while(lo<hi){ size_t m=(lo+hi)/2; if(a[m].second<x) lo=m+1; else hi=m;} return lo; }
inline bool has(const Set&a,u64 x){ size_t i=ivat(a,x); return i<a.size()&&a[i].first<=x; }
inline u64 rankLE(const Set&a,u64 x){ u64 c=0; for(auto&i:a){ if(i.first>x) break; c+=std::min(x,i.second)-i.first+1;} return c; }
inline bool selectK(const Set&a,u64 k,u64*o){ for(auto&i:a){ u64 n=i.second-i.first+1; if(n==0||k<n){*o=i.first+k;return true;} k-=n;} return false; }
inline Set rng_(u64 a,u64 b){ Set s; if(a<=b) s.push_back({a,b}); return s; } // closed
inline bool subset(const Set&a,const Set&b){ return sSub(a,b).empty(); }
inline std::vector<u64> elems(const Set&a){ std::vector<u64> v; for(auto&i:a){ for(u64 x=i.first;;x++){ v.push_back(x); if(x==i.second) break; } } return v; }
std::string show(const Set&a,size_t lim=24);
// pick an interesting value relative to set a, below or equal to maxv
inline u64 pick(const Set&a,u64 maxv){
  unsigned k=R.below(10);
  if(a.empty()||k==0){ static const u64 t[]={0,1,63,64,65,4095,4096,65535,65536,65537,0x7fffffff,0x80000000ULL,0xffff0000ULL,0xfffffffeULL,0xffffffffULL}; return std::min(t[R.below(15)],maxv); }
  const Iv&i=a[R.below(a.size())];
  u64 x;
  switch(k){ case 1: case 2: x=i.first; break; case 3: x=i.second; break; case 4: x=i.first?i.first-1:0; break; case 5: x=i.second<maxv?i.second+1:i.second; break;
    case 6: x=i.first+R.below(i.second-i.first+1); break; case 7: x=(i.first&~0xffffULL)|R.below(65536); break; case 8: x=(i.first&~0xffffULL)+(R.p(50)?65535:65536); break; default: x=(i.first&~0xffffULL)|(64*R.below(1024)+(R.p(50)?63:0)); }
  return std::min(x,maxv);
}
