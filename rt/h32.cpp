#include "gen.hpp"
#include <map>
typedef void(*Mode)(); std::map<std::string,Mode>& modes();
struct Reg{ Reg(const char*n,Mode m){ modes()[n]=m; } };
#define MODE(n) static void m_##n(); static Reg r_##n(#n,m_##n); static void m_##n()
struct BM { RB*r; Set s; Set s0; std::vector<RB*> clones; bool cow; };
static BM mk(const Set&s,int want=2,int cow=-1){ BM b; b.r=build(s,want,cow); b.s=s; b.cow=roaring_bitmap_get_copy_on_write(b.r); 
  if(b.cow) for(int n=R.below(3);n>0;n--) b.clones.push_back(roaring_bitmap_copy(b.r)); b.s0=s; 
  note("{%s cow=%d clones=%zu %s}",describe(b.r).c_str(),b.cow,b.clones.size(),show(s,40).c_str()); return b; }
static void drop(BM&b,const char*what){ for(auto*c:b.clones){ expectSet(c,b.s0,(std::string("clone after ")+what).c_str()); roaring_bitmap_free(c);} b.clones.clear(); if(b.r) roaring_bitmap_free(b.r); b.r=nullptr; }
static BM mk2(const Set&s,const BM&o){ return mk(s,R.p(20)?0:R.p(20)?1:2,o.cow?1:0); }
static u32 v32(const Set&s){ return (u32)pick(s,UINT32_MAX); }
static void chk(bool c,const char*what){ if(!c) fail("%s",what); }
#define EQ(a,b,what) do{ u64 _a=(u64)(a),_b=(u64)(b); if(_a!=_b) fail("%s: got %llu expected %llu",what,(unsigned long long)_a,(unsigned long long)_b); }while(0)

MODE(setops){ // C01: fresh results, operands unchanged
  Set a=gen32(),b=R.p(80)?mutate32(a):gen32(); if(R.p(50)) std::swap(a,b);
  BM A=mk(a),B=mk2(b,A);
  RB*r; 
  r=roaring_bitmap_and(A.r,B.r); expectSet(r,sAnd(a,b),"and"); roaring_bitmap_free(r);
  r=roaring_bitmap_or(A.r,B.r); expectSet(r,sOr(a,b),"or"); roaring_bitmap_free(r);
  r=roaring_bitmap_xor(A.r,B.r); expectSet(r,sXor(a,b),"xor"); roaring_bitmap_free(r);
  r=roaring_bitmap_andnot(A.r,B.r); expectSet(r,sSub(a,b),"andnot"); roaring_bitmap_free(r);
  if(R.p(10)){ r=roaring_bitmap_and(A.r,A.r); expectSet(r,a,"and self"); roaring_bitmap_free(r); r=roaring_bitmap_or(A.r,A.r); expectSet(r,a,"or self"); roaring_bitmap_free(r); r=roaring_bitmap_xor(A.r,A.r); expectSet(r,Set(),"xor self"); roaring_bitmap_free(r); r=roaring_bitmap_andnot(A.r,A.r); expectSet(r,Set(),"andnot self"); roaring_bitmap_free(r);}
  expectSet(A.r,a,"first operand"); expectSet(B.r,b,"second operand"); drop(A,"op"); drop(B,"op");
}
MODE(inplace){ // C02
  Set a=gen32(),b=R.p(80)?mutate32(a):gen32(); if(R.p(50)) std::swap(a,b);
  for(int op=0;op<4;op++){
    NOTE.clear(); note("op %d",op); BM A=mk(a),B=mk2(b,A); Set w;
    switch(op){ case 0: roaring_bitmap_and_inplace(A.r,B.r); w=sAnd(a,b); break; case 1: roaring_bitmap_or_inplace(A.r,B.r); w=sOr(a,b); break;
      case 2: roaring_bitmap_xor_inplace(A.r,B.r); w=sXor(a,b); break; default: roaring_bitmap_andnot_inplace(A.r,B.r); w=sSub(a,b); }
    static const char*N[]={"and_inplace","or_inplace","xor_inplace","andnot_inplace"};
    expectSet(A.r,w,N[op]); expectSet(B.r,b,"second operand of an in-place operation");
    // the result must be usable: mutate it, the other operand must not change
    u32 x=v32(b); roaring_bitmap_add(A.r,x); expectSet(A.r,sOr(w,rng_(x,x)),"add after in-place"); x=v32(w); roaring_bitmap_remove(A.r,x);
    expectSet(B.r,b,"second operand after mutating the result");
    drop(A,N[op]); drop(B,N[op]);
  }
  BM A=mk(a); roaring_bitmap_and_inplace(A.r,A.r); expectSet(A.r,a,"and_inplace with itself"); drop(A,"and_inplace self");
}
MODE(queries){ // C03
  Set a=gen32(),b=R.p(85)?mutate32(a):gen32(); if(R.p(50)) std::swap(a,b);
  BM A=mk(a),B=mk2(b,A); u64 ca=card(a),cb=card(b),ci=card(sAnd(a,b));
  EQ(roaring_bitmap_get_cardinality(A.r),ca,"cardinality"); EQ(roaring_bitmap_is_empty(A.r),a.empty(),"is_empty");
  EQ(roaring_bitmap_and_cardinality(A.r,B.r),ci,"and_cardinality"); EQ(roaring_bitmap_or_cardinality(A.r,B.r),ca+cb-ci,"or_cardinality");
  EQ(roaring_bitmap_xor_cardinality(A.r,B.r),ca+cb-2*ci,"xor_cardinality"); EQ(roaring_bitmap_andnot_cardinality(A.r,B.r),ca-ci,"andnot_cardinality");
  EQ(roaring_bitmap_intersect(A.r,B.r),ci!=0,"intersect"); EQ(roaring_bitmap_equals(A.r,B.r),a==b,"equals");
  EQ(roaring_bitmap_is_subset(A.r,B.r),ci==ca,"is_subset"); EQ(roaring_bitmap_is_subset(B.r,A.r),ci==cb,"is_subset (swapped)");
  EQ(roaring_bitmap_is_strict_subset(A.r,B.r),ci==ca&&cb>ca,"is_strict_subset"); 
  if(ca+cb-ci){ double j=roaring_bitmap_jaccard_index(A.r,B.r),w=(double)ci/(double)(ca+cb-ci); if(!(j>=w-1e-9&&j<=w+1e-9)) fail("jaccard_index: got %.17g expected %.17g",j,w); }
  RB*c=build(a,R.below(3),0); EQ(roaring_bitmap_equals(A.r,c),1,"equals across representations"); EQ(roaring_bitmap_is_subset(A.r,c),1,"is_subset of an equal set"); EQ(roaring_bitmap_is_strict_subset(A.r,c),0,"is_strict_subset of an equal set");
  Set near=a; u32 x=v32(a); near=sXor(a,rng_(x,x)); RB*d=build(near,R.below(3),0); EQ(roaring_bitmap_equals(A.r,d),0,"equals of sets differing in one value"); EQ(roaring_bitmap_is_subset(A.r,d),has(near,x),"is_subset of near set"); EQ(roaring_bitmap_is_subset(d,A.r),has(a,x),"is_subset of near set (swapped)"); EQ(roaring_bitmap_xor_cardinality(A.r,d),1,"xor_cardinality of near sets");
  roaring_bitmap_free(d); roaring_bitmap_free(c);
  for(int i=0;i<4;i++){ u64 lo=pick(a,UINT32_MAX),hi=R.p(15)?UINT64_C(0x100000000)+R.below(3):pick(a,UINT32_MAX)+R.below(2); EQ(roaring_bitmap_intersect_with_range(A.r,lo,hi), lo<hi && !sAnd(a,rng_(lo,hi-1)).empty(),"intersect_with_range"); }
  { roaring_statistics_t st; roaring_bitmap_statistics(A.r,&st); EQ(st.cardinality,ca,"statistics.cardinality"); if(!a.empty()){ EQ(st.min_value,a[0].first,"statistics.min_value"); EQ(st.max_value,a.back().second,"statistics.max_value"); } EQ(st.n_containers,A.r->high_low_container.size,"statistics.n_containers"); EQ(st.n_array_containers+st.n_run_containers+st.n_bitset_containers,st.n_containers,"statistics container counts"); EQ((u64)st.n_values_array_containers+st.n_values_run_containers+st.n_values_bitset_containers,ca,"statistics value counts"); }
  expectSet(A.r,a,"operand"); expectSet(B.r,b,"operand"); drop(A,"q"); drop(B,"q");
}
MODE(aggregate){ // C04
  int n=R.range(0,7); std::vector<BM> v; std::vector<const RB*> p; Set u,x; Set base=gen32(3);
  bool cow=R.p(25);
  for(int i=0;i<n;i++){ Set s=R.p(80)?mutate32(base,3):gen32(3); if(R.p(5)) s=Set(); BM b=mk(s,R.below(3),cow); v.push_back(b); p.push_back(b.r); u=sOr(u,s); x=sXor(x,s); }
  if(n&&R.p(15)){ p.push_back(p[0]); x=sXor(x,v[0].s); }
  RB*r=roaring_bitmap_or_many(p.size(),p.data()); expectSet(r,u,"or_many"); roaring_bitmap_free(r);
  r=roaring_bitmap_or_many_heap((u32)p.size(),p.data()); expectSet(r,u,"or_many_heap"); roaring_bitmap_free(r);
  r=roaring_bitmap_xor_many(p.size(),p.data()); expectSet(r,x,"xor_many"); roaring_bitmap_free(r);
  if(n>=2){ Set w=sOr(v[0].s,v[1].s); bool bc=R.p(50); r=roaring_bitmap_lazy_or(v[0].r,v[1].r,bc); for(int i=2;i<n;i++){ roaring_bitmap_lazy_or_inplace(r,v[i].r,R.p(50)); w=sOr(w,v[i].s);} roaring_bitmap_repair_after_lazy(r); expectSet(r,w,"lazy_or + repair"); EQ(roaring_bitmap_get_cardinality(r),card(w),"cardinality after repair"); roaring_bitmap_free(r);
    w=sXor(v[0].s,v[1].s); r=roaring_bitmap_lazy_xor(v[0].r,v[1].r); for(int i=2;i<n;i++){ roaring_bitmap_lazy_xor_inplace(r,v[i].r); w=sXor(w,v[i].s);} roaring_bitmap_repair_after_lazy(r); expectSet(r,w,"lazy_xor + repair"); roaring_bitmap_free(r);
    r=roaring_bitmap_copy(v[0].r); w=v[0].s; for(int i=1;i<n;i++){ roaring_bitmap_lazy_or_inplace(r,v[i].r,R.p(50)); w=sOr(w,v[i].s);} roaring_bitmap_repair_after_lazy(r); expectSet(r,w,"lazy_or_inplace + repair"); roaring_bitmap_free(r);
    r=roaring_bitmap_copy(v[0].r); w=v[0].s; for(int i=1;i<n;i++){ roaring_bitmap_lazy_xor_inplace(r,v[i].r); w=sXor(w,v[i].s);} roaring_bitmap_repair_after_lazy(r); expectSet(r,w,"lazy_xor_inplace + repair"); roaring_bitmap_free(r); }
  for(auto&b:v){ expectSet(b.r,b.s,"operand of an aggregate"); drop(b,"aggregate"); }
}
MODE(points){ // C05: sequences of point updates
  Set a=gen32(3); BM A=mk(a); Set s=a; roaring_bulk_context_t ctx; memset(&ctx,0,sizeof ctx); bool bulk=false; roaring_bulk_context_t rctx; memset(&rctx,0,sizeof rctx); bool rok=false;
  int n=R.range(1,60); u32 x=v32(s); int style=R.below(5);
  for(int i=0;i<n;i++){
    if(style==0) x=v32(s); else if(style==1) x+=R.range(1,3); else if(style==2) x-=R.range(1,2); else if(style==3) x=R.p(70)?x+1:v32(s); else x=R.p(50)?(x&0xffff0000u)|R.below(65536):v32(s);
    bool in=has(s,x); int op=R.below(9); note("op%d(%u)",op,x);
    if(op!=0) bulk=false; if(op!=7) rok=false;
    switch(op){
      case 0: if(!bulk){ memset(&ctx,0,sizeof ctx); bulk=true; } for(int k=R.range(1,5);k>0;k--){ roaring_bitmap_add_bulk(A.r,&ctx,x); s=sOr(s,rng_(x,x)); if(k>1){ x=R.p(70)?x+R.below(70000):v32(s); note("bulk %u",x);} } break;
      case 1: roaring_bitmap_add(A.r,x); s=sOr(s,rng_(x,x)); break;
      case 2: EQ(roaring_bitmap_add_checked(A.r,x),!in,"add_checked"); s=sOr(s,rng_(x,x)); break;
      case 3: roaring_bitmap_remove(A.r,x); s=sSub(s,rng_(x,x)); break;
      case 4: EQ(roaring_bitmap_remove_checked(A.r,x),in,"remove_checked"); s=sSub(s,rng_(x,x)); break;
      case 5: case 6: { std::vector<u32> v; std::vector<u64> w; int m=R.below(12); u32 y=x; for(int k=0;k<m;k++){ y= R.p(60)? y+R.below(20) : v32(s); v.push_back(y); w.push_back(y);} if(R.p(20)){ u32 b=x&0xffff0000u; for(int k=0;k<300;k++){ u32 z=b|R.below(65536); v.push_back(z); w.push_back(z);} }
        std::vector<u32> ex(v); u32*pp=(u32*)malloc(v.size()*4); if(v.size()) memcpy(pp,v.data(),v.size()*4); if(op==5){ roaring_bitmap_add_many(A.r,v.size(),pp); s=sOr(s,norm(w)); } else { roaring_bitmap_remove_many(A.r,v.size(),pp); s=sSub(s,norm(w)); } free(pp); for(u32 z:v) note("%u",z); break; }
      case 7: { memset(&rctx,0,sizeof rctx); for(int k=0;k<6;k++){ u32 y=R.p(60)?(x&0xffff0000u)|R.below(65536):v32(s); EQ(roaring_bitmap_contains_bulk(A.r,&rctx,y),has(s,y),"contains_bulk"); } break; }
      default: EQ(roaring_bitmap_contains(A.r,x),in,"contains"); for(int k=0;k<6;k++){ u32 y=v32(s); EQ(roaring_bitmap_contains(A.r,y),has(s,y),"contains"); } }
    EQ(roaring_bitmap_contains(A.r,x),has(s,x),"contains after update");
    if(R.p(25)||i==n-1) expectSet(A.r,s,"after point updates");
  }
  drop(A,"point updates");
  { std::vector<u32> v; std::vector<u64> w; for(int k=R.below(200);k>0;k--){ u32 y=v32(a); v.push_back(y); w.push_back(y);} RB*r=roaring_bitmap_of_ptr(v.size(),v.data()); expectSet(r,norm(w),"of_ptr"); roaring_bitmap_free(r); }
}
static u64 bound(const Set&s){ return R.p(5)?UINT64_C(0x100000000):pick(s,UINT32_MAX)+(R.p(30)?1:0); }
MODE(ranges){ // C06
  Set a=gen32(3); const u64 TOP=UINT64_C(0x100000000);
  for(int i=0;i<6;i++){
    u64 lo=bound(a),hi=bound(a); if(R.p(70)&&lo>hi) std::swap(lo,hi); if(R.p(25)) hi=lo+R.below(70); if(R.p(10)) hi=(lo|0xffff)+1+R.below(3); if(hi>TOP) hi=TOP; if(lo>TOP) lo=TOP; Set rg= lo<hi?rng_(lo,hi-1):Set();
    if(hi>lo&&hi-lo>(12u<<20)&&!R.p(3)) hi=lo+R.below(12u<<20); if(hi>TOP)hi=TOP; rg= lo<hi?rng_(lo,hi-1):Set();
    NOTE.clear(); BM A=mk(a); note("range [%llu,%llu)",(unsigned long long)lo,(unsigned long long)hi); int op=R.below(9);
    EQ(roaring_bitmap_contains_range(A.r,lo,hi),subset(rg,a),"contains_range"); EQ(roaring_bitmap_range_cardinality(A.r,lo,hi),card(sAnd(a,rg)),"range_cardinality"); EQ(roaring_bitmap_intersect_with_range(A.r,lo,hi),!sAnd(a,rg).empty(),"intersect_with_range");
    if(lo<hi){ EQ(roaring_bitmap_contains_range_closed(A.r,(u32)lo,(u32)(hi-1)),subset(rg,a),"contains_range_closed"); EQ(roaring_bitmap_range_cardinality_closed(A.r,(u32)lo,(u32)(hi-1)),card(sAnd(a,rg)),"range_cardinality_closed"); }
    switch(op){
      case 0: roaring_bitmap_add_range(A.r,lo,hi); expectSet(A.r,sOr(a,rg),"add_range"); break;
      case 1: if(lo<hi){ roaring_bitmap_add_range_closed(A.r,(u32)lo,(u32)(hi-1)); expectSet(A.r,sOr(a,rg),"add_range_closed"); } break;
      case 2: roaring_bitmap_remove_range(A.r,lo,hi); expectSet(A.r,sSub(a,rg),"remove_range"); break;
      case 3: if(lo<hi){ roaring_bitmap_remove_range_closed(A.r,(u32)lo,(u32)(hi-1)); expectSet(A.r,sSub(a,rg),"remove_range_closed"); } break;
      case 4: { RB*r=roaring_bitmap_flip(A.r,lo,hi); expectSet(r,sXor(a,rg),"flip"); expectSet(A.r,a,"operand of flip"); roaring_bitmap_free(r); break; }
      case 5: roaring_bitmap_flip_inplace(A.r,lo,hi); expectSet(A.r,sXor(a,rg),"flip_inplace"); break;
      case 6: if(lo<hi){ if(R.p(50)){ RB*r=roaring_bitmap_flip_closed(A.r,(u32)lo,(u32)(hi-1)); expectSet(r,sXor(a,rg),"flip_closed"); roaring_bitmap_free(r);} else { roaring_bitmap_flip_inplace_closed(A.r,(u32)lo,(u32)(hi-1)); expectSet(A.r,sXor(a,rg),"flip_inplace_closed"); } } break;
      case 7: { // contains_range/cardinality on ranges drawn from the set itself
        for(int k=0;k<6&&!a.empty();k++){ const Iv&v=a[R.below(a.size())]; u64 l=v.first+(R.p(30)?R.below(v.second-v.first+1):0),h=v.second+1+(R.p(20)?1:0); if(R.p(20)&&l) l--; if(h>TOP) h=TOP; EQ(roaring_bitmap_contains_range(A.r,l,h),l>=h||subset(rng_(l,h-1),a),"contains_range"); EQ(roaring_bitmap_range_cardinality(A.r,l,h),l>=h?0:card(sAnd(a,rng_(l,h-1))),"range_cardinality"); } break; }
      default: { // from_range
        u64 mn=bound(a),mx=bound(a); if(mn>mx) std::swap(mn,mx); if(mx>TOP) mx=TOP; if(mn>TOP) mn=TOP; u32 step; static const u32 st[]={0,1,2,3,63,64,65,1000,32767,32768,65535,65536,65537,131072,0x7fffffff,0x80000000u,0xffffffffu}; step=R.p(70)?st[R.below(17)]:(u32)R.range(1,200000); u64 span=mx-mn; if(step&&span/step>300000) mx=mn+(u64)step*R.below(300000); if(step==1&&R.p(50)) mx=mn+R.below(300000); if(mx>TOP) mx=TOP;
        note("from_range(%llu,%llu,%u)",(unsigned long long)mn,(unsigned long long)mx,step); RB*r=roaring_bitmap_from_range(mn,mx,step); if(step==0||mn>=mx){ if(r){ expectSet(r,Set(),"from_range of an empty range"); roaring_bitmap_free(r);} }
        else { Set w; for(u64 x=mn;x<mx;x+=step) app(w,x,x); if(!r) fail("from_range returned NULL"); expectSet(r,w,"from_range"); roaring_bitmap_free(r);} } }
    expectSet(A.r, op==0||op==1?sOr(a,rg):op==2||op==3?sSub(a,rg):decode(A.r).s,"content after range operation"); if(op<=3||op==5){ Set w=decode(A.r).s; u32 y=v32(w); roaring_bitmap_add(A.r,y); expectSet(A.r,sOr(w,rng_(y,y)),"add after a range operation"); }
    drop(A,"range operation");
  }
}
MODE(order){ // C07
  Set a=gen32(4); BM A=mk(a); u64 n=card(a);
  EQ(roaring_bitmap_minimum(A.r),a.empty()?UINT32_MAX:a[0].first,"minimum"); EQ(roaring_bitmap_maximum(A.r),a.empty()?0:a.back().second,"maximum");
  std::vector<u32> q; for(int i=0;i<30;i++) q.push_back(v32(a));
  for(u32 x:q){ EQ(roaring_bitmap_rank(A.r,x),rankLE(a,x),"rank"); int64_t g=roaring_bitmap_get_index(A.r,x); EQ(g,has(a,x)?(int64_t)rankLE(a,x)-1:-1,"get_index"); }
  std::sort(q.begin(),q.end()); size_t m=R.below(q.size()+1); u64*ans=(u64*)malloc(m*8); u32*qq=(u32*)malloc(m*4); memcpy(qq,q.data(),m*4); roaring_bitmap_rank_many(A.r,qq,qq+m,ans); for(size_t i=0;i<m;i++) EQ(ans[i],rankLE(a,qq[i]),"rank_many"); free(ans); free(qq);
  for(int i=0;i<30;i++){ u64 k; if(R.p(15)) k=n+R.below(3); else if(R.p(15)) k=n?n-1:0; else if(R.p(40)&&!a.empty()){ k=rankLE(a,a[R.below(a.size())].first)-1+R.below(2);} else k=R.below(n+1); if(k>UINT32_MAX) k=UINT32_MAX; u32 e=0xdeadbeef; u64 w=0; bool ok=roaring_bitmap_select(A.r,(u32)k,&e); EQ(ok,k<n,"select return"); if(ok){ selectK(a,k,&w); EQ(e,w,"select value"); EQ(roaring_bitmap_rank(A.r,e),k+1,"rank(select(k))"); } }
  drop(A,"order");
}
// random walk over the whole mutating API; every bitmap must be well formed and pass internal_validate after each step
MODE(wellformed){ // C08
  std::vector<RB*> v; std::vector<Set> s; int n=3; bool cow=R.p(30); for(int i=0;i<n;i++){ Set t=i&&R.p(60)?mutate32(s[0],3):gen32(3); s.push_back(t); v.push_back(build(t,R.below(3),cow)); note("B%d=%s %s",i,describe(v[i]).c_str(),show(t,30).c_str()); }
  int steps=R.range(1,14);
  for(int k=0;k<steps;k++){ int i=R.below(n),j=(i+1+R.below(n-1))%n,o=(i+j)*2%n; o=3-i-j; int op=R.below(26); u64 lo=pick(s[i],UINT32_MAX),hi=lo+R.below(200000); if(R.p(50)) hi=pick(s[i],UINT32_MAX); if(lo>hi) std::swap(lo,hi); if(hi-lo>(20u<<16)) hi=lo+(3u<<16); if(hi>UINT32_MAX) hi=UINT32_MAX; note("op%d i%d j%d [%llu,%llu]",op,i,j,(unsigned long long)lo,(unsigned long long)hi); u32 x=(u32)lo; RB*r=nullptr; Set w;
    #define PUT(e,ww) do{ r=e; w=ww; roaring_bitmap_free(v[o]); v[o]=r; s[o]=w; }while(0)
    switch(op){ case 0: PUT(roaring_bitmap_and(v[i],v[j]),sAnd(s[i],s[j])); break; case 1: PUT(roaring_bitmap_or(v[i],v[j]),sOr(s[i],s[j])); break; case 2: PUT(roaring_bitmap_xor(v[i],v[j]),sXor(s[i],s[j])); break; case 3: PUT(roaring_bitmap_andnot(v[i],v[j]),sSub(s[i],s[j])); break;
      case 4: roaring_bitmap_and_inplace(v[i],v[j]); s[i]=sAnd(s[i],s[j]); break; case 5: roaring_bitmap_or_inplace(v[i],v[j]); s[i]=sOr(s[i],s[j]); break; case 6: roaring_bitmap_xor_inplace(v[i],v[j]); s[i]=sXor(s[i],s[j]); break; case 7: roaring_bitmap_andnot_inplace(v[i],v[j]); s[i]=sSub(s[i],s[j]); break;
      case 8: roaring_bitmap_add(v[i],x); s[i]=sOr(s[i],rng_(x,x)); break; case 9: roaring_bitmap_remove(v[i],x); s[i]=sSub(s[i],rng_(x,x)); break; case 10: roaring_bitmap_add_range_closed(v[i],x,(u32)hi); s[i]=sOr(s[i],rng_(x,hi)); break; case 11: roaring_bitmap_remove_range_closed(v[i],x,(u32)hi); s[i]=sSub(s[i],rng_(x,hi)); break;
      case 12: PUT(roaring_bitmap_flip_closed(v[i],x,(u32)hi),sXor(s[i],rng_(x,hi))); break; case 13: roaring_bitmap_flip_inplace_closed(v[i],x,(u32)hi); s[i]=sXor(s[i],rng_(x,hi)); break;
      case 14: roaring_bitmap_run_optimize(v[i]); break; case 15: roaring_bitmap_remove_run_compression(v[i]); break; case 16: roaring_bitmap_shrink_to_fit(v[i]); break; case 17: PUT(roaring_bitmap_copy(v[i]),s[i]); break; case 18: roaring_bitmap_overwrite(v[j],v[i]); s[j]=s[i]; break;
      case 19: { const RB*p[3]={v[0],v[1],v[2]}; PUT(roaring_bitmap_or_many(3,p),sOr(sOr(s[0],s[1]),s[2])); break; } case 20: { const RB*p[3]={v[0],v[1],v[2]}; PUT(roaring_bitmap_or_many_heap(3,p),sOr(sOr(s[0],s[1]),s[2])); break; } case 21: { const RB*p[3]={v[0],v[1],v[2]}; PUT(roaring_bitmap_xor_many(3,p),sXor(sXor(s[0],s[1]),s[2])); break; }
      case 22: { int64_t off=(int64_t)R.below(200000)-100000; if(R.p(30)) off=((int64_t)R.below(5)-2)*65536; note("off %lld",(long long)off); Set t; for(auto&q:s[i]){ int64_t a=(int64_t)q.first+off,b=(int64_t)q.second+off; if(b<0||a>(int64_t)UINT32_MAX) continue; if(a<0)a=0; if(b>(int64_t)UINT32_MAX) b=UINT32_MAX; app(t,a,b);} PUT(roaring_bitmap_add_offset(v[i],off),t); break; }
      case 23: { size_t z=roaring_bitmap_portable_size_in_bytes(v[i]); char*b=(char*)malloc(z); roaring_bitmap_portable_serialize(v[i],b); PUT(roaring_bitmap_portable_deserialize_safe(b,z),s[i]); free(b); if(cow) roaring_bitmap_set_copy_on_write(v[o],true); break; }
      case 24: PUT(roaring_bitmap_lazy_or(v[i],v[j],R.p(50)),sOr(s[i],s[j])); roaring_bitmap_repair_after_lazy(v[o]); break;
      default: { std::vector<u32> q; std::vector<u64> z; for(int m=R.below(40);m>0;m--){ u32 y=v32(s[i]); q.push_back(y); z.push_back(y);} if(R.p(50)){ roaring_bitmap_add_many(v[i],q.size(),q.data()); s[i]=sOr(s[i],norm(z)); } else { roaring_bitmap_remove_many(v[i],q.size(),q.data()); s[i]=sSub(s[i],norm(z)); } } }
    for(int q=0;q<n;q++){ expectSet(v[q],s[q],"after random operation"); checkValid(v[q],"after random operation"); }
  }
  for(int i=0;i<n;i++) roaring_bitmap_free(v[i]);
}
// C08b: internal_validate rejects structures that are not well formed
MODE(validator){
  Set a=gen32(3); while(a.empty()) a=gen32(3); RB*r=build(a,R.below(3),0); checkValid(r,"well-formed bitmap"); Dec d0=decode(r); if(!d0.bad.empty()) fail("generator: %s",d0.bad.c_str());
  roaring_array_t&ra=r->high_low_container; int i=R.below(ra.size); uint8_t t=ra.typecodes[i]; container_t*c=ra.containers[i]; note("%s",describe(r).c_str()); int k=R.below(6); note("corrupt container %d kind %d",i,k);
  std::function<void()> undo=[]{}; bool did=true;
  if(k==5&&ra.size>1){ int p=R.below(ra.size-1); u16 o=ra.keys[p+1]; u16 nv=R.p(50)?ra.keys[p]:(ra.keys[p]?ra.keys[p]-1:0); ra.keys[p+1]=nv; undo=[&ra,p,o]{ra.keys[p+1]=o;}; }
  else if(t==ARRAY_CONTAINER_TYPE){ array_container_t*x=(array_container_t*)c; 
    if(k==0){ int o=x->cardinality; x->cardinality=0; undo=[x,o]{x->cardinality=o;}; }
    else if(k==1&&x->cardinality>1){ int p=R.below(x->cardinality-1); u16 o=x->array[p+1]; x->array[p+1]=x->array[p]; undo=[x,p,o]{x->array[p+1]=o;}; }
    else if(k==2&&x->cardinality>1){ int p=R.below(x->cardinality-1); std::swap(x->array[p],x->array[p+1]); undo=[x,p]{std::swap(x->array[p],x->array[p+1]);}; }
    else if(k==3){ int o=x->capacity; x->capacity=x->cardinality-1; undo=[x,o]{x->capacity=o;}; }
    else if(k==4){ int o=x->cardinality; x->cardinality=-1; undo=[x,o]{x->cardinality=o;}; } else did=false; }
  else if(t==RUN_CONTAINER_TYPE){ run_container_t*x=(run_container_t*)c; 
    if(k==0){ int o=x->n_runs; x->n_runs=0; undo=[x,o]{x->n_runs=o;}; }
    else if(k==1&&x->n_runs>1){ int p=R.below(x->n_runs-1); u16 o=x->runs[p].length; x->runs[p].length=x->runs[p+1].value-x->runs[p].value; undo=[x,p,o]{x->runs[p].length=o;}; }
    else if(k==2){ int p=x->n_runs-1; u16 o=x->runs[p].length; if(x->runs[p].value==0) did=false; else { x->runs[p].length=65536-x->runs[p].value; undo=[x,p,o]{x->runs[p].length=o;}; } }
    else if(k==3){ int o=x->capacity; x->capacity=x->n_runs-1; undo=[x,o]{x->capacity=o;}; }
    else if(k==4&&x->n_runs>1){ int p=R.below(x->n_runs-1); std::swap(x->runs[p],x->runs[p+1]); undo=[x,p]{std::swap(x->runs[p],x->runs[p+1]);}; } else did=false; }
  else { bitset_container_t*x=(bitset_container_t*)c; 
    if(k==0){ x->cardinality++; undo=[x]{x->cardinality--;}; } else if(k==1){ x->cardinality--; undo=[x]{x->cardinality++;}; } else if(k==2){ u64 b=R.below(65536); x->words[b>>6]^=1ULL<<(b&63); undo=[x,b]{x->words[b>>6]^=1ULL<<(b&63);}; }
    else if(k==3){ std::vector<u64> w(x->words,x->words+1024); int o=x->cardinality; memset(x->words,0,8192); int m=R.range(1,4096); if(R.p(40)) m=4096; for(int q=0;q<m;q++) x->words[q>>6]|=1ULL<<(q&63); x->cardinality=m; undo=[x,w,o]{memcpy(x->words,w.data(),8192); x->cardinality=o;}; } else did=false; }
  const char*why=nullptr; Dec d=decode(r); bool v=roaring_bitmap_internal_validate(r,&why);
  if(did){ if(d.bad.empty()) fail("generator: corruption not effective"); if(v) fail("internal_validate accepts a malformed bitmap (%s)",d.bad.c_str()); if(!why) fail("internal_validate gives no reason"); }
  undo(); checkValid(r,"restored bitmap"); roaring_bitmap_free(r);
}
// ---- C09: independent reader of the portable format
Dec readPortable(const unsigned char*p,size_t n,size_t*used){
  Dec d; size_t o=0; auto need=[&](size_t k){ if(o+k>n){ d.bad="format: truncated"; return false;} return true; }; auto u16at=[&](size_t q){ return (u32)p[q]|(u32)p[q+1]<<8; }; auto u32at=[&](size_t q){ return (u32)p[q]|(u32)p[q+1]<<8|(u32)p[q+2]<<16|(u32)p[q+3]<<24; };
  if(!need(4)) return d; u32 ck=u32at(0); o=4; u32 size; bool runs=false; size_t rb=0; 
  if((ck&0xffff)==12347){ size=(ck>>16)+1; runs=true; rb=o; if(!need((size+7)/8)) return d; o+=(size+7)/8; } else if(ck==12346){ if(!need(4)) return d; size=u32at(o); o+=4; } else { d.bad="format: cookie"; return d; }
  if(size>65536){ d.bad="format: size"; return d; } if(!need(size*4)) return d; size_t kc=o; o+=size*4; size_t offs=0; bool hasoff=!runs||size>=4; if(hasoff){ if(!need(size*4)) return d; offs=o; o+=size*4; }
  bool anyrun=false; int last=-1;
  for(u32 i=0;i<size;i++){ u32 key=u16at(kc+4*i),cd=u16at(kc+4*i+2)+1; if((int)key<=last){ d.bad="format: keys not increasing"; return d;} last=key; bool run=runs&&(p[rb+i/8]>>(i%8)&1); anyrun|=run; if(hasoff&&u32at(offs+4*i)!=o){ d.bad="format: offset header wrong"; return d;} u64 b=(u64)key<<16;
    if(run){ if(!need(2)) return d; u32 nr=u16at(o); o+=2; if(!need(nr*4)) return d; int64_t l=-2; u64 c=0; for(u32 k=0;k<nr;k++){ u32 v=u16at(o),le=u16at(o+2); o+=4; if((int64_t)v<=l||v+le>65535){ d.bad="format: run order"; return d;} l=v+le; c+=le+1; app(d.s,b+v,b+v+le);} if(c!=cd){ d.bad="format: cardinality of run container"; return d;} }
    else if(cd<=4096){ if(!need(cd*2)) return d; int64_t l=-1; for(u32 k=0;k<cd;k++){ u32 v=u16at(o); o+=2; if((int64_t)v<=l){ d.bad="format: array order"; return d;} l=v; app(d.s,b+v,b+v);} }
    else { if(!need(8192)) return d; u32 c=0; for(u32 q=0;q<65536;q++) if(p[o+q/8]>>(q%8)&1){ app(d.s,b+q,b+q); c++; } o+=8192; if(c!=cd){ d.bad="format: cardinality of bitset container"; return d;} } }
  if(runs&&!anyrun) d.bad="format: run cookie without run container";
  *used=o; return d;
}
MODE(serial){ // C09
  Set a=gen32(5); BM A=mk(a);
  if(R.p(25)) { roaring_bitmap_run_optimize(A.r); }
  size_t z=roaring_bitmap_portable_size_in_bytes(A.r); char*b=(char*)malloc(z); size_t w=roaring_bitmap_portable_serialize(A.r,b); EQ(w,z,"portable_serialize return vs portable_size_in_bytes");
  size_t used=0; Dec d=readPortable((unsigned char*)b,z,&used); if(!d.bad.empty()) fail("portable_serialize: %s",d.bad.c_str()); if(d.s!=a) fail("portable_serialize: bytes decode to a different set"); EQ(used,z,"portable bytes used");
  EQ(roaring_bitmap_portable_deserialize_size(b,z),z,"portable_deserialize_size"); 
  { char*b2=(char*)malloc(z+16); memcpy(b2,b,z); memset(b2+z,0xAA,16); EQ(roaring_bitmap_portable_deserialize_size(b2,z+16),z,"portable_deserialize_size with trailing bytes"); RB*r=roaring_bitmap_portable_deserialize_safe(b2,z+16); if(!r) fail("portable_deserialize_safe rejects valid bytes with trailing data"); expectSet(r,a,"portable_deserialize_safe"); roaring_bitmap_free(r); free(b2); }
  for(int k=0;k<4&&z;k++){ size_t t=k==0?z-1:R.below(z); char*b2=(char*)malloc(t?t:1); memcpy(b2,b,t); if(roaring_bitmap_portable_deserialize_size(b2,t)!=0) fail("portable_deserialize_size accepts a truncated buffer (%zu of %zu)",t,z); RB*r=roaring_bitmap_portable_deserialize_safe(b2,t); if(r) fail("portable_deserialize_safe accepts a truncated buffer (%zu of %zu)",t,z); free(b2); }
  RB*r=roaring_bitmap_portable_deserialize_safe(b,z); if(!r) fail("portable_deserialize_safe rejects valid bytes"); expectSet(r,a,"portable_deserialize_safe"); EQ(roaring_bitmap_equals(r,A.r),1,"equals after round trip"); checkValid(r,"deserialized");
  { size_t z2=roaring_bitmap_portable_size_in_bytes(r); EQ(z2,z,"re-serialized size"); char*b2=(char*)malloc(z2); roaring_bitmap_portable_serialize(r,b2); if(memcmp(b,b2,z)) fail("portable re-serialization differs"); free(b2); } 
  { u32 x=v32(a); roaring_bitmap_add(r,x); expectSet(r,sOr(a,rng_(x,x)),"add after deserialize"); } roaring_bitmap_free(r);
  r=roaring_bitmap_portable_deserialize(b); if(!r) fail("portable_deserialize rejects valid bytes"); expectSet(r,a,"portable_deserialize"); roaring_bitmap_free(r);
  { char*al=(char*)aligned_alloc(64,(z+63)/64*64+64); memcpy(al,b,z); RB*f=roaring_bitmap_portable_deserialize_frozen(al); if(!f) fail("portable_deserialize_frozen rejects valid bytes"); Set got; { const roaring_array_t&ra=f->high_low_container; Dec dd; int last=-1; for(int i=0;i<ra.size;i++){ if((int)ra.keys[i]<=last) fail("portable frozen keys"); last=ra.keys[i]; uint8_t t=ra.typecodes[i]; (void)t; } } { u64 n=roaring_bitmap_get_cardinality(f); EQ(n,card(a),"cardinality of the portable frozen view"); if(n<400000){ std::vector<u32> q(n); roaring_bitmap_to_uint32_array(f,q.data()); size_t i=0; for(auto&iv:a) for(u64 x=iv.first;;x++){ if(q[i]!=x) fail("portable frozen view content: got %u expected %llu",q[i],(unsigned long long)x); i++; if(x==iv.second) break; } } } EQ(roaring_bitmap_equals(f,A.r),1,"portable frozen view equals"); roaring_bitmap_free(f); free(al); }
  free(b);
  z=roaring_bitmap_size_in_bytes(A.r); b=(char*)malloc(z); w=roaring_bitmap_serialize(A.r,b); EQ(w,z,"serialize return vs size_in_bytes"); r=roaring_bitmap_deserialize(b); if(!r) fail("deserialize rejects valid bytes"); expectSet(r,a,"deserialize"); roaring_bitmap_free(r); r=roaring_bitmap_deserialize_safe(b,z); if(!r) fail("deserialize_safe rejects valid bytes"); expectSet(r,a,"deserialize_safe"); checkValid(r,"deserialize_safe"); roaring_bitmap_free(r);
  for(int k=0;k<3&&z;k++){ size_t t=k==0?z-1:R.below(z); char*b2=(char*)malloc(t?t:1); memcpy(b2,b,t); r=roaring_bitmap_deserialize_safe(b2,t); if(r) fail("deserialize_safe accepts a truncated buffer (%zu of %zu)",t,z); free(b2); }
  free(b);
  z=roaring_bitmap_frozen_size_in_bytes(A.r); { size_t al=(z+31)/32*32; char*fb=(char*)aligned_alloc(32,al+32); char*fx=fb; if(al!=z||true){ memset(fb,0x5A,al+32); } roaring_bitmap_frozen_serialize(A.r,fx); for(size_t q=z;q<al+32;q++) if((unsigned char)fb[q]!=0x5A) fail("frozen_serialize writes past frozen_size_in_bytes"); 
    const RB*f=roaring_bitmap_frozen_view(fb,z); if(!f) fail("frozen_view rejects valid bytes"); EQ(roaring_bitmap_equals(f,A.r),1,"frozen view equals"); EQ(roaring_bitmap_get_cardinality(f),card(a),"frozen view cardinality"); for(int k=0;k<20;k++){ u32 x=v32(a); EQ(roaring_bitmap_contains(f,x),has(a,x),"contains on frozen view"); } checkValid(f,"frozen view"); expectSet(f,a,"frozen view"); RB*o=roaring_bitmap_copy(f); expectSet(o,a,"copy of frozen view"); roaring_bitmap_free(o); if(roaring_bitmap_frozen_view(fb,z-1)) fail("frozen_view accepts a short length"); roaring_bitmap_free(f); free(fb); }
  expectSet(A.r,a,"serialized bitmap"); drop(A,"serialize");
}
static void exercise(RB*r){ // safe use of a validated bitmap
  u64 n=roaring_bitmap_get_cardinality(r); (void)n; Dec d=decode(r); if(!d.bad.empty()) fail("validated bitmap is malformed: %s",d.bad.c_str()); EQ(n,card(d.s),"cardinality of validated bitmap");
  RB*o=roaring_bitmap_flip(r,0,R.below(300000)); roaring_bitmap_free(o); for(int i=0;i<8;i++){ u32 x=v32(d.s); EQ(roaring_bitmap_contains(r,x),has(d.s,x),"contains on validated bitmap"); EQ(roaring_bitmap_rank(r,x),rankLE(d.s,x),"rank on validated bitmap"); }
  size_t z=roaring_bitmap_portable_size_in_bytes(r); char*b=(char*)malloc(z); EQ(roaring_bitmap_portable_serialize(r,b),z,"serialize validated bitmap"); free(b);
  roaring_bitmap_run_optimize(r); expectSet(r,d.s,"run_optimize of validated bitmap"); u32 x=v32(d.s); roaring_bitmap_add(r,x); expectSet(r,sOr(d.s,rng_(x,x)),"add to validated bitmap"); }
MODE(untrusted){ // C10
  std::vector<unsigned char> buf; int src=R.below(10); note("src %d",src);
  bool native=R.p(30);
  if(src<8){ Set a=R.p(10)?genManyKeys():gen32(R.range(1,5)); if(R.p(40)){ Set t; int n=R.range(1,3); for(int i=0;i<n;i++){ u64 b=(u64)(i*R.range(1,3)+i)<<16; t=sOr(t,shiftS(gen16(R.p(50)?1:9),b)); } a=t; } RB*r=build(a,R.below(3),0); size_t z=native?roaring_bitmap_size_in_bytes(r):roaring_bitmap_portable_size_in_bytes(r); buf.resize(z); if(native) roaring_bitmap_serialize(r,(char*)buf.data()); else roaring_bitmap_portable_serialize(r,(char*)buf.data()); roaring_bitmap_free(r);
    int m=R.below(7); 
    for(int k=0;k<m&&!buf.empty();k++){ size_t hdr=std::min<size_t>(buf.size(),R.p(70)?48:buf.size()); size_t p=R.below(hdr); int how=R.below(8); static const unsigned char E[]={0,1,2,0x7f,0x80,0xfe,0xff,0x10};
      if(how==0) buf[p]^=1<<R.below(8); else if(how==1) buf[p]=E[R.below(8)]; else if(how==2){ u32 v=R.p(50)?0xffffffffu>>R.below(32):(u32)R.below(70000); for(int q=0;q<4&&p+q<buf.size();q++) buf[p+q]=v>>(8*q);} else if(how==3){ u16 v=R.p(50)?0xffff>>R.below(16):R.below(65536); for(int q=0;q<2&&p+q<buf.size();q++) buf[p+q]=v>>(8*q);} else if(how==4) buf.resize(R.below(buf.size()+1)); else if(how==5) buf.insert(buf.begin()+p,(unsigned char)R.next()); else if(how==6) buf.erase(buf.begin()+p); else if(p+1<buf.size()) std::swap(buf[p],buf[p+1]); }
    if(R.p(30)) buf.resize(R.below(buf.size()+1)); }
  else if(src==8){ size_t n=R.below(80); for(size_t i=0;i<n;i++) buf.push_back(R.next()); if(n>=4){ u32 ck=R.p(50)?12346:(12347|(u32)R.below(6)<<16); memcpy(buf.data(),&ck,4);} if(n>=8&&R.p(60)){ u32 s=R.below(8); memcpy(buf.data()+4,&s,4);} if(R.p(30)&&n) buf[0]=R.range(1,2); }
  else { // synthetic header, claims more than there is
    u32 sz=R.p(60)?R.range(1,6):R.range(1,70000); std::vector<u32> w; bool run=R.p(50); auto p32=[&](u32 v){ for(int q=0;q<4;q++) buf.push_back(v>>(8*q)); }; if(run){ p32(12347|(std::min<u32>(sz,65536)-1)<<16); for(u32 i=0;i<(std::min<u32>(sz,65536)+7)/8;i++) buf.push_back(R.p(50)?0xff:R.next()); } else { p32(12346); p32(sz);} size_t body=R.below(200); if(R.p(40)) for(u32 i=0;i<std::min<u32>(sz,40);i++){ buf.push_back(i*3); buf.push_back(0); buf.push_back(R.p(50)?0xff:R.below(256)); buf.push_back(R.p(50)?0xff:R.below(20)); } for(size_t i=0;i<body;i++) buf.push_back(R.next()); }
  std::string hx; char t[4]; for(size_t i=0;i<buf.size()&&i<200;i++){ snprintf(t,4,"%02x",buf[i]); hx+=t; } note("%s bytes %zu: %s",native?"native":"portable",buf.size(),hx.c_str());
  size_t n=buf.size(); char*b=(char*)malloc(n?n:1); if(n) memcpy(b,buf.data(),n); char*e=n?b:b+1; // exactly n addressable bytes
  size_t z=roaring_bitmap_portable_deserialize_size(e,n); if(z>n) fail("portable_deserialize_size returns %zu > maxbytes %zu",z,n);
  RB*r=roaring_bitmap_portable_deserialize_safe(e,n); if(r&&z==0) fail("portable_deserialize_safe accepts what portable_deserialize_size rejects"); 
  if(r){ const char*why=0; if(roaring_bitmap_internal_validate(r,&why)) exercise(r); roaring_bitmap_free(r); }
  if(n){ r=roaring_bitmap_deserialize_safe(e,n); if(r){ const char*why=0; if(roaring_bitmap_internal_validate(r,&why)) exercise(r); roaring_bitmap_free(r);} }
  roaring64_bitmap_t*r6=roaring64_bitmap_portable_deserialize_safe(e,n); size_t z6=roaring64_bitmap_portable_deserialize_size(e,n); if(z6>n) fail("roaring64 portable_deserialize_size returns %zu > maxbytes",z6); if(r6){ const char*why=0; if(roaring64_bitmap_internal_validate(r6,&why)){ u64 c=roaring64_bitmap_get_cardinality(r6); if(c<5000000){ u64*q=(u64*)malloc(c*8); roaring64_bitmap_to_uint64_array(r6,q); for(u64 i=1;i<c;i++) if(q[i]<=q[i-1]) fail("validated roaring64 bitmap iterates out of order"); free(q);} } roaring64_bitmap_free(r6); }
  free(b);
}
MODE(iter){ // C11
  Set a=R.p(15)?genManyKeys():gen32(3); BM A=mk(a); u64 n=card(a); if(n>500000){ drop(A,"x"); return; } std::vector<u64> v=elems(a);
  { u32*q=(u32*)malloc(n*4); roaring_bitmap_to_uint32_array(A.r,q); for(u64 i=0;i<n;i++) if(q[i]!=v[i]) fail("to_uint32_array[%llu]=%u expected %llu",(unsigned long long)i,q[i],(unsigned long long)v[i]); free(q); }
  for(int k=0;k<4;k++){ u64 off=R.p(20)?n+R.below(4):R.p(30)&&!a.empty()?rankLE(a,a[R.below(a.size())].first)-R.below(2):R.below(n+1),lim=R.p(20)?R.range(0,3):R.p(30)?n:R.below(n+2); u64 m=off<n?std::min(lim,n-off):0; note("range_uint32_array off %llu lim %llu",(unsigned long long)off,(unsigned long long)lim); u32*q=(u32*)malloc(lim*4+4); for(u64 i=0;i<lim+1;i++) q[i]=0xABABABAB; roaring_bitmap_range_uint32_array(A.r,off,lim,q); for(u64 i=0;i<m;i++) if(q[i]!=v[off+i]) fail("range_uint32_array[%llu]=%u expected %llu",(unsigned long long)i,q[i],(unsigned long long)v[off+i]); for(u64 i=lim;i<lim+1;i++) if(q[i]!=0xABABABAB) fail("range_uint32_array writes beyond the limit"); free(q); }
  { struct C{ const std::vector<u64>*v; u64 i; u64 stop; bool bad; } c={&v,0,R.p(50)?UINT64_MAX:R.below(n+1),false}; bool r=roaring_iterate(A.r,[](u32 x,void*p){ C*c=(C*)p; if(c->i>=c->v->size()||(*c->v)[c->i]!=x) c->bad=true; c->i++; return c->i<c->stop; },&c); if(c.bad) fail("roaring_iterate visits a wrong value at %llu",(unsigned long long)c.i); u64 exp=n==0?0:std::min(n,c.stop==0?1:c.stop); EQ(c.i,exp,"roaring_iterate count"); EQ(r,!(n>0&&std::max<u64>(1,c.stop)<=n),"roaring_iterate return");
    C c2={&v,0,UINT64_MAX,false}; static u64 hb; hb=(u64)R.below(1000)<<32; roaring_iterate64(A.r,[](u64 x,void*p){ C*c=(C*)p; if(c->i>=c->v->size()||((*c->v)[c->i]|hb)!=x) c->bad=true; c->i++; return true; },hb,&c2); if(c2.bad||c2.i!=n) fail("roaring_iterate64"); }
  // iterator state machine: pos in [-1..n]; -1 = before first (after previous past begin), n = past end
  roaring_uint32_iterator_t it; int64_t pos; if(R.p(50)){ roaring_iterator_init(A.r,&it); pos=0; } else { roaring_iterator_init_last(A.r,&it); pos=(int64_t)n-1; } roaring_uint32_iterator_t*hp=nullptr;
  auto st=[&](const char*w){ bool hv=pos>=0&&pos<(int64_t)n; if(it.has_value!=hv) fail("iterator %s: has_value %d expected %d (pos %lld of %llu)",w,it.has_value,hv,(long long)pos,(unsigned long long)n); if(hv&&it.current_value!=v[pos]) fail("iterator %s: value %u expected %llu (pos %lld)",w,it.current_value,(unsigned long long)v[pos],(long long)pos); };
  if(n) st("init"); else { if(it.has_value) fail("iterator of an empty bitmap has a value"); }
  int steps=R.range(1,80); int bias=R.below(3);
  if(n) for(int k=0;k<steps;k++){ int op=R.below(8); if(bias==1&&op==1) op=0; if(bias==2&&op==0) op=1; 
    if(op==0){ if(pos>=(int64_t)n) continue; bool r=roaring_uint32_iterator_advance(&it); pos++; note("adv"); EQ(r,pos<(int64_t)n,"advance return"); st("advance"); }
    else if(op==1){ if(pos<0) continue; bool r=roaring_uint32_iterator_previous(&it); pos--; note("prev"); EQ(r,pos>=0,"previous return"); st("previous"); }
    else if(op<=4){ u32 x=v32(a); note("moveeq %u",x); bool r=roaring_uint32_iterator_move_equalorlarger(&it,x); pos=std::lower_bound(v.begin(),v.end(),(u64)x)-v.begin(); EQ(r,pos<(int64_t)n,"move_equalorlarger return"); st("move_equalorlarger"); }
    else if(op<=6){ if(pos<0) continue; u32 cnt=R.p(50)?R.below(6):R.p(50)?R.below(300):R.below(70000); note("read %u",cnt); u32*q=(u32*)malloc(cnt*4+4); q[cnt]=0xABABABAB; u32 g=roaring_uint32_iterator_read(&it,q,cnt); u64 w=pos<(int64_t)n?std::min<u64>(cnt,n-pos):0; EQ(g,w,"read count"); for(u64 i=0;i<w;i++) if(q[i]!=v[pos+i]) fail("read[%llu]=%u expected %llu",(unsigned long long)i,q[i],(unsigned long long)v[pos+i]); if(q[cnt]!=0xABABABAB) fail("iterator read writes beyond count"); free(q); pos+=w; st("read"); }
    else { hp=roaring_uint32_iterator_copy(&it); if(hp->has_value!=it.has_value||(it.has_value&&hp->current_value!=it.current_value)) fail("iterator copy"); if(hp->has_value) roaring_uint32_iterator_advance(hp); roaring_uint32_iterator_free(hp); st("after copy"); } }
  // full walks
  u64 i=0; roaring_iterator_init(A.r,&it); while(it.has_value){ if(i>=n||it.current_value!=v[i]) fail("forward walk at %llu",(unsigned long long)i); i++; roaring_uint32_iterator_advance(&it);} EQ(i,n,"forward walk length"); roaring_iterator_init_last(A.r,&it); while(it.has_value){ if(i==0||it.current_value!=v[i-1]) fail("backward walk at %llu",(unsigned long long)i); i--; roaring_uint32_iterator_previous(&it);} EQ(i,0,"backward walk length");
  drop(A,"iteration");
}
MODE(cow){ // C12: a family of bitmaps derived from each other by copies; mutating any never shows in another
  std::vector<RB*> v; std::vector<Set> s; bool cow=R.p(80); Set a=gen32(3); v.push_back(build(a,R.below(3),cow)); s.push_back(a); note("cow %d base %s %s",cow,describe(v[0]).c_str(),show(a,40).c_str());
  int steps=R.range(3,30);
  for(int k=0;k<steps;k++){ int i=R.below(v.size()); int op=R.below(20); u64 lo=pick(s[i],UINT32_MAX),hi=pick(s[i],UINT32_MAX); if(lo>hi) std::swap(lo,hi); if(hi-lo>(4u<<16)) hi=lo+R.below(4u<<16); u32 x=(u32)lo; note("op%d b%d [%llu,%llu]",op,i,(unsigned long long)lo,(unsigned long long)hi);
    if(op<4&&v.size()<6){ v.push_back(roaring_bitmap_copy(v[i])); s.push_back(s[i]); }
    else if(op==4&&v.size()>1){ roaring_bitmap_free(v[i]); v.erase(v.begin()+i); s.erase(s.begin()+i); }
    else if(op==5&&v.size()>1){ int j=(i+1+R.below(v.size()-1))%v.size(); roaring_bitmap_overwrite(v[j],v[i]); s[j]=s[i]; }
    else if(op<=8&&v.size()>1){ int j=(i+1+R.below(v.size()-1))%v.size(); switch(R.below(4)){ case 0: roaring_bitmap_or_inplace(v[i],v[j]); s[i]=sOr(s[i],s[j]); break; case 1: roaring_bitmap_and_inplace(v[i],v[j]); s[i]=sAnd(s[i],s[j]); break; case 2: roaring_bitmap_xor_inplace(v[i],v[j]); s[i]=sXor(s[i],s[j]); break; default: roaring_bitmap_andnot_inplace(v[i],v[j]); s[i]=sSub(s[i],s[j]); } }
    else if(op==9&&v.size()>1&&v.size()<6){ int j=(i+1+R.below(v.size()-1))%v.size(); switch(R.below(4)){ case 0: v.push_back(roaring_bitmap_or(v[i],v[j])); s.push_back(sOr(s[i],s[j])); break; case 1: v.push_back(roaring_bitmap_andnot(v[i],v[j])); s.push_back(sSub(s[i],s[j])); break; case 2: v.push_back(roaring_bitmap_lazy_or(v[i],v[j],R.p(50))); roaring_bitmap_repair_after_lazy(v.back()); s.push_back(sOr(s[i],s[j])); break; default: v.push_back(roaring_bitmap_xor(v[i],v[j])); s.push_back(sXor(s[i],s[j])); } }
    else switch(op){ case 10: roaring_bitmap_add(v[i],x); s[i]=sOr(s[i],rng_(x,x)); break; case 11: roaring_bitmap_remove(v[i],x); s[i]=sSub(s[i],rng_(x,x)); break; case 12: roaring_bitmap_add_range_closed(v[i],x,(u32)hi); s[i]=sOr(s[i],rng_(x,hi)); break; case 13: roaring_bitmap_remove_range_closed(v[i],x,(u32)hi); s[i]=sSub(s[i],rng_(x,hi)); break; case 14: roaring_bitmap_flip_inplace_closed(v[i],x,(u32)hi); s[i]=sXor(s[i],rng_(x,hi)); break; case 15: roaring_bitmap_run_optimize(v[i]); break; case 16: roaring_bitmap_remove_run_compression(v[i]); break; case 17: roaring_bitmap_shrink_to_fit(v[i]); break; case 18: { roaring_bulk_context_t c; memset(&c,0,sizeof c); for(int q=0;q<4;q++){ roaring_bitmap_add_bulk(v[i],&c,x+q*3); s[i]=sOr(s[i],rng_((u32)(x+q*3),(u32)(x+q*3))); } break; } default: if(v.size()<6){ RB*r=roaring_bitmap_flip_closed(v[i],x,(u32)hi); v.push_back(r); s.push_back(sXor(s[i],rng_(x,hi))); } else { if(R.p(50)){ roaring_bitmap_clear(v[i]); s[i]=Set(); } } }
    for(size_t q=0;q<v.size();q++){ Dec d=decode(v[q]); if(!d.bad.empty()) fail("bitmap %zu malformed after step %d: %s",q,k,d.bad.c_str()); if(d.s!=s[q]) fail("bitmap %zu changed by an operation on bitmap %d: first difference at %llu",q,i,(unsigned long long)sXor(d.s,s[q])[0].first); }
  }
  // free in random order; remaining ones stay intact
  while(!v.empty()){ int i=R.below(v.size()); roaring_bitmap_free(v[i]); v.erase(v.begin()+i); s.erase(s.begin()+i); for(size_t q=0;q<v.size();q++){ Dec d=decode(v[q]); if(d.s!=s[q]) fail("bitmap changed by freeing another"); } }
}
MODE(transform){ // C13
  Set a=gen32(4); BM A=mk(a);
  int op=R.below(9); note("op %d",op);
  switch(op){
    case 0: { bool r=roaring_bitmap_run_optimize(A.r); expectSet(A.r,a,"run_optimize"); bool any=false; const roaring_array_t&ra=A.r->high_low_container; for(int i=0;i<ra.size;i++){ uint8_t t=ra.typecodes[i]; container_unwrap_shared(ra.containers[i],&t); any|=t==RUN_CONTAINER_TYPE; } EQ(r,any,"run_optimize return"); break; }
    case 1: { roaring_bitmap_remove_run_compression(A.r); expectSet(A.r,a,"remove_run_compression"); const roaring_array_t&ra=A.r->high_low_container; for(int i=0;i<ra.size;i++){ uint8_t t=ra.typecodes[i]; container_unwrap_shared(ra.containers[i],&t); if(t==RUN_CONTAINER_TYPE) fail("remove_run_compression leaves a run container"); } break; }
    case 2: roaring_bitmap_shrink_to_fit(A.r); expectSet(A.r,a,"shrink_to_fit"); break;
    case 3: { RB*c=roaring_bitmap_copy(A.r); expectSet(c,a,"copy"); roaring_bitmap_free(c); break; }
    case 4: { Set b=gen32(3); BM B=mk2(b,A); chk(roaring_bitmap_overwrite(B.r,A.r),"overwrite"); expectSet(B.r,a,"overwrite"); drop(B,"overwrite"); break; }
    case 5: case 6: { for(int k=0;k<4;k++){ int64_t off; int w=R.below(5); if(w==0) off=((int64_t)R.below(9)-4)*65536; else if(w==1) off=(int64_t)R.below(200001)-100000; else if(w==2) off=(int64_t)pick(a,UINT32_MAX)-(int64_t)pick(a,UINT32_MAX); else if(w==3) off=R.p(50)?(int64_t)R.below(UINT64_C(0x200000000)):-(int64_t)R.below(UINT64_C(0x200000000)); else off=R.p(50)?(int64_t)UINT32_MAX-(int64_t)(a.empty()?0:a.back().second)+R.below(3)-1:-(int64_t)(a.empty()?0:a[0].first)+R.below(3)-1; note("offset %lld",(long long)off); Set t; for(auto&q:a){ int64_t x=(int64_t)q.first+off,y=(int64_t)q.second+off; if(y<0||x>(int64_t)UINT32_MAX) continue; if(x<0)x=0; if(y>(int64_t)UINT32_MAX) y=UINT32_MAX; app(t,x,y);} RB*r=roaring_bitmap_add_offset(A.r,off); expectSet(r,t,"add_offset"); roaring_bitmap_free(r); } break; }
    case 7: { if(a.empty()||a.back().second<(40u<<20)){ bitset_t*bs=bitset_create(); chk(roaring_bitmap_to_bitset(A.r,bs),"to_bitset"); u64 n=bitset_count(bs); EQ(n,card(a),"to_bitset count"); for(int k=0;k<40;k++){ u32 x=v32(a); EQ(bitset_get(bs,x),has(a,x),"to_bitset content"); } for(auto&i:a){ EQ(bitset_get(bs,i.first),1,"to_bitset"); EQ(bitset_get(bs,i.second),1,"to_bitset"); } bitset_free(bs);} break; }
    default: { roaring_bitmap_run_optimize(A.r); roaring_bitmap_shrink_to_fit(A.r); roaring_bitmap_remove_run_compression(A.r); roaring_bitmap_run_optimize(A.r); u32 x=v32(a); roaring_bitmap_add(A.r,x); expectSet(A.r,sOr(a,rng_(x,x)),"add after transforms"); roaring_bitmap_remove(A.r,x); expectSet(A.r,sSub(a,rng_(x,x)),"remove after transforms"); }
  }
  if(op!=8) expectSet(A.r,a,"after transform"); drop(A,"transform");
}
