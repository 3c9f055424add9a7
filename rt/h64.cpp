#include "gen.hpp"
#include <map>
typedef void(*Mode)(); std::map<std::string,Mode>& modes();
struct Reg64{ Reg64(const char*n,Mode m){ modes()[n]=m; } };
#define MODE(n) static void m_##n(); static Reg64 r_##n(#n,m_##n); static void m_##n()
#define EQ(a,b,what) do{ u64 _a=(u64)(a),_b=(u64)(b); if(_a!=_b) fail("%s: got %llu expected %llu",what,(unsigned long long)_a,(unsigned long long)_b); }while(0)
typedef roaring64_bitmap_t B64;
Dec readPortable(const unsigned char*p,size_t n,size_t*used);
static Set gen64();
static u64 key48(){ static const u64 K[]={0,1,2,0xff,0x100,0x101,0xffff,0x10000,0x10001,0xffffff,0x1000000,0x7fffffffffffULL,0x800000000000ULL,0xfffffffffffeULL,0xffffffffffffULL,0xffffffff0000ULL,0xff0000000000ULL}; return R.p(70)?K[R.below(17)]:R.below(1ULL<<48); }
static Set small16(){ std::vector<u64> v; int n=R.range(1,3); while(n--) v.push_back(R.p(50)?(R.p(50)?0:65535):R.below(65536)); return norm(v); }
static Set fromKeys(std::vector<u64> ks,int big){ std::sort(ks.begin(),ks.end()); ks.erase(std::unique(ks.begin(),ks.end()),ks.end()); Set s; for(u64 k:ks){ Set c=(big>0&&R.p(30))?(big--,gen16()):small16(); for(auto&i:c) app(s,(k<<16)+i.first,(k<<16)+i.second); } return s; }
static Set gen64(){
  if(R.p(4)) return Set();
  std::vector<u64> ks; int kind=R.below(5);
  if(kind==0){ int n=R.range(1,4); while(n--) ks.push_back(key48()); }
  else if(kind==1){ static const int N[]={1,2,3,4,5,6,15,16,17,18,47,48,49,50,51,120,255,256}; int n=N[R.below(18)]; int b=R.below(6)*8; u64 base=key48()&~(0xffULL<<b); std::vector<int> p(256); for(int i=0;i<256;i++)p[i]=i; for(int i=0;i<n;i++){ int j=i+R.below(256-i); std::swap(p[i],p[j]); ks.push_back(base|(u64)p[i]<<b); } }
  else if(kind==2){ u64 base=key48(); int n=R.range(2,30); while(n--) ks.push_back(base^(R.below(4)<<(8*R.below(6)))); }
  else if(kind==3){ u64 k=key48(); int n=R.range(1,8); while(n--&&k<(1ULL<<48)) ks.push_back(k++); }
  else { int n=R.range(1,40); u64 hi=R.below(1ULL<<16)<<32; while(n--) ks.push_back(hi|R.below(R.p(50)?300:70000)<<(8*R.below(3))); }
  for(auto&k:ks) k&=(1ULL<<48)-1;
  return fromKeys(ks,2);
}
static Set mutate64(const Set&a){
  if(a.empty()||R.p(15)) return gen64(); Set o; 
  switch(R.below(7)){ case 0: return a; case 1: { o=a; int n=R.range(1,4); while(n--){ u64 x=pick(a,UINT64_MAX); o=sXor(o,rng_(x,x)); } return o; } case 2: for(auto&i:a) if(R.p(60)) o.push_back(i); return o; case 3: return sOr(a,gen64());
    case 4: { u64 x=pick(a,UINT64_MAX),l=R.below(300000); return sXor(a,rng_(x,x>UINT64_MAX-l?UINT64_MAX:x+l)); }
    case 5: { chunks(a,[&](u64 k,const Set&c){ if(R.p(85)){ Set m=R.p(60)?c:mutate16(c); for(auto&i:m) app(o,(k<<16)+i.first,(k<<16)+i.second); } }); return o; }
    default: { chunks(a,[&](u64 k,const Set&c){ u64 k2=R.p(20)?k^(1ULL<<R.below(48)):k; (void)k2; if(R.p(80)) for(auto&i:c) app(o,(k<<16)+i.first,(k<<16)+i.second); }); return sOr(o,gen64()); } }
}
static Set dec64(const B64*r){ u64 n=roaring64_bitmap_get_cardinality(r); if(n>30000000) fail("cardinality %llu is implausible",(unsigned long long)n); u64*q=(u64*)malloc(n*8+8); q[n]=0xABABABABABABABABULL; roaring64_bitmap_to_uint64_array(r,q); if(q[n]!=0xABABABABABABABABULL) fail("to_uint64_array writes past the cardinality"); Set s; for(u64 i=0;i<n;i++){ if(i&&q[i]<=q[i-1]) fail("to_uint64_array not strictly increasing at %llu",(unsigned long long)i); app(s,q[i],q[i]); } free(q); return s; }
static void exp64(const B64*r,const Set&w,const char*what){ const char*why=0; if(!roaring64_bitmap_internal_validate(r,&why)) fail("%s: internal_validate: %s",what,why?why:"?"); Set d=dec64(r); if(d!=w){ Set x=sXor(d,w); fail("%s: wrong content; first difference at %llu (%s); expected %s got %s",what,(unsigned long long)x[0].first,has(w,x[0].first)?"missing":"spurious",show(w).c_str(),show(d).c_str()); } }
static B64* build64(const Set&s){
  B64*r=roaring64_bitmap_create(); int how=R.below(4);
  if(how==0){ std::vector<u64> v=elems(s); if(R.p(50)) for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[R.below(i)]); roaring64_bitmap_add_many(r,v.size(),v.data()); }
  else if(how==1){ std::vector<Iv> p(s.begin(),s.end()); for(size_t i=p.size();i>1;i--) std::swap(p[i-1],p[R.below(i)]); for(auto&i:p) if(i.first==i.second) roaring64_bitmap_add(r,i.first); else roaring64_bitmap_add_range_closed(r,i.first,i.second); }
  else if(how==2){ roaring64_bulk_context_t c; memset(&c,0,sizeof c); for(auto&i:s) for(u64 x=i.first;;x++){ roaring64_bitmap_add_bulk(r,&c,x); if(x==i.second)break; } }
  else { for(auto&i:s) roaring64_bitmap_add_range_closed(r,i.first,i.second); Set junk=gen64(); for(auto&i:junk) if(!has(s,i.first)){ roaring64_bitmap_add(r,i.first); } for(auto&i:junk) if(!has(s,i.first)) roaring64_bitmap_remove(r,i.first); }
  if(R.p(40)) roaring64_bitmap_run_optimize(r); if(R.p(20)) roaring64_bitmap_shrink_to_fit(r);
  return r;
}
static u64 v64(const Set&s){ u64 x=pick(s,UINT64_MAX); if(R.p(10)) x^=1ULL<<R.below(64); if(R.p(3)) x=UINT64_MAX; return x; }
MODE(set64){ // C14 binary algebra and queries
  Set a=gen64(),b=mutate64(a); if(R.p(50)) std::swap(a,b); note("A=%s B=%s",show(a,40).c_str(),show(b,40).c_str());
  B64*A=build64(a),*B=build64(b); exp64(A,a,"build"); exp64(B,b,"build"); B64*r;
  r=roaring64_bitmap_and(A,B); exp64(r,sAnd(a,b),"and64"); roaring64_bitmap_free(r); r=roaring64_bitmap_or(A,B); exp64(r,sOr(a,b),"or64"); roaring64_bitmap_free(r); r=roaring64_bitmap_xor(A,B); exp64(r,sXor(a,b),"xor64"); roaring64_bitmap_free(r); r=roaring64_bitmap_andnot(A,B); exp64(r,sSub(a,b),"andnot64"); roaring64_bitmap_free(r);
  u64 ca=card(a),cb=card(b),ci=card(sAnd(a,b)); EQ(roaring64_bitmap_get_cardinality(A),ca,"cardinality"); EQ(roaring64_bitmap_and_cardinality(A,B),ci,"and_cardinality"); EQ(roaring64_bitmap_or_cardinality(A,B),ca+cb-ci,"or_cardinality"); EQ(roaring64_bitmap_xor_cardinality(A,B),ca+cb-2*ci,"xor_cardinality"); EQ(roaring64_bitmap_andnot_cardinality(A,B),ca-ci,"andnot_cardinality"); EQ(roaring64_bitmap_intersect(A,B),ci!=0,"intersect"); EQ(roaring64_bitmap_equals(A,B),a==b,"equals"); EQ(roaring64_bitmap_is_subset(A,B),ci==ca,"is_subset"); EQ(roaring64_bitmap_is_strict_subset(A,B),ci==ca&&ca<cb,"is_strict_subset"); EQ(roaring64_bitmap_is_empty(A),a.empty(),"is_empty");
  if(ca+cb-ci){ double j=roaring64_bitmap_jaccard_index(A,B),w=(double)ci/(double)(ca+cb-ci); if(!(j>=w-1e-9&&j<=w+1e-9)) fail("jaccard"); }
  r=build64(a); EQ(roaring64_bitmap_equals(A,r),1,"equals of equal sets"); EQ(roaring64_bitmap_is_subset(A,r),1,"subset of equal sets"); exp64(A,a,"operand"); exp64(B,b,"operand");
  static const char*N[]={"and_inplace64","or_inplace64","xor_inplace64","andnot_inplace64"}; for(int op=0;op<4;op++){ B64*c=roaring64_bitmap_copy(A); exp64(c,a,"copy"); Set w; switch(op){ case 0: roaring64_bitmap_and_inplace(c,B); w=sAnd(a,b); break; case 1: roaring64_bitmap_or_inplace(c,B); w=sOr(a,b); break; case 2: roaring64_bitmap_xor_inplace(c,B); w=sXor(a,b); break; default: roaring64_bitmap_andnot_inplace(c,B); w=sSub(a,b);} exp64(c,w,N[op]); u64 x=v64(w); roaring64_bitmap_add(c,x); exp64(c,sOr(w,rng_(x,x)),"add after in-place"); exp64(A,a,"original of the copy"); exp64(B,b,"second operand"); roaring64_bitmap_free(c); }
  roaring64_bitmap_free(r); roaring64_bitmap_free(A); roaring64_bitmap_free(B);
}
MODE(update64){ // C14 point/range updates, order statistics
  Set s=gen64(); note("%s",show(s,40).c_str()); B64*A=build64(s); exp64(A,s,"build"); int n=R.range(1,40); roaring64_bulk_context_t ctx; int bulk=0;
  for(int k=0;k<n;k++){ u64 x=v64(s); bool in=has(s,x); int op=R.below(15); if(op!=5&&op!=6) bulk=0; note("op%d(%llu)",op,(unsigned long long)x);
    u64 len=R.p(50)?R.below(100):R.p(80)?R.below(200000):R.below(3000000); u64 y=x>UINT64_MAX-len?UINT64_MAX:x+len; Set rg=rng_(x,y);
    switch(op){ case 0: roaring64_bitmap_add(A,x); s=sOr(s,rng_(x,x)); break; case 1: EQ(roaring64_bitmap_add_checked(A,x),!in,"add_checked"); s=sOr(s,rng_(x,x)); break; case 2: roaring64_bitmap_remove(A,x); s=sSub(s,rng_(x,x)); break; case 3: EQ(roaring64_bitmap_remove_checked(A,x),in,"remove_checked"); s=sSub(s,rng_(x,x)); break;
      case 4: { roaring64_bulk_context_t c; memset(&c,0,sizeof c); for(int q=0;q<5;q++){ u64 z=R.p(60)?(x&~0xffffULL)|R.below(65536):v64(s); EQ(roaring64_bitmap_contains_bulk(A,&c,z),has(s,z),"contains_bulk"); } break; }
      case 5: case 6: { if(bulk!=op){ memset(&ctx,0,sizeof ctx); bulk=op; } u64 z=x; for(int q=R.range(1,4);q>0;q--){ if(op==5){ roaring64_bitmap_add_bulk(A,&ctx,z); s=sOr(s,rng_(z,z)); } else { roaring64_bitmap_remove_bulk(A,&ctx,z); s=sSub(s,rng_(z,z)); } z=R.p(60)?(z&~0xffffULL)|R.below(65536):v64(s); note("bulk next %llu",(unsigned long long)z); } break; }
      case 7: { std::vector<u64> v; for(int q=R.below(20);q>0;q--) v.push_back(R.p(50)?v64(s):x+R.below(200000)); if(R.p(50)){ roaring64_bitmap_add_many(A,v.size(),v.data()); s=sOr(s,norm(v)); } else { roaring64_bitmap_remove_many(A,v.size(),v.data()); s=sSub(s,norm(v)); } break; }
      case 8: note("to %llu",(unsigned long long)y); roaring64_bitmap_add_range_closed(A,x,y); s=sOr(s,rg); break; case 9: roaring64_bitmap_remove_range_closed(A,x,y); s=sSub(s,rg); note("to %llu",(unsigned long long)y); break;
      case 10: { note("to %llu",(unsigned long long)y); B64*r=roaring64_bitmap_flip_closed(A,x,y); exp64(r,sXor(s,rg),"flip_closed"); roaring64_bitmap_free(r); exp64(A,s,"operand of flip"); break; } case 11: note("to %llu",(unsigned long long)y); roaring64_bitmap_flip_closed_inplace(A,x,y); s=sXor(s,rg); break;
      case 12: if(y<UINT64_MAX){ note("open to %llu",(unsigned long long)y+1); switch(R.below(4)){ case 0: roaring64_bitmap_add_range(A,x,y+1); s=sOr(s,rg); break; case 1: roaring64_bitmap_remove_range(A,x,y+1); s=sSub(s,rg); break; case 2: roaring64_bitmap_flip_inplace(A,x,y+1); s=sXor(s,rg); break; default: { B64*r=roaring64_bitmap_flip(A,x,y+1); exp64(r,sXor(s,rg),"flip"); roaring64_bitmap_free(r);} } } break;
      case 13: { u64 lo=v64(s),hi=v64(s); if(lo>hi) std::swap(lo,hi); if(R.p(50)) lo=x,hi=y; EQ(roaring64_bitmap_range_closed_cardinality(A,lo,hi),card(sAnd(s,rng_(lo,hi))),"range_closed_cardinality"); if(hi>lo){ Set q=rng_(lo,hi-1); EQ(roaring64_bitmap_range_cardinality(A,lo,hi),card(sAnd(s,q)),"range_cardinality"); EQ(roaring64_bitmap_contains_range(A,lo,hi),subset(q,s),"contains_range"); EQ(roaring64_bitmap_intersect_with_range(A,lo,hi),!sAnd(s,q).empty(),"intersect_with_range"); } if(!s.empty()){ Iv v=s[R.below(s.size())]; if(v.second<UINT64_MAX) EQ(roaring64_bitmap_contains_range(A,v.first,v.second+1),1,"contains_range of own interval"); } break; }
      default: { for(int q=0;q<8;q++){ u64 z=v64(s); EQ(roaring64_bitmap_contains(A,z),has(s,z),"contains"); EQ(roaring64_bitmap_rank(A,z),rankLE(s,z),"rank"); u64 ix=0; bool g=roaring64_bitmap_get_index(A,z,&ix); EQ(g,has(s,z),"get_index return"); if(g) EQ(ix,rankLE(s,z)-1,"get_index"); u64 c=card(s),kk=R.p(20)?c+R.below(2):R.below(c+1),e=0,w=0; bool ok=roaring64_bitmap_select(A,kk,&e); EQ(ok,kk<c,"select return"); if(ok){ selectK(s,kk,&w); EQ(e,w,"select"); } } EQ(roaring64_bitmap_minimum(A),s.empty()?UINT64_MAX:s[0].first,"minimum"); EQ(roaring64_bitmap_maximum(A),s.empty()?0:s.back().second,"maximum"); } }
    EQ(roaring64_bitmap_contains(A,x),has(s,x),"contains after update"); if(R.p(30)||k==n-1) exp64(A,s,"after updates"); if(card(s)>3000000) break; }
  exp64(A,s,"after updates"); roaring64_bitmap_clear(A); exp64(A,Set(),"clear"); roaring64_bitmap_add(A,5); exp64(A,rng_(5,5),"add after clear"); roaring64_bitmap_free(A);
  { u64 mn=v64(s),step=R.p(30)?1:R.p(50)?R.range(1,70000):(R.p(50)?65535+R.below(3):R.next()); u64 cnt=R.below(3000); u64 span=step>UINT64_MAX/(cnt+1)?UINT64_MAX:step*cnt; u64 mx=mn>UINT64_MAX-span?UINT64_MAX:mn+span; note("from_range(%llu,%llu,%llu)",(unsigned long long)mn,(unsigned long long)mx,(unsigned long long)step); B64*r=roaring64_bitmap_from_range(mn,mx,step); Set w; if(step&&mn<mx) for(u64 x=mn;x<mx;x+=step){ app(w,x,x); if(x>UINT64_MAX-step) break; } if(r){ exp64(r,w,"from_range"); roaring64_bitmap_free(r);} else if(!w.empty()) fail("from_range NULL"); }
  { Set t=gen32(3); RB*q=build(t,R.below(3),0); B64*r=roaring64_bitmap_move_from_roaring32(q); exp64(r,t,"move_from_roaring32"); u64 x=v64(t); roaring64_bitmap_add(r,x); exp64(r,sOr(t,rng_(x,x)),"add after move"); roaring64_bitmap_free(r); expectSet(q,Set(),"moved-from bitmap"); roaring_bitmap_free(q); }
}
MODE(serial64){ // C15
  Set a=gen64(); note("%s",show(a,40).c_str()); B64*A=build64(a); size_t z=roaring64_bitmap_portable_size_in_bytes(A); unsigned char*b=(unsigned char*)malloc(z); EQ(roaring64_bitmap_portable_serialize(A,(char*)b),z,"portable_serialize return");
  { Set got; size_t o=8; u64 nb; if(z<8) fail("too short"); memcpy(&nb,b,8); int64_t last=-1; for(u64 i=0;i<nb;i++){ if(o+4>z) fail("format64: truncated"); u32 k; memcpy(&k,b+o,4); o+=4; if((int64_t)k<=last) fail("format64: high keys not increasing"); last=k; size_t used=0; Dec d=readPortable(b+o,z-o,&used); if(!d.bad.empty()) fail("format64 bucket: %s",d.bad.c_str()); if(d.s.empty()) fail("format64: empty bucket"); for(auto&v:d.s) app(got,((u64)k<<32)+v.first,((u64)k<<32)+v.second); o+=used; } if(o!=z) fail("format64: size %zu but %zu bytes used",z,o); if(got!=a) fail("portable64 bytes decode to a different set"); }
  EQ(roaring64_bitmap_portable_deserialize_size((char*)b,z),z,"portable_deserialize_size"); B64*r=roaring64_bitmap_portable_deserialize_safe((char*)b,z); if(!r) fail("portable_deserialize_safe rejects valid bytes"); exp64(r,a,"portable round trip"); EQ(roaring64_bitmap_equals(r,A),1,"equals after round trip"); u64 x=v64(a); roaring64_bitmap_add(r,x); exp64(r,sOr(a,rng_(x,x)),"add after deserialize"); roaring64_bitmap_free(r);
  for(int k=0;k<3&&z;k++){ size_t t=k==0?z-1:R.below(z); char*c=(char*)malloc(t?t:1); memcpy(c,b,t); if(roaring64_bitmap_portable_deserialize_size(c,t)) fail("portable_deserialize_size accepts truncated bytes"); if(roaring64_bitmap_portable_deserialize_safe(c,t)) fail("portable_deserialize_safe accepts truncated bytes"); free(c); }
  // mutated bytes: memory safety and validate-implies-usable
  { size_t n=z; unsigned char*c=(unsigned char*)malloc(n?n:1); memcpy(c,b,n); for(int k=R.range(1,4);k>0&&n;k--) c[R.below(std::min<size_t>(n,R.p(70)?40:n))]=R.p(50)?(R.p(50)?0:0xff):R.next(); size_t n2=R.p(30)?R.below(n+1):n; unsigned char*e=(unsigned char*)malloc(n2?n2:1); memcpy(e,c,n2); size_t q=roaring64_bitmap_portable_deserialize_size((char*)e,n2); if(q>n2) fail("portable_deserialize_size returns more than maxbytes"); r=roaring64_bitmap_portable_deserialize_safe((char*)e,n2); if(r){ const char*why=0; if(roaring64_bitmap_internal_validate(r,&why)){ Set d=dec64(r); exp64(r,d,"validated"); u64 y=v64(d); EQ(roaring64_bitmap_contains(r,y),has(d,y),"contains on validated"); roaring64_bitmap_add(r,y); exp64(r,sOr(d,rng_(y,y)),"add on validated"); } roaring64_bitmap_free(r);} free(c); free(e); }
  free(b);
  roaring64_bitmap_shrink_to_fit(A); z=roaring64_bitmap_frozen_size_in_bytes(A); size_t al=(z+63)/64*64+64; char*f=(char*)aligned_alloc(64,al); memset(f,0x5A,al); EQ(roaring64_bitmap_frozen_serialize(A,f),z,"frozen_serialize return"); for(size_t q=z;q<al;q++) if((unsigned char)f[q]!=0x5A) fail("frozen_serialize writes past frozen_size_in_bytes"); B64*v=roaring64_bitmap_frozen_view(f,z); if(!v) fail("frozen_view rejects valid bytes"); exp64(v,a,"frozen view"); EQ(roaring64_bitmap_equals(v,A),1,"frozen equals"); for(int k=0;k<20;k++){ u64 y=v64(a); EQ(roaring64_bitmap_contains(v,y),has(a,y),"contains on frozen view"); EQ(roaring64_bitmap_rank(v,y),rankLE(a,y),"rank on frozen view"); } { B64*o=roaring64_bitmap_copy(v); exp64(o,a,"copy of frozen view"); roaring64_bitmap_free(o); o=roaring64_bitmap_or(v,A); exp64(o,a,"or with frozen view"); roaring64_bitmap_free(o);} roaring64_bitmap_free(v); free(f);
  roaring64_bitmap_free(A);
}
MODE(iter64){ // C15
  Set a=gen64(); note("%s",show(a,40).c_str()); B64*A=build64(a); std::vector<u64> v=elems(a); int64_t n=v.size();
  { struct C{ const std::vector<u64>*v; u64 i,stop; bool bad; } c={&v,0,R.p(50)?UINT64_MAX:R.below(n+1),false}; bool r=roaring64_bitmap_iterate(A,[](u64 x,void*p){ C*c=(C*)p; if(c->i>=c->v->size()||(*c->v)[c->i]!=x) c->bad=true; c->i++; return c->i<c->stop; },&c); if(c.bad) fail("iterate wrong value at %llu",(unsigned long long)c.i); u64 e=n==0?0:std::min<u64>(n,c.stop==0?1:c.stop); EQ(c.i,e,"iterate count"); EQ(r,!(n>0&&std::max<u64>(1,c.stop)<=(u64)n),"iterate return"); }
  roaring64_iterator_t*it; int64_t pos; if(R.p(50)){ it=roaring64_iterator_create(A); pos=0; } else { it=roaring64_iterator_create_last(A); pos=n-1; }
  auto st=[&](const char*w){ bool hv=pos>=0&&pos<n; if(roaring64_iterator_has_value(it)!=hv) fail("iterator64 %s: has_value %d expected %d (pos %lld of %lld)",w,!hv,hv,(long long)pos,(long long)n); if(hv&&roaring64_iterator_value(it)!=v[pos]) fail("iterator64 %s: value %llu expected %llu",w,(unsigned long long)roaring64_iterator_value(it),(unsigned long long)v[pos]); };
  if(n) st("init"); else if(roaring64_iterator_has_value(it)) fail("iterator64 on empty has value");
  int bias=R.below(3); if(n) for(int k=R.range(1,60);k>0;k--){ int op=R.below(8); if(bias==1&&op==1) op=0; if(bias==2&&op==0) op=1; if(op==0){ if(pos>=n) continue; note("adv"); bool r=roaring64_iterator_advance(it); pos++; EQ(r,pos<n,"advance return"); st("advance"); } else if(op==1){ if(pos<0) continue; note("prev"); bool r=roaring64_iterator_previous(it); pos--; EQ(r,pos>=0,"previous return"); st("previous"); } else if(op<=4){ u64 x=v64(a); note("moveeq %llu",(unsigned long long)x); bool r=roaring64_iterator_move_equalorlarger(it,x); pos=std::lower_bound(v.begin(),v.end(),x)-v.begin(); EQ(r,pos<n,"move_equalorlarger return"); st("move_equalorlarger"); } else if(op<=6){ if(pos<0) continue; u64 c=R.p(50)?R.below(6):R.p(50)?R.below(300):R.below(70000); note("read %llu",(unsigned long long)c); u64*q=(u64*)malloc(c*8+8); q[c]=0xABABABABABABABABULL; u64 g=roaring64_iterator_read(it,q,c); u64 w=pos<n?std::min<u64>(c,n-pos):0; EQ(g,w,"read count"); for(u64 i=0;i<w;i++) if(q[i]!=v[pos+i]) fail("read value"); if(q[c]!=0xABABABABABABABABULL) fail("read overruns"); free(q); pos+=w; st("read"); } else { roaring64_iterator_t*c=roaring64_iterator_copy(it); if(roaring64_iterator_has_value(c)!=roaring64_iterator_has_value(it)||(roaring64_iterator_has_value(c)&&roaring64_iterator_value(c)!=roaring64_iterator_value(it))) fail("iterator copy"); roaring64_iterator_free(c); } }
  roaring64_iterator_reinit(A,it); int64_t i=0; while(roaring64_iterator_has_value(it)){ if(i>=n||roaring64_iterator_value(it)!=v[i]) fail("forward walk64"); i++; roaring64_iterator_advance(it);} EQ(i,n,"forward walk64"); roaring64_iterator_reinit_last(A,it); while(roaring64_iterator_has_value(it)){ if(i<=0||roaring64_iterator_value(it)!=v[i-1]) fail("backward walk64"); i--; roaring64_iterator_previous(it);} EQ(i,0,"backward walk64"); roaring64_iterator_free(it); roaring64_bitmap_free(A);
}
