#include "gen.hpp"
#include <map>
#include <memory>
#include "roaring64map.hh"
typedef void(*Mode)(); std::map<std::string,Mode>& modes();
struct Reg{ Reg(const char*n,Mode m){ modes()[n]=m; } };
#define MODE(n) static void m_##n(); static Reg r_##n(#n,m_##n); static void m_##n()
#define EQ(a,b,what) do{ u64 _a=(u64)(a),_b=(u64)(b); if(_a!=_b) fail("%s: got %llu expected %llu",what,(unsigned long long)_a,(unsigned long long)_b); }while(0)
using roaring::Roaring; using roaring::Roaring64Map; using roaring::BulkContext;
static u64 hi(){ static const u64 K[]={0,0,0,1,1,2,3,5,0x7fffffff,0x80000000ULL,0xfffffffeULL,0xffffffffULL}; return R.p(90)?K[R.below(12)]:R.below(0x100000000ULL); }
static bool BIG=false; // allow ranges that span whole 2^32 chunks
static Set genM(){ Set s; if(R.p(5)) return s; int n=R.range(1,4); for(int i=0;i<n;i++){ u64 b=hi()<<32; s=sSub(s,rng_(b,b+UINT32_MAX)); s=sOr(s,shiftS(gen32(2),b)); } 
  if(BIG&&R.p(30)){ u64 b=R.below(6); Set r=rng_((b<<32)+0x100000000ULL-R.range(1,200000), ((b+R.range(1,2))<<32)+R.below(200000)); s=sOr(s,r); } return s; }
static Set mutM(const Set&a){ if(a.empty()||R.p(15)) return genM(); Set o; switch(R.below(7)){ case 0: return a; case 1: { o=a; int n=R.range(1,4); while(n--){ u64 x=pick(a,UINT64_MAX); o=sXor(o,rng_(x,x)); } return o; }
  case 2: for(auto&i:a) if(R.p(60)) o.push_back(i); return o; case 3: return sOr(a,genM()); case 4: return sXor(a,genM()); case 5: { Set g=genM(); o=a; Set h; for(auto&i:g) if(R.p(50)) h.push_back(i); return sXor(o,h); }
  default: { Set h; u64 k=1ULL<<R.range(32,36); for(auto&i:a) if(R.p(70)) o.push_back(i); else if((i.first>>32)==(i.second>>32)) h.push_back({i.first^k,i.second^k}); std::sort(h.begin(),h.end()); return sOr(o,h); } } }
// decode through the portable serialization, inner bitmaps by the independent decoder
static Set dec(const Roaring64Map&m,const char*what){ size_t n=m.getSizeInBytes(); std::unique_ptr<char[]> b(new char[n]); size_t w=m.write(b.get()); if(w!=n) fail("%s: write returned %zu, getSizeInBytes %zu",what,w,n);
  Set s; size_t p=8; u64 k; memcpy(&k,b.get(),8); int64_t last=-1; 
  for(u64 i=0;i<k;i++){ u32 key; if(p+4>n) fail("%s: serialized map truncated",what); memcpy(&key,b.get()+p,4); p+=4; if((int64_t)key<=last) fail("%s: map keys out of order",what); last=key; 
    RB*r=roaring_bitmap_portable_deserialize_safe(b.get()+p,n-p); if(!r) fail("%s: inner bitmap unreadable",what); p+=roaring_bitmap_portable_size_in_bytes(r); Dec d=decode(r); if(!d.bad.empty()) fail("%s: inner bitmap malformed: %s",what,d.bad.c_str());
    for(auto&x:d.s) app(s,((u64)key<<32)+x.first,((u64)key<<32)+x.second); roaring_bitmap_free(r); }
  if(p!=n) fail("%s: serialized map has %zu bytes, %zu used",what,n,p); return s; }
static void expM(const Roaring64Map&m,const Set&w,const char*what){ Set d=dec(m,what); if(d!=w){ Set x=sXor(d,w); fail("%s: wrong content; first difference at %llu (%s); expected %s got %s",what,(unsigned long long)x[0].first,has(w,x[0].first)?"missing":"spurious",show(w).c_str(),show(d).c_str()); }
  EQ(m.cardinality(),card(w),"cardinality"); EQ(m.isEmpty(),w.empty(),"isEmpty"); if(!w.empty()){ EQ(m.minimum(),w[0].first,"minimum"); EQ(m.maximum(),w.back().second,"maximum"); } }
static bool COW=false; // the documentation forbids mixing bitmaps with and without copy-on-write
static Roaring64Map mkM(const Set&s){ Roaring64Map m; if(COW) m.setCopyOnWrite(true); 
  for(auto&i:s){ if(i.first==i.second) m.add((uint64_t)i.first); else if(R.p(50)) m.addRangeClosed((uint64_t)i.first,(uint64_t)i.second); else if(i.second-i.first<300){ std::vector<uint64_t> v; for(u64 x=i.first;;x++){ v.push_back(x); if(x==i.second) break; } m.addMany(v.size(),v.data()); } else { m.addRangeClosed((uint64_t)i.first,(uint64_t)i.second); } }
  if(R.p(30)) m.runOptimize(); if(R.p(15)) m.removeRunCompression(); if(R.p(15)) m.shrinkToFit();
  if(R.p(15)){ /* leave an empty inner bitmap where none is used */ u32 k=(u32)hi(); if(!k&&sAnd(s,rng_(0,UINT32_MAX)).empty()){ m.addRangeClosed((uint32_t)5,(uint32_t)4); } }
  if(R.p(12)){ /* the same map with empty inner bitmaps, as a file written elsewhere may hold them */ size_t n=m.getSizeInBytes(); std::vector<char> b(n),o(8); m.write(b.data()); u64 k; memcpy(&k,b.data(),8); size_t p=8; u64 cnt=0; int64_t last=-1; RB*e=roaring_bitmap_create(); char eb[64]; size_t en=roaring_bitmap_portable_serialize(e,eb); roaring_bitmap_free(e);
    auto empty=[&](u32 key){ o.insert(o.end(),(char*)&key,(char*)&key+4); o.insert(o.end(),eb,eb+en); cnt++; };
    for(u64 i=0;i<=k;i++){ u32 key=0xffffffff; if(i<k) memcpy(&key,&b[p],4); if(R.p(60)&&(int64_t)key>last+1) empty(R.p(50)?(u32)(last+1):(u32)(key-1)); if(i==k) { break; } size_t z=roaring_bitmap_portable_deserialize_size(&b[p+4],n-p-4); o.insert(o.end(),b.begin()+p,b.begin()+p+4+z); p+=4+z; cnt++; last=key; }
    memcpy(o.data(),&cnt,8); m=Roaring64Map::readSafe(o.data(),o.size()); m.setCopyOnWrite(COW); }
  return m; }
MODE(map64ops){ // C18
  COW=R.p(25); BIG=R.p(2);   Set a=genM(),b=mutM(a); if(R.p(50)) std::swap(a,b); note("A=%s B=%s",show(a,40).c_str(),show(b,40).c_str());
  Roaring64Map A=mkM(a),B=mkM(b); expM(A,a,"built"); expM(B,b,"built"); u64 ci=card(sAnd(a,b));
  expM(A&B,sAnd(a,b),"&"); expM(A|B,sOr(a,b),"|"); expM(A-B,sSub(a,b),"-"); expM(A^B,sXor(a,b),"^");
  { Roaring64Map C=A; C&=B; expM(C,sAnd(a,b),"&="); C=A; C|=B; expM(C,sOr(a,b),"|="); C=A; C-=B; expM(C,sSub(a,b),"-="); C=A; C^=B; expM(C,sXor(a,b),"^="); 
    u64 x=pick(b,UINT64_MAX); C.add((uint64_t)x); expM(C,sOr(sXor(a,b),rng_(x,x)),"add after ^="); }
  if(R.p(20)){ Roaring64Map C=A; C&=C; expM(C,a,"&= self"); C|=C; expM(C,a,"|= self"); C^=C; expM(C,Set(),"^= self"); C=A; C-=C; expM(C,Set(),"-= self"); }
  EQ(A==B,a==b,"operator=="); EQ(A.isSubset(B),ci==card(a),"isSubset"); EQ(A.isStrictSubset(B),ci==card(a)&&card(b)>ci,"isStrictSubset"); EQ(A.isFull(),0,"isFull");
  { Roaring64Map C=mkM(a); EQ(A==C,1,"equality of rebuilt map"); EQ(C.isSubset(A),1,"isSubset of rebuilt map"); Set n=a; u64 x=pick(a,UINT64_MAX); n=sXor(n,rng_(x,x)); Roaring64Map D=mkM(n); EQ(D==A,0,"equality of map differing in one value"); EQ(A==D,0,"equality of map differing in one value"); EQ(A.isSubset(D),has(n,x),"isSubset of near map"); }
  { int n=R.range(0,5); std::vector<Roaring64Map> v; std::vector<const Roaring64Map*> p; Set u; for(int i=0;i<n;i++){ Set s=R.p(30)?a:mutM(a); v.push_back(mkM(s)); u=sOr(u,s); } for(auto&m:v) p.push_back(&m); expM(Roaring64Map::fastunion(p.size(),p.data()),u,"fastunion"); }
  expM(A,a,"first operand"); expM(B,b,"second operand");
}
MODE(map64upd){ // C18
  COW=R.p(25); BIG=R.p(2);   Set a=genM(); note("A=%s",show(a,40).c_str()); Roaring64Map A=mkM(a); Roaring64Map K=A; Set a0=a; int n=R.range(3,10);
  while(n--){ u64 x=pick(a,UINT64_MAX),y=R.p(60)?x+R.below(300000):BIG&&R.p(70)?x+R.below(0x180000000ULL):R.p(60)?x+R.below(4000000):pick(a,UINT64_MAX); if(y<x||(y>>32)-(x>>32)>(BIG?2:0)) y=x|R.below(65536); if(y<x) std::swap(x,y); int op=R.below(16); note("op%d %llu %llu",op,(unsigned long long)x,(unsigned long long)y); bool low=x<=UINT32_MAX&&y<=UINT32_MAX;
    switch(op){
      case 0: A.add((uint64_t)x); a=sOr(a,rng_(x,x)); break; case 1: EQ(A.addChecked((uint64_t)x),!has(a,x),"addChecked"); a=sOr(a,rng_(x,x)); break;
      case 2: A.remove((uint64_t)x); a=sSub(a,rng_(x,x)); break; case 3: EQ(A.removeChecked((uint64_t)x),has(a,x),"removeChecked"); a=sSub(a,rng_(x,x)); break;
      case 4: A.addRangeClosed((uint64_t)x,(uint64_t)y); a=sOr(a,rng_(x,y)); break; case 5: A.removeRangeClosed((uint64_t)x,(uint64_t)y); a=sSub(a,rng_(x,y)); break; case 6: A.flipClosed((uint64_t)x,(uint64_t)y); a=sXor(a,rng_(x,y)); break;
      case 7: A.addRange(x,y); if(x<y) a=sOr(a,rng_(x,y-1)); break; case 8: A.removeRange(x,y); if(x<y) a=sSub(a,rng_(x,y-1)); break; case 9: A.flip(x,y); if(x<y) a=sXor(a,rng_(x,y-1)); break;
      case 10: { std::vector<uint64_t> v; int k=R.range(0,40); while(k--){ u64 z=R.p(50)?pick(a,UINT64_MAX):x+R.below(100000); v.push_back(z); } A.addMany(v.size(),v.data()); std::vector<u64> w(v.begin(),v.end()); a=sOr(a,norm(w)); break; }
      case 11: if(low){ A.addRangeClosed((uint32_t)x,(uint32_t)y); a=sOr(a,rng_(x,y)); } break; case 12: if(low){ A.removeRangeClosed((uint32_t)x,(uint32_t)y); a=sSub(a,rng_(x,y)); } break; case 13: if(low){ A.flipClosed((uint32_t)x,(uint32_t)y); a=sXor(a,rng_(x,y)); } break;
      case 14: A.remove((uint32_t)x); a=sSub(a,rng_((u32)x,(u32)x)); break;
      case 15: switch(R.below(4)){ case 0: A.runOptimize(); break; case 1: A.removeRunCompression(); break; case 2: A.shrinkToFit(); break; default: { Roaring64Map T=A; T.add((uint64_t)y); A.swap(T); A=T; } } break;
    }
    expM(A,a,"after update"); for(int i=0;i<3;i++){ u64 z=pick(a,UINT64_MAX); EQ(A.contains((uint64_t)z),has(a,z),"contains"); EQ(A.contains((uint32_t)z),has(a,(u32)z),"contains (32 bit)"); EQ(A.rank(z),rankLE(a,z),"rank"); EQ(A.getIndex(z),has(a,z)?rankLE(a,z)-1:(u64)-1,"getIndex"); 
      u64 k=R.below(card(a)+2),e=0,w=0; bool ok=selectK(a,k,&w); EQ(A.select(k,&e),ok,"select"); if(ok) EQ(e,w,"select value"); }
  }
  expM(K,a0,"copy taken before the updates"); A.clear(); expM(A,Set(),"clear");
}
struct ItC { const std::vector<u64>*v; size_t i; size_t stop; };
static bool itcb(uint64_t x,void*p){ ItC*c=(ItC*)p; if(c->i>=c->v->size()||(*c->v)[c->i]!=x) fail("iterate: value %zu is %llu",c->i,(unsigned long long)x); c->i++; return c->i!=c->stop; }
MODE(map64iter){ // C18
  COW=R.p(25); BIG=R.p(2);   Set a; do a=genM(); while(card(a)>400000); note("A=%s",show(a,40).c_str()); Roaring64Map A=mkM(a); std::vector<u64> v=elems(a); size_t n=v.size();
  { std::unique_ptr<uint64_t[]> o(new uint64_t[n]); A.toUint64Array(o.get()); for(size_t i=0;i<n;i++) EQ(o[i],v[i],"toUint64Array"); }
  { size_t k=0; for(auto x:A){ if(k>=n) fail("iteration yields too many values"); EQ(x,v[k],"iteration"); k++; } EQ(k,n,"iteration count"); }
  { ItC c={&v,0,R.p(50)?R.below(n+2):(size_t)-1}; A.iterate(itcb,&c); EQ(c.i,(c.stop==0||c.stop>n)?n:c.stop,"iterate count"); }
  auto it=A.begin(); size_t pos=0; 
  for(int k=R.range(5,60);k>0;k--){
    switch(R.below(6)){
      case 0: if(pos<n){ ++it; pos++; } break; case 1: if(pos<n){ auto o=it++; EQ(*o,v[pos],"it++ value"); pos++; } break;
      case 2: if(pos>0){ --it; pos--; } break; case 3: if(pos>0){ auto o=it--; if(pos<n) EQ(*o,v[pos],"it-- value"); pos--; } break;
      case 4: { u64 x=pick(a,UINT64_MAX); bool r=it.move_equalorlarger(x); pos=std::lower_bound(v.begin(),v.end(),x)-v.begin(); EQ(r,pos<n,"move_equalorlarger"); note("mel %llu",(unsigned long long)x); break; }
      default: { auto o=A.begin(); size_t p2=0; int s=R.below(4); while(s--&&p2<n){ ++o; p2++; } if(R.p(30)){ o=A.end(); p2=n; } EQ(it==o,pos==p2,"iterator =="); EQ(it!=o,pos!=p2,"iterator !="); EQ(it<o,pos<p2,"iterator <"); EQ(it>o,pos>p2,"iterator >"); EQ(it<=o,pos<=p2,"iterator <="); EQ(it>=o,pos>=p2,"iterator >="); }
    }
    EQ(it==A.end(),pos==n,"iterator at end"); EQ(A.end()==it,pos==n,"iterator at end"); if(pos<n) EQ(*it,v[pos],"iterator value");
  }
}
MODE(map64serial){ // C18
  COW=R.p(25); BIG=R.p(2);   Set a=genM(); note("A=%s",show(a,40).c_str()); Roaring64Map A=mkM(a);
  for(int port=0;port<2;port++){ size_t n=A.getSizeInBytes(port); std::unique_ptr<char[]> b(new char[n]); EQ(A.write(b.get(),port),n,"write size"); Roaring64Map C=Roaring64Map::read(b.get(),port); expM(C,a,"read"); EQ(C==A,1,"read equals");
    if(port){ Roaring64Map D=Roaring64Map::readSafe(b.get(),n); expM(D,a,"readSafe"); size_t cut=R.below(n); std::unique_ptr<char[]> t(new char[cut]); memcpy(t.get(),b.get(),cut); bool thrown=false; try{ Roaring64Map X=Roaring64Map::readSafe(t.get(),cut); }catch(std::exception&e){ thrown=true; } if(!thrown) fail("readSafe accepts a serialization truncated to %zu of %zu bytes",cut,n);
      const Roaring64Map F=Roaring64Map::portableDeserializeFrozen(b.get()); expM(F,a,"portableDeserializeFrozen"); } }
  { size_t n=A.getFrozenSizeInBytes(); char*b=(char*)aligned_alloc(32,(n+31)/32*32); if(n%32) {} A.writeFrozen(b); { const Roaring64Map F=Roaring64Map::frozenView(b); expM(F,a,"frozenView"); } free(b); }
}
MODE(cpp32){ // C18: the Roaring wrapper
  Set a=gen32(3),b=mutate32(a,3); if(R.p(50)) std::swap(a,b); note("A=%s B=%s",show(a,40).c_str(),show(b,40).c_str()); bool cow=R.p(30);
  auto mk=[&](const Set&s){ Roaring r(build(s,2,cow)); return r; }; Roaring A=mk(a),B=mk(b); u64 ca=card(a),cb=card(b),ci=card(sAnd(a,b)); 
  auto ex=[&](const Roaring&r,const Set&w,const char*what){ expectSet(&r.roaring,w,what); };
  ex(A&B,sAnd(a,b),"&"); ex(A|B,sOr(a,b),"|"); ex(A-B,sSub(a,b),"-"); ex(A^B,sXor(a,b),"^");
  { Roaring C=A; C&=B; ex(C,sAnd(a,b),"&="); C=A; C|=B; ex(C,sOr(a,b),"|="); C=A; C-=B; ex(C,sSub(a,b),"-="); C=A; C^=B; ex(C,sXor(a,b),"^="); Roaring D=std::move(C); ex(D,sXor(a,b),"move"); Roaring E2; E2=std::move(D); ex(E2,sXor(a,b),"move assign"); E2.swap(A); ex(E2,a,"swap"); E2.swap(A); }
  EQ(A.cardinality(),ca,"cardinality"); EQ(A.isEmpty(),a.empty(),"isEmpty"); EQ(A.isFull(),ca==0x100000000ULL,"isFull"); EQ(A==B,a==b,"=="); EQ(A.isSubset(B),ci==ca,"isSubset"); EQ(A.isStrictSubset(B),ci==ca&&cb>ca,"isStrictSubset"); EQ(A.and_cardinality(B),ci,"and_cardinality"); EQ(A.or_cardinality(B),ca+cb-ci,"or_cardinality"); EQ(A.andnot_cardinality(B),ca-ci,"andnot_cardinality"); EQ(A.xor_cardinality(B),ca+cb-2*ci,"xor_cardinality"); EQ(A.intersect(B),ci>0,"intersect");
  if(!a.empty()){ EQ(A.minimum(),a[0].first,"minimum"); EQ(A.maximum(),a.back().second,"maximum"); }
  for(int i=0;i<5;i++){ u64 x=pick(a,UINT32_MAX),y=pick(a,UINT32_MAX); if(x>y) std::swap(x,y); EQ(A.contains((u32)x),has(a,x),"contains"); EQ(A.rank((u32)x),rankLE(a,x),"rank"); EQ(A.getIndex((u32)x),has(a,x)?rankLE(a,x)-1:(u64)-1,"getIndex"); EQ(A.containsRangeClosed((u32)x,(u32)y),subset(rng_(x,y),a),"containsRangeClosed"); EQ(A.containsRange(x,y+1),subset(rng_(x,y),a),"containsRange");
    u64 w; u32 e; u64 k=R.below(ca+1); if(k<=UINT32_MAX){ bool ok=selectK(a,k,&w); EQ(A.select((u32)k,&e),ok,"select"); if(ok) EQ(e,w,"select value"); }
    Roaring C=A; switch(R.below(10)){ case 0: C.add((u32)x); ex(C,sOr(a,rng_(x,x)),"add"); break; case 1: EQ(C.addChecked((u32)x),!has(a,x),"addChecked"); ex(C,sOr(a,rng_(x,x)),"addChecked"); break; case 2: C.remove((u32)x); ex(C,sSub(a,rng_(x,x)),"remove"); break; case 3: EQ(C.removeChecked((u32)x),has(a,x),"removeChecked"); ex(C,sSub(a,rng_(x,x)),"removeChecked"); break;
      case 4: C.addRange(x,y+1); ex(C,sOr(a,rng_(x,y)),"addRange"); break; case 5: C.addRangeClosed((u32)x,(u32)y); ex(C,sOr(a,rng_(x,y)),"addRangeClosed"); break; case 6: C.removeRange(x,y+1); ex(C,sSub(a,rng_(x,y)),"removeRange"); break; case 7: C.removeRangeClosed((u32)x,(u32)y); ex(C,sSub(a,rng_(x,y)),"removeRangeClosed"); break; case 8: C.flip(x,y+1); ex(C,sXor(a,rng_(x,y)),"flip"); break; default: C.flipClosed((u32)x,(u32)y); ex(C,sXor(a,rng_(x,y)),"flipClosed"); } }
  if(ca<200000){ std::vector<u64> v=elems(a); size_t k=0; for(auto x:A){ EQ(x,k<v.size()?v[k]:(u64)-1,"iteration"); k++; } EQ(k,v.size(),"iteration count"); }
  for(int port=0;port<2;port++){ size_t n=A.getSizeInBytes(port); std::unique_ptr<char[]> b(new char[n]); EQ(A.write(b.get(),port),n,"write size"); ex(Roaring::read(b.get(),port),a,"read"); if(port) ex(Roaring::readSafe(b.get(),n),a,"readSafe"); }
  ex(A,a,"first operand"); ex(B,b,"second operand");
}
