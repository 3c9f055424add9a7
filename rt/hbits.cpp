#include "gen.hpp"
#include <map>
typedef void(*Mode)(); std::map<std::string,Mode>& modes();
struct RegB{ RegB(const char*n,Mode m){ modes()[n]=m; } };
#define MODE(n) static void m_##n(); static RegB r_##n(#n,m_##n); static void m_##n()
#define EQ(a,b,what) do{ u64 _a=(u64)(a),_b=(u64)(b); if(_a!=_b) fail("%s: got %llu expected %llu",what,(unsigned long long)_a,(unsigned long long)_b); }while(0)
static Set decB(const bitset_t*b){ Set s; for(size_t i=0;i<b->arraysize;i++){ u64 w=b->array[i]; while(w){ int p=__builtin_ctzll(w); app(s,i*64+p,i*64+p); w&=w-1; } } return s; }
static void exB(const bitset_t*b,const Set&w,const char*what){ if(b->arraysize>b->capacity) fail("%s: arraysize > capacity",what); Set d=decB(b); if(d!=w) fail("%s: wrong content: first difference at %llu; expected %s got %s",what,(unsigned long long)sXor(d,w)[0].first,show(w).c_str(),show(d).c_str()); }
static Set genB(){ std::vector<u64> v; int k=R.below(4); u64 lim=k==0?64:k==1?R.range(1,300):k==2?R.range(1,5000):70000; int n=R.p(10)?0:R.range(1,40); while(n--) v.push_back(R.p(40)?std::min(lim-1,64*R.below(lim/64+1)+(R.p(50)?63:0)):R.below(lim)); Set s=norm(v); if(R.p(20)){ u64 a=R.below(lim); s=sOr(s,rng_(a,a+R.below(300))); } return s; }
static bitset_t* mkB(const Set&s){ u64 top=s.empty()?0:s.back().second+1; bitset_t*b; if(R.p(50)) b=bitset_create(); else b=bitset_create_with_capacity(top+R.below(200)); std::vector<u64> v=elems(s); for(size_t i=v.size();i>1;i--) std::swap(v[i-1],v[R.below(i)]); for(u64 x:v) if(R.p(50)) bitset_set(b,x); else bitset_set_to_value(b,x,true); if(R.p(20)) bitset_trim(b); if(R.p(20)){ bitset_resize(b,b->arraysize+R.below(5),true); } return b; }
MODE(bitset){ // C16
  Set a=genB(),b=R.p(50)?genB():sXor(genB(),a); note("A=%s B=%s",show(a).c_str(),show(b).c_str()); bitset_t*A=mkB(a),*B=mkB(b); exB(A,a,"set"); exB(B,b,"set");
  Set i=sAnd(a,b),u=sOr(a,b); EQ(bitset_count(A),card(a),"count"); EQ(bitset_empty(A),a.empty(),"empty"); 
  EQ(bitset_union_count(A,B),card(u),"union_count"); EQ(bitset_intersection_count(A,B),card(i),"intersection_count"); EQ(bitset_difference_count(A,B),card(sSub(a,b)),"difference_count"); EQ(bitset_symmetric_difference_count(A,B),card(sXor(a,b)),"symmetric_difference_count"); EQ(bitsets_disjoint(A,B),i.empty(),"disjoint"); EQ(bitsets_intersect(A,B),!i.empty(),"intersect"); EQ(bitset_contains_all(A,B),subset(b,a),"contains_all"); EQ(bitset_contains_all(B,A),subset(a,b),"contains_all (swapped)");
  if(!a.empty()){ EQ(bitset_minimum(A),a[0].first,"minimum"); EQ(bitset_maximum(A),a.back().second,"maximum"); }
  for(int k=0;k<4;k++){ bitset_t*c=bitset_copy(A); exB(c,a,"copy"); Set w; switch(k){ case 0: if(!bitset_inplace_union(c,B)) fail("inplace_union"); w=u; break; case 1: bitset_inplace_intersection(c,B); w=i; break; case 2: bitset_inplace_difference(c,B); w=sSub(a,b); break; default: bitset_inplace_symmetric_difference(c,B); w=sXor(a,b); } static const char*N[]={"inplace_union","inplace_intersection","inplace_difference","inplace_symmetric_difference"}; exB(c,w,N[k]); u64 x=R.below(2000); bitset_set(c,x); exB(c,sOr(w,rng_(x,x)),"set after in-place"); bitset_free(c); } exB(B,b,"second operand");
  for(int k=0;k<3;k++){ bitset_t*c=bitset_copy(A); u64 s=R.p(50)?R.below(200):R.p(50)?64*R.below(6):R.below(6000); note("shift %llu",(unsigned long long)s); Set w; if(R.p(50)){ bitset_shift_left(c,s); for(auto&q:a) w.push_back({q.first+s,q.second+s}); exB(c,w,"shift_left"); } else { bitset_shift_right(c,s); for(auto&q:a) if(q.second>=s) w.push_back({q.first>=s?q.first-s:0,q.second-s}); exB(c,w,"shift_right"); } u64 x=R.below(500); bitset_set(c,x); exB(c,sOr(w,rng_(x,x)),"set after shift"); bitset_free(c); }
  { size_t p=0; std::vector<u64> v=elems(a); size_t k=0; while(bitset_next_set_bit(A,&p)){ if(k>=v.size()||v[k]!=p) fail("next_set_bit"); k++; p++; } EQ(k,v.size(),"next_set_bit count"); for(int q=0;q<10;q++){ size_t s=R.below(a.empty()?100:a.back().second+100); size_t t=s; bool r=bitset_next_set_bit(A,&t); auto itv=std::lower_bound(v.begin(),v.end(),(u64)s); EQ(r,itv!=v.end(),"next_set_bit return"); if(r) EQ(t,*itv,"next_set_bit value"); }
    size_t cap=R.range(1,70); size_t*buf=(size_t*)malloc(cap*sizeof(size_t)); size_t st=0; k=0; for(size_t got;(got=bitset_next_set_bits(A,buf,cap,&st))>0;st++){ if(got>cap) fail("next_set_bits returns more than capacity"); for(size_t q=0;q<got;q++){ if(k>=v.size()||v[k]!=buf[q]) fail("next_set_bits value"); k++; } } EQ(k,v.size(),"next_set_bits count"); free(buf);
    struct C{ std::vector<u64>*v; size_t k; bool bad; size_t stop; } c={&v,0,false,R.p(50)?(size_t)-1:(size_t)R.below(v.size()+1)}; bool rr=bitset_for_each(A,[](size_t x,void*p){ C*c=(C*)p; if(c->k>=c->v->size()||(*c->v)[c->k]!=x) c->bad=true; c->k++; return c->k<c->stop; },&c); (void)rr; if(c.bad) fail("for_each value"); EQ(c.k,v.empty()?0:std::min(v.size(),std::max<size_t>(1,c.stop)),"for_each count"); }
  Set w=a; for(int k=R.below(20);k>0;k--){ u64 x=R.p(70)?R.below(6000):pick(w,80000); bool f=R.p(60); note("%d@%llu",f,(unsigned long long)x); if(R.p(70)){ bitset_set_to_value(A,x,f); w=f?sOr(w,rng_(x,x)):sSub(w,rng_(x,x)); } else if(R.p(50)){ bitset_set(A,x); w=sOr(w,rng_(x,x)); } else { size_t n=R.below(60); bitset_resize(A,n,true); w=sAnd(w,n?rng_(0,n*64-1):Set()); EQ(A->arraysize,n,"resize"); } EQ(bitset_get(A,x),has(w,x),"get"); exB(A,w,"after updates"); }
  bitset_fill(A); exB(A,A->arraysize?rng_(0,A->arraysize*64-1):Set(),"fill"); bitset_clear(A); exB(A,Set(),"clear"); bitset_free(A); bitset_free(B);
}
