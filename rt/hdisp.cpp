// C17: the answer does not depend on which CPU-specific implementation is dispatched
#include "gen.hpp"
#include <map>
typedef void(*Mode)(); std::map<std::string,Mode>& modes();
struct Reg{ Reg(const char*n,Mode m){ modes()[n]=m; } };
#define MODE(n) static void m_##n(); static Reg r_##n(#n,m_##n); static void m_##n()
typedef std::vector<unsigned char> Bytes;
static void put(Bytes&o,u64 v){ for(int i=0;i<8;i++) o.push_back((unsigned char)(v>>(8*i))); }
static void putB(Bytes&o,RB*r,bool fr=true){ Dec d=decode(r); if(!d.bad.empty()) fail("malformed result: %s",d.bad.c_str()); size_t n=roaring_bitmap_portable_size_in_bytes(r); put(o,n); size_t p=o.size(); o.resize(p+n); size_t w=roaring_bitmap_portable_serialize(r,(char*)&o[p]); put(o,w); if(fr) roaring_bitmap_free(r); }
static const char* OPN[]={"and","or","xor","andnot","and_inplace","or_inplace","xor_inplace","andnot_inplace","or_many","or_many_heap","xor_many","lazy_or","lazy_xor","queries","to_uint32_array","range_uint32_array","run_optimize","remove_run_compression","flip","ranges","add_many","remove_many","rank_select","iterate","serialize_frozen","bitset","add_offset"};
static void run1(int op,const Set&a,const Set&b,const Set&c,u64 sd,Bytes&o){
  u64 save=R.s; R.s=sd; RB*A=build(a,2,0),*B=build(b,2,0),*C=build(c,2,0); R.s=sd*77+1; const RB*v[]={A,B,C};
  switch(op){
    case 0: putB(o,roaring_bitmap_and(A,B)); break; case 1: putB(o,roaring_bitmap_or(A,B)); break; case 2: putB(o,roaring_bitmap_xor(A,B)); break; case 3: putB(o,roaring_bitmap_andnot(A,B)); break;
    case 4: roaring_bitmap_and_inplace(A,B); putB(o,A,false); break; case 5: roaring_bitmap_or_inplace(A,B); putB(o,A,false); break; case 6: roaring_bitmap_xor_inplace(A,B); putB(o,A,false); break; case 7: roaring_bitmap_andnot_inplace(A,B); putB(o,A,false); break;
    case 8: putB(o,roaring_bitmap_or_many(3,v)); break; case 9: putB(o,roaring_bitmap_or_many_heap(3,v)); break; case 10: putB(o,roaring_bitmap_xor_many(3,v)); break;
    case 11: { RB*r=roaring_bitmap_lazy_or(A,B,true); roaring_bitmap_lazy_or_inplace(r,C,false); roaring_bitmap_repair_after_lazy(r); putB(o,r); break; } case 12: { RB*r=roaring_bitmap_lazy_xor(A,B); roaring_bitmap_lazy_xor_inplace(r,C); roaring_bitmap_repair_after_lazy(r); putB(o,r); break; }
    case 13: put(o,roaring_bitmap_and_cardinality(A,B)); put(o,roaring_bitmap_or_cardinality(A,B)); put(o,roaring_bitmap_xor_cardinality(A,B)); put(o,roaring_bitmap_andnot_cardinality(A,B)); put(o,roaring_bitmap_get_cardinality(A)); put(o,roaring_bitmap_intersect(A,B)); put(o,roaring_bitmap_equals(A,B)); put(o,roaring_bitmap_is_subset(A,B)); put(o,roaring_bitmap_is_strict_subset(B,A)); for(int i=0;i<4;i++){ u64 x=pick(a,UINT32_MAX),y=x+R.below(100000); put(o,roaring_bitmap_range_cardinality(A,x,y)); put(o,roaring_bitmap_contains_range(A,x,y)); put(o,roaring_bitmap_contains(A,(u32)x)); put(o,roaring_bitmap_intersect_with_range(A,x,y)); } break;
    case 14: { std::vector<u32> w(card(a)+1,7); roaring_bitmap_to_uint32_array(A,w.data()); for(u32 x:w) put(o,x); break; }
    case 15: { size_t n=R.below(3000),off=R.below(card(a)+1); std::vector<u32> w(n+1,7); roaring_bitmap_range_uint32_array(A,off,n,w.data()); for(u32 x:w) put(o,x); break; }
    case 16: put(o,roaring_bitmap_run_optimize(A)); putB(o,A,false); break; case 17: put(o,roaring_bitmap_remove_run_compression(A)); putB(o,A,false); break;
    case 18: { u64 x=pick(a,UINT32_MAX),y=std::min<u64>(0x100000000ULL,x+R.below(300000)); putB(o,roaring_bitmap_flip(A,x,y)); roaring_bitmap_flip_inplace(A,x,y); putB(o,A,false); break; }
    case 19: { u64 x=pick(a,UINT32_MAX),y=std::min<u64>(0xffffffffULL,x+R.below(300000)); roaring_bitmap_add_range_closed(A,x,y); putB(o,A,false); x+=R.below(1000); if(x<=y) roaring_bitmap_remove_range_closed(A,x,y); putB(o,A,false); break; }
    case 20: { std::vector<u32> w; for(int i=R.below(6000);i>0;i--) w.push_back((u32)(pick(a,UINT32_MAX)+R.below(5))); roaring_bitmap_add_many(A,w.size(),w.data()); putB(o,A,false); break; } case 21: { std::vector<u32> w; for(int i=R.below(3000);i>0;i--) w.push_back((u32)pick(a,UINT32_MAX)); roaring_bitmap_remove_many(A,w.size(),w.data()); putB(o,A,false); break; }
    case 22: { put(o,roaring_bitmap_minimum(A)); put(o,roaring_bitmap_maximum(A)); for(int i=0;i<8;i++){ u32 x=(u32)pick(a,UINT32_MAX),e=0; put(o,roaring_bitmap_rank(A,x)); put(o,roaring_bitmap_get_index(A,x)); bool k=roaring_bitmap_select(A,(u32)R.below(card(a)+1),&e); put(o,k); if(k) put(o,e);} break; }
    case 23: { roaring_uint32_iterator_t it; roaring_iterator_init(A,&it); u32 buf[300]; for(int i=0;i<20;i++){ u32 n=roaring_uint32_iterator_read(&it,buf,R.below(300)); put(o,n); for(u32 j=0;j<n;j++) put(o,buf[j]); put(o,roaring_uint32_iterator_move_equalorlarger(&it,(u32)pick(a,UINT32_MAX))); put(o,it.has_value); if(it.has_value) put(o,it.current_value);} break; }
    case 24: { size_t n=roaring_bitmap_frozen_size_in_bytes(A); char*p=(char*)aligned_alloc(32,(n+31)/32*32); roaring_bitmap_frozen_serialize(A,p); o.insert(o.end(),p,p+n); free(p); n=roaring_bitmap_size_in_bytes(A); std::vector<char> q(n); put(o,roaring_bitmap_serialize(A,q.data())); o.insert(o.end(),q.begin(),q.end()); break; }
    case 25: { if(a.empty()||a.back().second<40000000){ bitset_t*t=bitset_create(); roaring_bitmap_to_bitset(A,t); put(o,bitset_count(t)); size_t k=0; while(bitset_next_set_bit(t,&k)){ put(o,k); k+=1+R.below(200); } bitset_free(t);} break; }
    default: putB(o,roaring_bitmap_add_offset(A,(int64_t)R.below(400000)-200000)); break;
  }
  roaring_bitmap_free(A); roaring_bitmap_free(B); roaring_bitmap_free(C); R.s=save;
}
MODE(dispatch){
  Set a=gen32(3),b=R.p(80)?mutate32(a,3):gen32(3),c=mutate32(b,3); note("A=%s B=%s C=%s",show(a,40).c_str(),show(b,40).c_str(),show(c,40).c_str()); u64 sd=R.next(); int keep=g_isa;
  for(int op=0;op<27;op++){ Bytes o[3]; static const int L[]={0,1,3}; for(int i=0;i<3;i++){ g_isa=L[i]; run1(op,a,b,c,sd,o[i]); }
    for(int i=1;i<3;i++) if(o[i]!=o[0]){ size_t k=0; while(k<o[0].size()&&k<o[i].size()&&o[0][k]==o[i][k]) k++; fail("%s: dispatch level %d differs from the portable code (output %zu/%zu bytes, first difference at byte %zu)",OPN[op],L[i],o[0].size(),o[i].size(),k); } }
  g_isa=keep;
}
