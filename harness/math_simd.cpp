// C09: SIMD helpers
#include "math_common.hpp"
// ------------------------------------------------------------------ C09
template<int W> struct V8 { alignas(16) uint8_t b[W]; };
SCENARIO("simd128",30000,1000000) {
    alignas(16) uint8_t a[16],b[16]; const int mode=int(c.rng.below(5));
    for(int i=0;i<16;++i) { a[i]=mode==0?uint8_t(c.rng.u64()):mode==1?c.rng.pick({uint8_t(0),uint8_t(255),uint8_t(127),uint8_t(128)}):mode==2?uint8_t(0):mode==3?uint8_t(255):uint8_t(c.rng.below(3)+126); b[i]=c.rng.chance(.5)?a[i]:uint8_t(c.rng.u64()); }
    if(mode>=2) { const int k=int(c.rng.below(17)); if(k<16) a[k]^=uint8_t(1u<<c.rng.below(8)); }
    if(c.rng.chance(.3)) { memcpy(b,a,16); const int k=int(c.rng.below(20)); if(k<16) b[k]^=uint8_t(1u<<c.rng.below(8)); }
    c.desc(vh::str("a=",show(std::vector<uint8_t>(a,a+16))," b=",show(std::vector<uint8_t>(b,b+16)))); c.nontrivial(vh::hbytes(a,16,vh::hbytes(b,16)));
    const __m128i va=_mm_load_si128((__m128i*)a),vb=_mm_load_si128((__m128i*)b);
    bool z=true; uint32_t s=0; uint8_t mn=255,mx=0; for(int i=0;i<16;++i) { z&=a[i]==0; s+=a[i]; mn=std::min(mn,a[i]); mx=std::max(mx,a[i]); }
    c.check(lv::cmp_zero_128i(va)==z,"simd:cmp_zero"); c.check(lv::cmp_eq_128i(va,vb)==(memcmp(a,b,16)==0) && lv::cmp_eq_128i(va,va),"simd:cmp_eq");
    c.checkf(lv::hsum_8ui(va)==s,"simd:hsum_8ui",[&]{ return vh::str("got ",lv::hsum_8ui(va)," expected ",s); }); 
#if HAVE_SSE4_1
    c.checkf(lv::hmin_8ui(va)==mn,"simd:hmin_8ui",[&]{ return vh::str("got ",+lv::hmin_8ui(va)); }); c.checkf(lv::hmax_8ui(va)==mx,"simd:hmax_8ui",[&]{ return vh::str("got ",+lv::hmax_8ui(va)); });
#endif
    alignas(16) uint8_t o[16]; alignas(16) uint16_t o16[8];
    _mm_store_si128((__m128i*)o16,lv::unpack_8ui_to_16ui<true>(va)); for(int i=0;i<8;++i) c.check(o16[i]==a[i],"simd:unpack-low"); _mm_store_si128((__m128i*)o16,lv::unpack_8ui_to_16ui<false>(va)); for(int i=0;i<8;++i) c.check(o16[i]==a[8+i],"simd:unpack-high");
    _mm_store_si128((__m128i*)o,lv::mult_8i(va,vb)); for(int i=0;i<16;++i) c.checkf(o[i]==uint8_t(a[i]*b[i]),"simd:mult_8i",[&]{ return vh::str("lane ",i," got ",+o[i]); });
    alignas(16) int32_t x[4],y[4],p[4]; for(int i=0;i<4;++i) { x[i]=anyval<int32_t>(c.rng,int(c.rng.below(3))); y[i]=anyval<int32_t>(c.rng,int(c.rng.below(3))); if(c.rng.chance(.3)) x[i]=-int32_t(c.rng.below(100)); }
    const __m128i vx=_mm_load_si128((__m128i*)x),vy=_mm_load_si128((__m128i*)y);
    _mm_store_si128((__m128i*)p,lv::mult_32si(vx,vy)); for(int i=0;i<4;++i) c.checkf(uint32_t(p[i])==uint32_t(x[i])*uint32_t(y[i]),"simd:mult_32si",[&]{ return vh::str("lane ",i); });
    c.check(lv::extract_32si<0>(vx)==x[0]&&lv::extract_32si<1>(vx)==x[1]&&lv::extract_32si<2>(vx)==x[2]&&lv::extract_32si<3>(vx)==x[3],"simd:extract");
    c.check(uint32_t(lv::hsum_32i(vx))==uint32_t(x[0])+uint32_t(x[1])+uint32_t(x[2])+uint32_t(x[3]),"simd:hsum_32i",vh::str(x[0],",",x[1],",",x[2],",",x[3]));
#if HAVE_SSE4_1
    c.check(lv::hmax_32si(vx)==std::max(std::max(x[0],x[1]),std::max(x[2],x[3])),"simd:hmax_32si",vh::str(x[0],",",x[1],",",x[2],",",x[3]));
#endif
    { const size_t n=c.rng.below(9); const uint8_t v=uint8_t(c.rng.u64()),gd=uint8_t(v^0x5a); std::unique_ptr<__m128i[]> buf(new __m128i[n+2]); memset(buf.get(),gd,(n+2)*16); lv::store_8ui(buf.get()+1,n,v); const uint8_t* q=(const uint8_t*)buf.get(); for(size_t i=0;i<(n+2)*16;++i) c.check(q[i]==(i<16||i>=16+n*16?gd:v),"simd:store_8ui",vh::str("byte ",i," n=",n)); lv::store1_8ui(buf.get(),v); for(size_t i=0;i<16;++i) c.check(q[i]==v,"simd:store1_8ui"); c.check(n>0||q[16]==gd,"simd:store1_8ui-extent"); 
      std::unique_ptr<__m128i[]> exact(new __m128i[std::max<size_t>(n,1)]); lv::store_8ui(exact.get(),n,v); lv::store1_8ui(exact.get(),v); }
}
VH_MAIN
