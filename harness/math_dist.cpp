// C07: distances and bit counts
#include "math_common.hpp"
// --- L1/L2 on N-channel arrays
template<typename T, size_t N> void dist_case(vh::Case& c, int mode) {
    typedef typename Wide<T>::t W;
    const size_t n=c.rng.below(20)+1;
    std::vector<T> a(n*N),b(n*N);
    for(size_t i=0;i<a.size();++i) { a[i]=anyval<T>(c.rng,c.rng.chance(.3)?int(c.rng.below(3)):mode); b[i]=c.rng.chance(.2)?a[i]:anyval<T>(c.rng,mode); }
    std::vector<uint8_t> m(n);
    for(auto& x : m) x=c.rng.pick({uint8_t(0),uint8_t(1),uint8_t(128),uint8_t(255)});
    c.desc(vh::str("L1/L2 ",tn<T>()," ch=",N," n=",n," a=",show(a)," b=",show(b)));
    c.nontrivial(vh::hbytes(a.data(),a.size()*sizeof(T),vh::hbytes(b.data(),b.size()*sizeof(T))));
    c.stat(std::string("type_")+tn<T>());
    auto exact1=[&](size_t from, size_t to, bool masked){ W s=0; for(size_t i=from;i<to;++i) if(!masked||m[i/N]) { W d=(W)a[i]-(W)b[i]; s+=d<0?-d:d; } return s; };
    auto exact2=[&](size_t from, size_t to, bool masked){ ld s=0; for(size_t i=from;i<to;++i) if(!masked||m[i/N]) { ld d=(ld)a[i]-(ld)b[i]; s+=d*d; } return s; };
    auto exact2i=[&](size_t from, size_t to, bool masked){ unsigned __int128 s=0; for(size_t i=from;i<to;++i) if(!masked||m[i/N]) { i128 d=(i128)a[i]-(i128)b[i]; s+=(unsigned __int128)(d*d); } return s; };
    for(size_t i=0;i<n*N;++i) {
        c.checkf(near_<T>((ld)lv::L1dist(a[i],b[i]),told(exact1(i,i+1,false)),std::abs((ld)a[i])+std::abs((ld)b[i])),"dist:L1-scalar",[&]{ return vh::str(tn<T>(),": L1dist(",+a[i],",",+b[i],")=",(double)lv::L1dist(a[i],b[i])," expected ",(double)told(exact1(i,i+1,false))); });
        c.checkf((ld)lv::L1dist(a[i],b[i])==(ld)lv::L1dist(b[i],a[i]),"dist:L1-symmetry",[&]{ return vh::str(+a[i],",",+b[i]); });
        if(std::is_integral<T>::value)
            c.checkf((unsigned __int128)(uint64_t)lv::L2sqrdist(a[i],b[i])==exact2i(i,i+1,false),"dist:L2sqr-scalar",[&]{ return vh::str(tn<T>(),": L2sqrdist(",+a[i],",",+b[i],")=",(double)lv::L2sqrdist(a[i],b[i])," expected ",(double)exact2i(i,i+1,false)); });
        else
            c.checkf(near_<T>((ld)lv::L2sqrdist(a[i],b[i]),exact2(i,i+1,false),std::pow(std::abs((ld)a[i])+std::abs((ld)b[i]),2.0L)),"dist:L2sqr-scalar",[&]{ return vh::str(tn<T>()," ",+a[i],",",+b[i]); });
    }
    ld mag=0; for(size_t i=0;i<n*N;++i) mag+=std::abs((ld)a[i])+std::abs((ld)b[i]);
    for(size_t p=0;p<n;++p) {
        std::array<T,N> aa,bb; std::copy_n(&a[p*N],N,aa.begin()); std::copy_n(&b[p*N],N,bb.begin());
        cv::Vec<T,N> va,vb; for(size_t k=0;k<N;++k) { va[(int)k]=aa[k]; vb[(int)k]=bb[k]; }
        const ld e1=told(exact1(p*N,p*N+N,false)), e2=exact2(p*N,p*N+N,false);
        for(ld g : {(ld)lv::L1dist<N>(&a[p*N],&b[p*N]),(ld)lv::L1dist(aa,bb),(ld)lv::L1dist(aa,&b[p*N]),(ld)lv::L1dist(&a[p*N],bb),(ld)lv::L1dist(va,vb),(ld)lv::L1dist<N>(&b[p*N],&a[p*N])})
            c.checkf(near_<T>(g,e1,mag),"dist:L1-array",[&]{ return vh::str(tn<T>()," ch=",N," a=",show(std::vector<T>(aa.begin(),aa.end()))," b=",show(std::vector<T>(bb.begin(),bb.end()))," got ",(double)g," expected ",(double)e1); });
        const bool fits=e2<1.8e19L;
        if(fits) for(ld g : {(ld)lv::L2sqrdist<N>(&a[p*N],&b[p*N]),(ld)lv::L2sqrdist(aa,bb),(ld)lv::L2sqrdist(aa,&b[p*N]),(ld)lv::L2sqrdist(&a[p*N],bb),(ld)lv::L2sqrdist(va,vb)})
            c.checkf(near_<T>(g,e2,mag*mag),"dist:L2sqr-array",[&]{ return vh::str(tn<T>()," ch=",N," a=",show(std::vector<T>(aa.begin(),aa.end()))," b=",show(std::vector<T>(bb.begin(),bb.end()))," got ",(double)g," expected ",(double)e2); });
        if(fits) for(ld g : {(ld)lv::L2dist<N>(&a[p*N],&b[p*N]),(ld)lv::L2dist(aa,bb),(ld)lv::L2dist(aa,&b[p*N]),(ld)lv::L2dist(&a[p*N],bb),(ld)lv::L2dist(va,vb)})
            c.checkf(std::abs(g-std::sqrt(e2))<=std::sqrt(e2)*1e-6L+(std::is_floating_point<T>::value?mag*std::numeric_limits<T>::epsilon()*16:0),"dist:L2-array",[&]{ return vh::str(tn<T>()," ch=",N," a=",show(std::vector<T>(aa.begin(),aa.end()))," b=",show(std::vector<T>(bb.begin(),bb.end()))," got ",(double)g," expected ",(double)std::sqrt(e2)); });
    }
    for(int mk=0;mk<2;++mk) {
        const uint8_t* pm=mk?m.data():nullptr;
        const ld e1=told(exact1(0,n*N,mk)),e2=exact2(0,n*N,mk);
        const ld tol=std::is_floating_point<T>::value?mag*1e-5L:0;
        for(ld g : {(ld)lv::L1dist<N>(a.data(),b.data(),n,pm),(ld)lv::L1dist(a.data(),b.data(),n,N,pm)})
            c.checkf(std::abs(g-e1)<=tol,"dist:L1-buffer",[&]{ return vh::str(tn<T>()," ch=",N," masked=",mk," got ",(double)g," expected ",(double)e1); });
        if(e2<1.8e19L) for(ld g : {(ld)lv::L2sqrdist<N>(a.data(),b.data(),n,pm),(ld)lv::L2sqrdist(a.data(),b.data(),n,N,pm)})
            c.checkf(std::abs(g-e2)<=tol*mag,"dist:L2sqr-buffer",[&]{ return vh::str(tn<T>()," ch=",N," masked=",mk," got ",(double)g," expected ",(double)e2); });
        if(e2<1.8e19L) for(ld g : {(ld)lv::L2dist<N>(a.data(),b.data(),n,pm),(ld)lv::L2dist(a.data(),b.data(),n,N,pm)})
            c.checkf(std::abs(g-std::sqrt(e2))<=std::sqrt(e2)*1e-5L+tol,"dist:L2-buffer",[&]{ return vh::str(tn<T>()," ch=",N," masked=",mk," got ",(double)g," expected ",(double)std::sqrt(e2)); });
    }
}
template<typename T> void dist_n(vh::Case& c) {
    const int mode=int(c.rng.below(3));
    switch(c.rng.below(4)) { case 0: dist_case<T,1>(c,mode); break; case 1: dist_case<T,2>(c,mode); break; case 2: dist_case<T,3>(c,mode); break; default: dist_case<T,4>(c,mode); }
}
SCENARIO("L1L2",6000,200000) {
    switch(c.idx%8) {
        case 0: dist_n<uint8_t>(c); break; case 1: dist_n<int8_t>(c); break; case 2: dist_n<uint16_t>(c); break; case 3: dist_n<int16_t>(c); break;
        case 4: dist_n<float>(c); break; case 5: dist_n<int32_t>(c); break; case 6: dist_n<double>(c); break; default: dist_n<uint8_t>(c);
    }
    // 32-bit unsigned pairs (no cv::Vec/Mat of that type, scalars only)
    for(int k=0;k<8;++k) {
        const uint32_t a=anyval<uint32_t>(c.rng,k%3),b=anyval<uint32_t>(c.rng,(k+1)%3);
        const uint64_t d=a>b?a-b:b-a;
        c.checkf(lv::L1dist(a,b)==d,"dist:L1-scalar",[&]{ return vh::str("uint32 ",a," ",b); });
        c.checkf(lv::L2sqrdist(a,b)==d*d,"dist:L2sqr-scalar",[&]{ return vh::str("uint32 ",a," ",b); });
        const char x=char(a),y=char(b);
        c.checkf(int(lv::L1dist(x,y))==std::abs(int(x)-int(y)),"dist:L1-scalar",[&]{ return vh::str("char ",int(x)," ",int(y)); });
    }
    for(int k=0;k<4;++k) { // both implementations of the floating-point distance, whichever the build selects
        const float a=anyval<float>(c.rng,k%3),b=anyval<float>(c.rng,(k+1)%3); const double p=anyval<double>(c.rng,k%3),q=anyval<double>(c.rng,(k+1)%3);
        c.checkf(lv::_L1dist_cheat(a,b)==std::abs(a-b) && lv::_L1dist_nocheat(a,b)==std::abs(a-b) && lv::_L1dist_cheat(p,q)==std::abs(p-q) && lv::_L1dist_nocheat(p,q)==std::abs(p-q),"dist:L1-scalar",[&]{ return vh::str("float ",a," ",b," or double ",p," ",q); });
    }
    for(auto f : {1,2}) { // refused channel counts
        bool thrown=false;
        try { uint8_t z[16]={}; lv::L1dist(z,z,size_t(1),size_t(f==1?0:5)); } catch(const lv::Exception&) { thrown=true; }
        c.check(thrown,"dist:channel-count","untemplated L1dist accepted a channel count outside 1..4");
    }
}
SCENARIO("L1L2_u8_exhaustive",1,1) {
    c.desc("all pairs of 8-bit values"); c.nontrivial("u8");
    for(int a=0;a<256;++a) for(int b=0;b<256;++b) {
        const int d=std::abs(a-b),ds=std::abs(int(int8_t(a))-int(int8_t(b)));
        c.checkf(lv::L1dist(uint8_t(a),uint8_t(b))==d && lv::L1dist(int8_t(a),int8_t(b))==ds,"dist:L1-scalar",[&]{ return vh::str("8-bit ",a," ",b); });
        c.checkf(lv::L2sqrdist(uint8_t(a),uint8_t(b))==d*d && lv::L2sqrdist(int8_t(a),int8_t(b))==ds*ds,"dist:L2sqr-scalar",[&]{ return vh::str("8-bit ",a," ",b); });
        c.checkf(lv::hdist(uint8_t(a),uint8_t(b))==__builtin_popcount(a^b),"dist:hdist",[&]{ return vh::str("8-bit ",a," ",b); });
        c.checkf(lv::gdist(uint8_t(a),uint8_t(b))==std::abs(__builtin_popcount(a)-__builtin_popcount(b)),"dist:gdist",[&]{ return vh::str("8-bit ",a," ",b); });
    }
    for(uint32_t v=0;v<65536;++v) c.checkf(lv::popcount(uint16_t(v))==__builtin_popcount(v) && lv::popcount(int16_t(v))==__builtin_popcount(v),"dist:popcount",[&]{ return vh::str("16-bit ",v); });
}
// --- colour distortion
template<typename T, size_t N> void cdist_case(vh::Case& c) {
    std::array<T,N> a,b; const int mode=int(c.rng.below(3));
    for(size_t k=0;k<N;++k) { a[k]=anyval<T>(c.rng,mode); b[k]=c.rng.chance(.15)?a[k]:anyval<T>(c.rng,mode); if(std::is_floating_point<T>::value) { a[k]=T(std::abs(double(a[k]))); b[k]=T(std::abs(double(b[k]))); } }
    if(c.rng.chance(.1)) a.fill(a[0]);
    if(c.rng.chance(.1)) b.fill(b[0]);
    if(c.rng.chance(.05)) b.fill(T(0));
    if(c.rng.chance(.1)) b=a;
    c.desc(vh::str("cdist ",tn<T>()," curr=",show(std::vector<T>(a.begin(),a.end()))," bg=",show(std::vector<T>(b.begin(),b.end()))));
    bool grey=true,same=true; for(size_t k=0;k<N;++k) { if(a[k]!=a[0]||b[k]!=b[0]) grey=false; if(a[k]!=b[k]) same=false; }
    ld cs=0,bs=0,mx=0; for(size_t k=0;k<N;++k) { cs+=(ld)a[k]*a[k]; bs+=(ld)b[k]*b[k]; mx+=(ld)a[k]*b[k]; }
    const ld q=std::max(0.0L,cs-mx*mx/std::max(bs,std::is_integral<T>::value?1.0L:(ld)std::numeric_limits<T>::epsilon()));
    const ld e=(grey||same)?0:std::sqrt(q);
    cv::Vec<T,N> va,vb; for(size_t k=0;k<N;++k) { va[(int)k]=a[k]; vb[(int)k]=b[k]; }
    c.nontrivial(c.desc_);
    // rounding: the difference of two nearly equal squares loses precision; integer results are truncated
    const ld errq=std::is_same<T,uint8_t>::value?1.0L+q*1e-6L:cs*(std::is_same<T,float>::value?4e-6L:1e-14L)+q*1e-6L+1e-12L;
    const ld lo=std::sqrt(std::max(0.0L,q-errq))-(std::is_integral<T>::value?1:0), hi=std::sqrt(q+errq);
    for(ld g : {(ld)lv::cdist<N>(a.data(),b.data()),(ld)lv::cdist(a,b),(ld)lv::cdist(a,b.data()),(ld)lv::cdist(a.data(),b),(ld)lv::cdist(va,vb),(ld)lv::cdist<N>(a.data(),b.data(),size_t(1)),(ld)lv::cdist(a.data(),b.data(),size_t(1),N)}) {
        if(grey||same) c.checkf(g==0,"dist:cdist-null",[&]{ return vh::str("got ",(double)g); });
        else c.checkf(g>=lo-1e-9L && g<=hi+1e-9L,"dist:cdist",[&]{ return vh::str("got ",(double)g," expected ",(double)e); });
    }
    if(std::is_same<T,uint8_t>::value && !(grey||same)) { // exact integer definition
        uint64_t ci=0,bi=0,mi=0; for(size_t k=0;k<N;++k) { ci+=uint64_t(a[k])*uint64_t(a[k]); bi+=uint64_t(b[k])*uint64_t(b[k]); mi+=uint64_t(a[k])*uint64_t(b[k]); }
        const size_t ei=(size_t)std::sqrt((float)(ci-(mi*mi)/std::max<uint64_t>(bi,1)));
        c.checkf((size_t)lv::cdist<N>(a.data(),b.data())==ei,"dist:cdist",[&]{ return vh::str("got ",(double)lv::cdist<N>(a.data(),b.data())," expected ",ei); });
    }
    const size_t l1=(size_t)lv::L1dist<N>(a.data(),b.data()); (void)l1;
    if(std::is_integral<T>::value)
        c.checkf((ld)lv::cmixdist(a,b)==(ld)(l1/2+(size_t)lv::cdist(a,b)*4),"dist:cmixdist",[&]{ return vh::str("got ",(double)lv::cmixdist(a,b)); });
    std::vector<T> A,B; std::vector<uint8_t> m; ld sum=0,msum=0; // buffers of pixels are summed
    for(int i=0;i<6;++i) { for(size_t k=0;k<N;++k) { A.push_back(i%2?a[k]:b[(k+i)%N]); B.push_back(i%2?b[(k+i/2)%N]:a[k]); } m.push_back(c.rng.chance(.5)?255:0); ld d=(ld)lv::cdist<N>(&A[i*N],&B[i*N]); sum+=d; if(m.back()) msum+=d; }
    const ld tol=std::is_integral<T>::value?0:sum*1e-5L;
    c.check(std::abs((ld)lv::cdist<N>(A.data(),B.data(),size_t(6))-sum)<=tol && std::abs((ld)lv::cdist(A.data(),B.data(),size_t(6),N,m.data())-msum)<=tol,"dist:cdist-buffer");
}
SCENARIO("cdist",8000,300000) {
    switch(c.idx%8) { case 0: case 1: case 2: cdist_case<uint8_t,3>(c); break; case 3: cdist_case<uint8_t,2>(c); break; case 4: cdist_case<uint16_t,3>(c); break; case 5: cdist_case<float,3>(c); break; case 6: cdist_case<uint8_t,4>(c); break; default: cdist_case<double,4>(c); }
}
// --- bit counts
template<typename T> void bits_case(vh::Case& c) {
    std::array<T,4> a,b; for(int k=0;k<4;++k) { a[k]=c.rng.chance(.3)?anyval<T>(c.rng,1):T(c.rng.u64()); b[k]=c.rng.chance(.2)?T(~a[k]):c.rng.chance(.2)?a[k]:T(c.rng.u64()); }
    c.desc(vh::str("popcount/hdist/gdist ",sizeof(T)*8,"-bit a=",+a[0],",",+a[1],",",+a[2],",",+a[3]," b=",+b[0],",",+b[1],",",+b[2],",",+b[3]));
    c.nontrivial(c.desc_); c.stat(vh::str("bits_",sizeof(T)*8));
    auto pc=[](T v){ unsigned n=0; for(size_t i=0;i<sizeof(T)*8;++i) n+=unsigned((uint64_t(v)>>i)&1); return n; };
    unsigned sa=0,sb=0,h=0;
    for(int k=0;k<4;++k) {
        c.checkf(lv::popcount(a[k])==pc(a[k]),"dist:popcount",[&]{ return vh::str("value ",+a[k]," got ",+lv::popcount(a[k])); });
        c.checkf(lv::hdist(a[k],b[k])==pc(T(a[k]^b[k])) && lv::hdist(b[k],a[k])==lv::hdist(a[k],b[k]) && lv::hdist(a[k],a[k])==0,"dist:hdist",[&]{ return vh::str("got ",+lv::hdist(a[k],b[k])); });
        c.checkf((unsigned)lv::gdist(a[k],b[k])==(unsigned)std::abs(int(pc(a[k]))-int(pc(b[k]))),"dist:gdist",[&]{ return vh::str("got ",+lv::gdist(a[k],b[k])); });
        sa+=pc(a[k]); sb+=pc(b[k]); h+=pc(T(a[k]^b[k]));
    }
    c.checkf((lv::popcount<4,T,size_t>(a.data())==sa),"dist:popcount",[&]{ return vh::str("4 channels"); });
    c.checkf((lv::hdist<4,T,size_t>(a.data(),b.data())==h),"dist:hdist",[&]{ return vh::str("4 channels"); });
    unsigned s3=0,t3=0,h3=0; for(int k=0;k<3;++k) { s3+=pc(a[k]); t3+=pc(b[k]); h3+=pc(T(a[k]^b[k])); }
    std::array<T,3> a3={a[0],a[1],a[2]},b3={b[0],b[1],b[2]};
    c.checkf(lv::popcount<3>(a3.data())==s3 && lv::popcount(a3)==s3,"dist:popcount",[&]{ return vh::str("3 channels"); });
    c.checkf(lv::hdist<3>(a3.data(),b3.data())==h3 && lv::hdist(a3,b3)==h3 && lv::hdist(a3,b3.data())==h3 && lv::hdist(a3.data(),b3)==h3,"dist:hdist",[&]{ return vh::str("3 channels got ",+lv::hdist(a3,b3)," expected ",h3); });
    c.checkf((unsigned)lv::gdist<3>(a3.data(),b3.data())==(unsigned)std::abs(int(s3)-int(t3)) && (unsigned)lv::gdist(a3,b3)==(unsigned)std::abs(int(s3)-int(t3)),"dist:gdist",[&]{ return vh::str("3 channels"); });
}
SCENARIO("bits",8000,300000) {
    switch(c.idx%8) { case 0: bits_case<uint8_t>(c); break; case 1: bits_case<int8_t>(c); break; case 2: bits_case<uint16_t>(c); break; case 3: bits_case<int16_t>(c); break; case 4: bits_case<uint32_t>(c); break; case 5: bits_case<int32_t>(c); break; case 6: bits_case<uint64_t>(c); break; default: bits_case<int64_t>(c); }
}
// --- earth mover's distances
SCENARIO("emd",4000,100000) {
    const size_t n=1+c.rng.below(40);
    std::vector<double> a(n),b(n); double sa=0,sb=0;
    for(size_t i=0;i<n;++i) { a[i]=c.rng.chance(.3)?0:c.rng.unit(); b[i]=c.rng.chance(.3)?0:c.rng.unit(); }
    if(c.rng.chance(.2)) { std::fill(a.begin(),a.end(),0); std::fill(b.begin(),b.end(),0); }
    a[c.rng.below(n)]+=.5; b[c.rng.below(n)]+=.5; if(c.rng.chance(.1)) b=a;
    for(double v : a) sa+=v; for(double v : b) sb+=v; for(double& v : a) v/=sa; for(double& v : b) v/=sb;
    c.desc(vh::str("emd n=",n," a=",show(a,12)," b=",show(b,12))); c.nontrivial(vh::hbytes(a.data(),n*8,vh::hbytes(b.data(),n*8)));
    ld e=0,cum=0; std::vector<ld> cs; for(size_t i=0;i<n;++i) { cum+=(ld)a[i]-b[i]; cs.push_back(cum); e+=std::abs(cum); }
    ld ce=1e30L; for(ld k : cs) { ld s=0; for(ld v : cs) s+=std::abs(v-k); ce=std::min(ce,s); } // circular EMD: minimum over the cut
    const double g=lv::EMDL1dist(a,b),gc=lv::CEMDL1dist(a,b);
    c.checkf(std::abs(g-e)<1e-12L*n,"dist:EMD",[&]{ return vh::str("got ",g," expected ",(double)e); });
    c.checkf(std::abs(gc-ce)<1e-12L*n,"dist:CEMD",[&]{ return vh::str("got ",gc," expected ",(double)ce); });
    c.checkf(std::abs(lv::EMDL1dist(b,a)-g)<1e-12*n && std::abs(lv::CEMDL1dist(b,a)-gc)<1e-12*n && lv::EMDL1dist(a,a)==0 && lv::CEMDL1dist(a,a)==0,"dist:EMD-symmetry",[&]{ return std::string(); });
    std::vector<float> af(a.begin(),a.end()),bf(b.begin(),b.end());
    c.checkf(std::abs(lv::EMDL1dist(af,bf)-(double)e)<1e-5*n && std::abs(lv::CEMDL1dist(af,bf)-(double)ce)<1e-5*n,"dist:EMD-float",[&]{ return vh::str("got ",lv::EMDL1dist(af,bf)," expected ",(double)e); });
    std::vector<double> r1(a); c.check(lv::EMDL1dist(r1,b)==g && r1==a,"dist:EMD-input-changed");
}
VH_MAIN
