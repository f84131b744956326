// C08: numeric helpers and mixtures
#include "math_common.hpp"
// ------------------------------------------------------------------ C08
template<typename T, int N> void mat_case(vh::Case& c) {
    std::array<T,N*N> m; const int kind=int(c.rng.below(5));
    auto gen=[&]{ for(auto& v : m) v=kind==3?T(c.rng.range(-4,4)):T(c.rng.real(-10,10)); };
    gen();
    if(kind==1) for(int i=0;i<N;++i) m[i*N+i]+=T(20);           // well conditioned
    if(kind==2) { std::array<int,N> p; for(int i=0;i<N;++i) p[i]=i; for(int i=N-1;i>0;--i) std::swap(p[i],p[c.rng.below(i+1)]); m.fill(T(0)); for(int i=0;i<N;++i) m[i*N+p[i]]=T(c.rng.real(.5,3))*(c.rng.chance(.5)?-1:1); } // permutations: pivoting is mandatory
    bool sing=false;
    if(kind==4) { // exactly singular
        for(auto& v : m) v=T(c.rng.range(-8,8));
        const int r=int(c.rng.below(N)); 
        if(c.rng.chance(.4) || N==1) for(int j=0;j<N;++j) m[r*N+j]=0;
        else { const int s=(r+1+int(c.rng.below(N-1)))%N; const T f=T(c.rng.pick({1,-1,2})); for(int j=0;j<N;++j) m[r*N+j]=m[s*N+j]*f; }
        sing=true;
    }
    c.desc(vh::str("matrix N=",N," kind=",kind," m=",show(std::vector<T>(m.begin(),m.end()),36))); c.nontrivial(c.desc_); c.stat(vh::str("N",N,"_kind",kind));
    // oracle: determinant by Gauss elimination in extended precision
    std::array<ld,N*N> w; for(int i=0;i<N*N;++i) w[i]=m[i]; ld det=1; ld minpiv=1e30L;
    std::array<ld,N*N> inv{}; for(int i=0;i<N;++i) inv[i*N+i]=1;
    bool degenerate=false;
    for(int i=0;i<N && !degenerate;++i) { int k=i; for(int j=i+1;j<N;++j) if(std::abs(w[j*N+i])>std::abs(w[k*N+i])) k=j;
        if(w[k*N+i]==0) { det=0; minpiv=0; degenerate=true; break; }
        if(k!=i) { for(int j=0;j<N;++j) { std::swap(w[i*N+j],w[k*N+j]); std::swap(inv[i*N+j],inv[k*N+j]); } det=-det; }
        det*=w[i*N+i]; minpiv=std::min(minpiv,std::abs(w[i*N+i]));
        const ld d=w[i*N+i]; for(int j=0;j<N;++j) { w[i*N+j]/=d; inv[i*N+j]/=d; }
        for(int r=0;r<N;++r) if(r!=i) { const ld f=w[r*N+i]; for(int j=0;j<N;++j) { w[r*N+j]-=f*w[i*N+j]; inv[r*N+j]-=f*inv[i*N+j]; } } }
    ld prodnorm=1; for(int i=0;i<N;++i) { ld s=0; for(int j=0;j<N;++j) s+=(ld)m[i*N+j]*m[i*N+j]; prodnorm*=std::sqrt(s); }
    const ld eps=std::numeric_limits<T>::epsilon();
    const double gd=lv::determinant<N,T>(m.data());
    const std::array<T,N*N> keep=m;
    std::array<T,N*N> out; out.fill(T(77));
    const bool ok=lv::invert<N,T>(m.data(),out.data());
    c.check(m==keep,"matrix:input-changed");
    c.checkf(std::abs((ld)gd-det)<=prodnorm*eps*200+(minpiv<1e-3L?prodnorm*0+1e-3L*prodnorm:0),"matrix:determinant",[&]{ return vh::str("got ",gd," expected ",(double)det); });
    c.check(lv::determinant<N,T>(m.data())==gd,"matrix:history");
    if(sing) { // integer-valued singular matrix: elimination may leave rounding residue for N>3, never a nonsense success
        if(N<=3 || !ok) c.check(!ok,"matrix:singular-accepted");
        c.check(std::abs(gd)<=prodnorm*eps*200,"matrix:singular-determinant",vh::str(gd));
    }
    else if(det!=0) {
        ld ninv=0,nm=0; for(int i=0;i<N*N;++i) { ninv=std::max(ninv,std::abs(inv[i])); nm=std::max(nm,std::abs((ld)m[i])); }
        const ld cond=ninv*nm*N;
        if(cond<1e4L && minpiv>1e-2L) {
            c.stat("wellcond");
            c.check(ok,"matrix:regular-refused",vh::str("det=",(double)det));
            for(int i=0;i<N*N;++i) c.checkf(std::abs((ld)out[i]-inv[i])<=cond*cond*eps*50*ninv/std::max(cond,1.0L)+1e-30L,"matrix:inverse",[&]{ return vh::str("element ",i," got ",(double)out[i]," expected ",(double)inv[i]," cond ",(double)cond); });
            cv::Matx<T,N,N> mi(m.data()),mo; c.check(lv::invert<N,T>(mi,mo) && std::equal(out.begin(),out.end(),mo.val),"matrix:matx"); // same through the matrix type
        }
    }
}
SCENARIO("matrices",6000,200000) {
    const bool d=c.rng.chance(.5);
    switch(c.idx%7) {
        case 0: mat_case<double,1>(c); break; case 1: d?mat_case<double,2>(c):mat_case<float,2>(c); break; case 2: d?mat_case<double,3>(c):mat_case<float,3>(c); break;
        case 3: d?mat_case<double,4>(c):mat_case<float,4>(c); break; case 4: d?mat_case<double,5>(c):mat_case<float,5>(c); break; case 5: mat_case<double,6>(c); break; default: mat_case<double,8>(c);
    }
}
SCENARIO("LU_strided",2000,40000) { // systems solved in place in larger row strides leave the padding alone
    const int m=1+int(c.rng.below(7)),n=1+int(c.rng.below(4)),sa=m+int(c.rng.below(3)),sb=n+int(c.rng.below(3));
    std::vector<double> A(m*sa,555.0),B(m*sb,555.0),A0,B0;
    for(int i=0;i<m;++i) { for(int j=0;j<m;++j) A[i*sa+j]=c.rng.real(-5,5); A[i*sa+(i*3+1)%m]+=15; for(int j=0;j<n;++j) B[i*sb+j]=c.rng.real(-5,5); }
    A0=A; B0=B; c.desc(vh::str("LU m=",m," n=",n," steps ",sa,",",sb," A=",show(A,50))); c.nontrivial(c.desc_);
    const int p=lv::LU(A.data(),sa*sizeof(double),m,B.data(),sb*sizeof(double),n);
    for(int i=0;i<m;++i) { for(int j=m;j<sa;++j) c.check(A[i*sa+j]==555,"matrix:LU-padding"); for(int j=n;j<sb;++j) c.check(B[i*sb+j]==555,"matrix:LU-padding"); }
    if(p!=0) for(int i=0;i<m;++i) for(int j=0;j<n;++j) { ld s=0,mag=0; for(int k=0;k<m;++k) { s+=(ld)A0[i*sa+k]*B[k*sb+j]; mag+=std::abs((ld)A0[i*sa+k]*B[k*sb+j]); } c.checkf(std::abs(s-B0[i*sb+j])<=1e-9L*(mag+1),"matrix:LU-solve",[&]{ return vh::str("row ",i," ",(double)s," vs ",B0[i*sb+j]); }); }
}
SCENARIO("interp_ranges",6000,200000) {
    const size_t n=1+c.rng.below(9); std::vector<double> x(n),y(n+c.rng.below(2)); double cur=c.rng.real(-10,10);
    for(size_t i=0;i<n;++i) { x[i]=cur; cur+=c.rng.pick({.01,.5,1.,7.})*c.rng.real(.5,1.5); } for(auto& v : y) v=c.rng.real(-20,20);
    if(c.rng.chance(.15) && n>1) y.resize(n-1); // uneven inputs: only the common part is used
    const size_t m=std::min(x.size(),y.size());
    std::vector<double> q; for(size_t i=0;i<m;++i) { q.push_back(x[i]); if(i+1<m) for(double t : {.01,.25,.5,.51,.75,.99}) q.push_back(x[i]+(x[i+1]-x[i])*t); }
    for(int k=0;k<4;++k) q.push_back(x[0]+(x[m-1]-x[0])*c.rng.unit());
    c.desc(vh::str("interp1 x=",show(x)," y=",show(y))); c.nontrivial(c.desc_);
    const auto r=lv::interp1(x,y,q);
    c.check(r.size()==q.size(),"interp:size");
    for(size_t k=0;k<q.size();++k) {
        ld e=y[m-1]; for(size_t i=0;i+1<m;++i) if(q[k]>=x[i]&&q[k]<=x[i+1]) { e=(ld)y[i]+((ld)y[i+1]-y[i])*(((ld)q[k]-x[i])/((ld)x[i+1]-x[i])); break; }
        ld mag=100; for(size_t i=0;i+1<m;++i) mag=std::max(mag,std::abs(((ld)y[i+1]-y[i])/((ld)x[i+1]-x[i])*x[i]));
        c.checkf(std::abs(r[k]-e)<=1e-13L*mag*4,"interp:value",[&]{ return vh::str("at x=",q[k]," got ",r[k]," expected ",(double)e); });
    }
    for(double bad : {x[0]-1.0,x[m-1]+1.0}) { bool t=false; try { lv::interp1(x,y,std::vector<double>{bad}); } catch(const std::domain_error&) { t=true; } c.check(t,"interp:extrapolated",vh::str(bad)); }
    // integer abscissae
    { std::vector<int> xi; std::vector<float> yi; int v=-5; for(int i=0;i<5;++i) { xi.push_back(v); v+=1+int(c.rng.below(6)); yi.push_back(float(c.rng.range(-50,50))); }
      std::vector<int> qi; for(int k=xi.front();k<=xi.back();++k) qi.push_back(k); auto ri=lv::interp1(xi,yi,qi);
      for(size_t k=0;k<qi.size();++k) { double e=yi.back(); for(int i=0;i<4;++i) if(qi[k]>=xi[i]&&qi[k]<=xi[i+1]) { e=yi[i]+double(yi[i+1]-yi[i])*(qi[k]-xi[i])/(xi[i+1]-xi[i]); break; } c.checkf(std::abs(ri[k]-e)<1e-2,"interp:value",[&]{ return vh::str("int x=",qi[k]," got ",ri[k]," expected ",e); }); } }
    // linspace
    { const double a=c.rng.real(-100,100),b=c.rng.real(-100,100); const size_t k=c.rng.below(60); const bool inc=c.rng.chance(.6); const auto v=lv::linspace(a,b,k,inc);
      c.check(v.size()==k,"linspace:size"); if(k==1) c.check(v[0]==b,"linspace:single");
      if(k>1) { c.checkf(v.back()==b && (!inc||v.front()==a),"linspace:ends",[&]{ return vh::str(a,"..",b," n=",k," got ",v.front(),"..",v.back()); });
        for(size_t i=0;i<k;++i) { const ld e=inc?(ld)a+((ld)b-a)*i/(k-1):(ld)a+((ld)b-a)*(i+1)/k; c.checkf(std::abs(v[i]-e)<1e-11L,"linspace:value",[&]{ return vh::str("element ",i," got ",v[i]," expected ",(double)e); }); } }
      c.check(lv::linspace(a,b,k)==lv::linspace(a,b,k,true),"linspace:default","the initial value is not included by default");
      const int ia=int(c.rng.range(-50,50)),ib=int(c.rng.range(-50,50)); const size_t ki=2+c.rng.below(120); const auto vi=lv::linspace(ia,ib,ki,inc);
      c.checkf(vi.back()==ib && (!inc||vi.front()==ia),"linspace:ends",[&]{ return vh::str("int ",ia,"..",ib," n=",ki," got ",vi.front(),"..",vi.back()); });
      for(size_t i=0;i<ki;++i) { const ld e=inc?(ld)ia+((ld)ib-ia)*i/(ki-1):(ld)ia+((ld)ib-ia)*(i+1)/ki; c.checkf(std::abs(vi[i]-e)<1+1e-9L,"linspace:value",[&]{ return vh::str("int element ",i," got ",vi[i]," expected ",(double)e); }); }
      const uint8_t ua=uint8_t(c.rng.u64()),ub=uint8_t(c.rng.u64()); const auto vu=lv::linspace<uint8_t>(ua,ub,ki,inc); for(size_t i=0;i<ki;++i) { const ld e=inc?(ld)ua+((ld)ub-ua)*i/(ki-1):(ld)ua+((ld)ub-ua)*(i+1)/ki; c.checkf(std::abs(vu[i]-e)<1+1e-9L,"linspace:value",[&]{ return vh::str("u8 ",+ua,"..",+ub," element ",i," got ",+vu[i]," expected ",(double)e); }); }
      const uint32_t wa=uint32_t(c.rng.below(1000)),wb=uint32_t(c.rng.below(1000)); const auto vw=lv::linspace<uint32_t>(wa,wb,ki,true); c.checkf(vw.front()==wa&&vw.back()==wb&&std::all_of(vw.begin(),vw.end(),[&](uint32_t z){ return z<=std::max(wa,wb)&&z+1>=std::min(wa,wb); }),"linspace:unsigned",[&]{ return vh::str(wa,"..",wb," n=",ki); }); }
    // nearest neighbour
    { std::vector<int> ref(c.rng.below(12)); for(auto& v : ref) v=int(c.rng.range(-30,30)); const int rq=int(c.rng.range(-40,40));
      const size_t g=lv::find_nn_index(rq,ref,[](int a, int b){ return std::abs(a-b); });
      if(ref.empty()) c.check(g==size_t(-1),"nn:empty");
      else { int best=1000; for(int v : ref) best=std::min(best,std::abs(v-rq)); c.check(g<ref.size() && std::abs(ref[g]-rq)==best,"nn:not-closest",vh::str(g)); for(size_t i=0;i<g;++i) c.check(std::abs(ref[i]-rq)>best,"nn:not-first"); }
      std::vector<float> rf; for(int v : ref) rf.push_back(float(v)/3); const size_t gf=lv::find_nn_index(float(rq),rf,[](float a, float b){ return std::isfinite(a-b)?std::abs(a-b):0.f; }); if(!rf.empty()) { c.check(gf<rf.size(),"nn:range"); for(float v : rf) c.check(std::abs(rf[gf]-rq)<=std::abs(v-rq),"nn:not-closest"); } 
      const size_t gm=lv::find_nn_index(rq,ref,[](int,int){ return std::numeric_limits<int>::max(); }); if(!ref.empty()) c.check(gm==0,"nn:max-distance"); }
}
SCENARIO("bit_layout",3000,100000) {
    const uint64_t r=c.rng.u64(); c.desc(vh::str("bits of ",r)); c.nontrivial(r);
    auto exp=[](uint64_t v, int w, int tot){ uint64_t o=0; for(int i=0;i<tot/w;++i) if((v>>i)&1) o|=1ull<<(i*w); return o; };
    c.check(lv::expand_bits<4>(uint32_t(r))==uint32_t(exp(uint32_t(r),4,32)) && lv::expand_bits<2>(uint16_t(r))==uint16_t(exp(uint16_t(r),2,16)) && lv::expand_bits<8>(uint64_t(r))==exp(r,8,64) && lv::expand_bits<3>(uint64_t(r))==exp(r,3,63) && lv::expand_bits<1>(r)==r && lv::expand_bits<4>(int(r&0x7f))==int(exp(r&0x7f,4,32)) && lv::expand_bits<2>(uint64_t(r))==exp(r,2,64) && lv::expand_bits<4>(uint64_t(r))==exp(r,4,64),"bits:expand",vh::str(r));
    const int ob=1+int(c.rng.below(16)),eb=ob+int(c.rng.below(ob+1)); const uint32_t mask=(1u<<ob)-1,v=uint32_t(r)&mask,full=eb==32?~0u:((1u<<eb)-1);
    c.check(lv::extend_bits<uint32_t>(0,ob,eb)==0 && lv::extend_bits<uint32_t>(mask,ob,eb)==full && lv::extend_bits<uint32_t>(v,ob,eb)<=full,"bits:extend-ends",vh::str(ob,"->",eb));
    c.check((lv::extend_bits<uint32_t>(v,ob,eb)>>(eb-ob))==v,"bits:extend-prefix"); if(v<mask) c.check(lv::extend_bits<uint32_t>(v,ob,eb)<lv::extend_bits<uint32_t>(v+1,ob,eb),"bits:extend-monotone");
    const uint32_t u=uint32_t(r>>c.rng.below(40)); bool p2=u && !(u&(u-1)); if(u) c.check(lv::ispow2(u)==p2,"bits:ispow2",vh::str(u));
    if(u<=0x80000000u) { const uint32_t np=lv::get_next_pow2(u); if(u==0) c.check(np==0,"bits:next_pow2"); else c.check(np>=u && !(np&(np-1)) && (np/2<u||np==1),"bits:next_pow2",vh::str(u,"->",np)); }
    int s=int(uint32_t(r)); uint32_t sm=uint32_t(s); for(int i=0;i<5;++i) { const int g=lv::fastrand(s); sm=sm*214013u+2531011u; c.check(g==int((sm>>16)&0x7fff)&&uint32_t(s)==sm,"bits:fastrand"); }
    __m128i gen; lv::sfastrand_vec(uint32_t(r),gen); uint32_t st[4]; _mm_storeu_si128((__m128i*)st,gen); std::array<uint32_t,4> out; alignas(16) std::array<uint32_t,4> outa;
    static const uint32_t mul[4]={214013,17405,214013,69069},add[4]={2531011,10395331,13737667,1};
    for(int i=0;i<4;++i) { __m128i g2=gen,g3=gen,g4=gen; lv::fastrand_vec<false,false>(out,gen); for(int k=0;k<4;++k) st[k]=st[k]*mul[k]+add[k]; c.check(std::equal(st,st+4,out.begin()),"bits:fastrand_vec"); lv::fastrand_vec<true,false>(outa,g2); c.check(outa==out,"bits:fastrand_vec-aligned"); lv::fastrand_vec<false,true>(out,g3); for(int k=0;k<4;++k) c.check(out[k]==((st[k]>>16)&0x7fff),"bits:fastrand_vec-std"); lv::fastrand_vec<true,true>(outa,g4); c.check(outa==out,"bits:fastrand_vec-aligned"); }
    // fast approximations keep their published relative error
    const float x=float(std::exp(c.rng.real(-20,20))); const double d=std::exp(c.rng.real(-50,50));
    c.check(lv::abs_fast(-x)==x && lv::abs_fast(x)==x && lv::abs_fast(-d)==d && lv::abs_fast(-0.f)==0.f,"approx:abs");
    c.check(std::abs(lv::inv_fast(x)*x-1)<.13,"approx:inv",vh::str(x)); c.check(std::abs(lv::invsqrt_fastest(x)*std::sqrt(x)-1)<.035,"approx:invsqrt",vh::str(x)); c.check(std::abs(lv::invsqrt_fast(x)*std::sqrt(x)-1)<.002 && std::abs(lv::invsqrt_fast<2>(x)*std::sqrt(x)-1)<1e-5,"approx:invsqrt",vh::str(x)); c.check(std::abs(lv::sqrt_fast(x)/std::sqrt(x)-1)<.07,"approx:sqrt",vh::str(x));
    c.check(lv::isnan(std::numeric_limits<float>::quiet_NaN()) && !lv::isnan(x) && lv::isnan(std::numeric_limits<double>::quiet_NaN()) && !lv::isnan(d),"approx:isnan");
}
SCENARIO("rootsift",3000,60000) {
    const size_t n=2+c.rng.below(60); std::vector<float> v(n); for(auto& x : v) x=c.rng.chance(.3)?0.f:float(c.rng.real(0,50)); v[c.rng.below(n)]+=1;
    c.desc(vh::str("rootSIFT ",show(v))); c.nontrivial(vh::hbytes(v.data(),n*4));
    ld s=0; for(float x : v) s+=x; std::vector<float> g(n+2,-3.f); std::copy(v.begin(),v.end(),g.begin()+1); auto g2=g; lv::rootSIFT(&g[1],n); c.check(g[0]==-3.f&&g[n+1]==-3.f,"rootsift:bounds");
    for(size_t i=0;i<n;++i) c.check(std::abs(g[i+1]-std::sqrt(v[i]/s))<1e-5L,"rootsift:value",vh::str(i));
    lv::rootSIFT<float,true>(&g2[1],n); ld l2=0; for(size_t i=0;i<n;++i) { l2+=(ld)g2[i+1]*g2[i+1]; c.check(std::abs(g2[i+1]-std::sqrt(v[i]/s))<1e-4L,"rootsift:L2"); } c.check(std::abs(l2-1)<1e-4L,"rootsift:norm");
    std::vector<double> w(n); ld sw=0; for(auto& x : w) { x=c.rng.real(-5,5); sw+=std::abs(x); } auto w0=w; lv::rootSIFT<double,false,true>(w.data(),n); for(size_t i=0;i<n;++i) c.check(std::abs(w[i]-(w0[i]<0?-1:1)*std::sqrt(std::abs(w0[i])/sw))<1e-9L,"rootsift:negative",vh::str(i));
    ld l1=0,q=0; for(float x : v) { l1+=x; q+=(ld)x*x; } const ld e=(std::sqrt((ld)n)-l1/std::sqrt(q))/(std::sqrt((ld)n)-1); const double sp=lv::sparseness(v.data(),n); c.check(std::abs(sp-e)<1e-5L && sp>-1e-6 && sp<1+1e-6,"sparseness:value",vh::str(sp," expected ",(double)e)); 
}
template<size_t NC, size_t ND> void gmm_case(vh::Case& c) {
    typedef lv::GMM<NC,ND> G; G g;
    const int kind=int(c.rng.below(4)); // 0 gaussian blobs, 1 integer pixels, 2 degenerate, 3 empty components
    const bool reuse=c.rng.chance(.4);
    c.desc(vh::str("gmm comps=",NC," dims=",ND," kind=",kind," reuse=",reuse)); c.nontrivial(vh::str(c.desc_,c.idx));
    typedef std::array<double,ND> S;
    auto sample=[&](size_t k)->S{ S s; for(size_t d=0;d<ND;++d) s[d]=kind==1?double(c.rng.below(256)):kind==2?double(7*k+(d+1)*double(c.rng.below(3))/3.0*0):k*20.0+c.rng.real(-5,5)+d; if(kind==2) { const double t=double(c.rng.below(50)); for(size_t d=0;d<ND;++d) s[d]=t*(d+1)/(k+1.0); } return s; };
    std::vector<std::pair<size_t,S>> data; const size_t n=1+c.rng.below(80);
    for(size_t i=0;i<n;++i) { size_t k=c.rng.below(NC); if(kind==3) k=k/2*2%NC; data.push_back({k,sample(k)}); }
    auto learn=[&](G& m, const std::vector<std::pair<size_t,S>>& v){ m.initLearning(); for(auto& p : v) { if(p.first%2) m.addSample(p.first,p.second); else m.addSample(p.first,p.second.data()); } m.endLearning(); };
    if(reuse) { std::vector<std::pair<size_t,S>> other; for(int i=0;i<30;++i) other.push_back({size_t(i%NC),sample(i%NC)}); learn(g,other); }
    learn(g,data);
    ld wsum=0; ld wmax=0; bool any=false;
    struct Comp { bool used; ld w; S mean; double det; std::vector<double> inv; bool well; }; std::vector<Comp> comps(NC);
    for(size_t k=0;k<NC;++k) {
        Comp& q=comps[k]; size_t cnt=0; ld mean[ND]={}; for(auto& p : data) if(p.first==k) { ++cnt; for(size_t d=0;d<ND;++d) mean[d]+=p.second[d]; }
        q.used=cnt>0; q.w=(ld)cnt/n; wsum+=g.getComponentWeight(k);
        c.checkf(std::abs(g.getComponentWeight(k)-q.w)<1e-12L,"gmm:weight",[&]{ return vh::str("component ",k," got ",g.getComponentWeight(k)," expected ",(double)q.w); });
        if(!cnt) continue; any=true;
        for(size_t d=0;d<ND;++d) { mean[d]/=cnt; q.mean[d]=(double)mean[d]; c.checkf(std::abs(g.getComponentMean(k)[d]-mean[d])<1e-9L,"gmm:mean",[&]{ return vh::str("component ",k," dim ",d," got ",g.getComponentMean(k)[d]," expected ",(double)mean[d]); }); }
        ld cov[ND*ND]={}; for(auto& p : data) if(p.first==k) for(size_t a=0;a<ND;++a) for(size_t b=0;b<ND;++b) cov[a*ND+b]+=(p.second[a]-mean[a])*(p.second[b]-mean[b])/cnt;
        const double* gc=g.getComponentCovMat(k); ld noise=gc[0]-cov[0]; const bool noisy=std::abs(noise-0.01L)<1e-3L;
        c.check(noisy||std::abs(noise)<1e-6L,"gmm:covariance",vh::str("component ",k," variance ",gc[0]," expected ",(double)cov[0]));
        for(size_t a=0;a<ND;++a) for(size_t b=0;b<ND;++b) c.checkf(std::abs(gc[a*ND+b]-cov[a*ND+b]-(a==b&&noisy?0.01L:0))<1e-6L,"gmm:covariance",[&]{ return vh::str("component ",k," ",a,",",b," got ",gc[a*ND+b]," expected ",(double)cov[a*ND+b]); });
        std::vector<double> cm(gc,gc+ND*ND),iv(ND*ND); cv::Mat C((int)ND,(int)ND,CV_64F,cm.data()); q.det=cv::determinant(C); cv::Mat I=C.inv(cv::DECOMP_SVD); q.inv.assign((double*)I.data,(double*)I.data+ND*ND); cv::SVD svd(C,cv::SVD::NO_UV); q.well=svd.w.at<double>((int)ND-1)>1e-4*svd.w.at<double>(0) && svd.w.at<double>((int)ND-1)>1e-3;
        if(cnt==1 || kind==2) c.check(noisy||q.det>0,"gmm:degenerate",vh::str("component ",k," keeps a singular covariance"));
        // noise is only for (nearly) singular covariances
        { cv::Mat R((int)ND,(int)ND,CV_64F); for(size_t i=0;i<ND*ND;++i) ((double*)R.data)[i]=(double)cov[i]; const double rd=cv::determinant(R); if(rd>1e-3) c.check(!noisy,"gmm:covariance",vh::str("noise added to a regular covariance, det=",rd)); if(rd<1e-9 && cov[0]<1) c.check(noisy,"gmm:covariance","no noise on a singular covariance"); }
    }
    c.check(any && std::abs(wsum-1)<1e-9L,"gmm:weights-sum",vh::str((double)wsum));
    G copy(g); G asg; asg=g; 
    for(int t=0;t<12;++t) {
        const S s=t<6&&!data.empty()?data[c.rng.below(data.size())].second:sample(c.rng.below(NC));
        double best=-1; ld mix=0; std::array<double,NC> pd;
        for(size_t k=0;k<NC;++k) { pd[k]=g(k,s); c.check(std::isfinite(pd[k])&&pd[k]>=0,"gmm:density-nan",vh::str("component ",k," density ",pd[k])); best=std::max(best,pd[k]); mix+=(ld)g.getComponentWeight(k)*pd[k];
            if(!comps[k].used) c.check(pd[k]==0,"gmm:empty-component"); else if(comps[k].well) { ld md=0; for(size_t a=0;a<ND;++a) for(size_t b=0;b<ND;++b) md+=((ld)s[a]-comps[k].mean[a])*comps[k].inv[a*ND+b]*((ld)s[b]-comps[k].mean[b]); const ld e=std::exp(-0.5L*md)/std::sqrt(std::pow(2*acosl(-1.0L),(ld)ND)*comps[k].det); c.checkf(std::abs(pd[k]-e)<=1e-4L*e+1e-12L,"gmm:density",[&]{ return vh::str("component ",k," got ",pd[k]," expected ",(double)e); }); c.stat("densities"); } }
        const double gm=g(s); c.check(std::abs(gm-mix)<=1e-9L*mix+1e-300L,"gmm:mixture-density"); c.check(g(s.data())==gm,"gmm:overload");
        const size_t bk=g.getBestComponent(s); c.check(bk<NC && pd[bk]==best,"gmm:best-component",vh::str(bk));
        c.check(copy(s)==gm && asg(s)==gm && copy.getBestComponent(s)==bk,"gmm:copy");
    }
    if(reuse) { G f; learn(f,data); for(size_t k=0;k<NC;++k) for(size_t d=0;d<ND;++d) if(comps[k].used) c.check(f.getComponentMean(k)[d]==g.getComponentMean(k)[d]&&f.getComponentWeight(k)==g.getComponentWeight(k)&&f(k,data[0].second)==g(k,data[0].second),"gmm:history"); }
    { // a model copied half-way through learning goes on from there, and so does its original
        G h; h.initLearning(); const size_t cut=c.rng.below(n+1); for(size_t i=0;i<cut;++i) h.addSample(data[i].first,data[i].second);
        G h2(h),h3; if(c.rng.chance(.5)) learn(h3,data); h3=h;
        for(G* m : {&h,&h2,&h3}) { for(size_t i=cut;i<n;++i) m->addSample(data[i].first,data[i].second); m->endLearning(); }
        for(G* m : {&h,&h2,&h3}) for(size_t k=0;k<NC;++k) { bool same=m->getComponentWeight(k)==g.getComponentWeight(k); if(same && comps[k].used) { for(size_t d=0;d<ND;++d) same=same&&m->getComponentMean(k)[d]==g.getComponentMean(k)[d]; for(size_t d=0;d<ND*ND;++d) same=same&&m->getComponentCovMat(k)[d]==g.getComponentCovMat(k)[d]; same=same&&(*m)(k,data[0].second)==g(k,data[0].second); } c.check(same,"gmm:copy-learning",vh::str("component ",k," of ",m==&h?"the original":m==&h2?"a copy":"an assigned model"," after a copy at sample ",cut," of ",n)); } }
    { // learning order does not matter; a copy is independent of its original
        auto rev=data; std::reverse(rev.begin(),rev.end()); G f; learn(f,rev); for(size_t k=0;k<NC;++k) c.check(f.getComponentWeight(k)==g.getComponentWeight(k),"gmm:order");
        const double before=copy(data[0].second); std::vector<std::pair<size_t,S>> other; for(int i=0;i<10;++i) other.push_back({size_t(i)%NC,sample(i%NC)}); learn(g,other); c.check(copy(data[0].second)==before,"gmm:copy-shares-params"); }
}
SCENARIO("gmm",1500,50000) {
    switch(c.idx%5) { case 0: gmm_case<5,3>(c); break; case 1: gmm_case<3,1>(c); break; case 2: gmm_case<1,2>(c); break; case 3: gmm_case<2,3>(c); break; default: gmm_case<4,4>(c); }
}
VH_MAIN
