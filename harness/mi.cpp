// C12: joint histograms and mutual information
#include "litiv/features2d.hpp"
#include "vh.hpp"
#include "cvgen.hpp"
#include <map>
#include <thread>
using namespace cg;

/// random matrix with values in a window of the type's range
template<typename T> static cv::Mat_<T> rmat(vh::Rng& r, int rows, int cols, cv::Mat& parent, bool narrow) {
    const int64_t tmin=std::numeric_limits<T>::min(),tmax=std::numeric_limits<T>::max();
    int64_t span=r.chance(20)?0:(int64_t)r.range(1,r.chance(50)?8:220); if(!narrow && sizeof(T)==1 && r.chance(30)) span=tmax-tmin;
    span=std::min(span,tmax-tmin); int64_t base=r.chance(30)?tmin:(r.chance(40)?tmax-span:(int64_t)std::floor(r.real((double)tmin,(double)(tmax-span)))); base=std::max(tmin,std::min(base,tmax-span));
    cv::Mat_<T> m(rows,cols); const int style=(int)r.below(3);
    for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) m(y,x)=(T)(style==0?base+(int64_t)r.below((uint64_t)span+1):style==1?base+(span*x)/std::max(1,cols-1):(((x/3+y/3)&1)?base:base+span));
    if(r.chance(40)) {cv::Mat e=embed(r,m,parent); return cv::Mat_<T>(e);}
    return m;
}
struct Ref {std::map<std::vector<int>,int> joint; std::vector<std::map<int,int>> marg; std::vector<int> mn,mx; double total;};
template<size_t Q, bool SKIP, typename... T> static Ref refHist(const cv::Mat_<T>&... m) {
    std::vector<std::vector<int64_t>> v; std::vector<int> skipMin,skipMax,isint;
    const int d[]={0,([&]{std::vector<int64_t> a; for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) a.push_back((int64_t)m(y,x)); v.push_back(a); skipMin.push_back((int)std::numeric_limits<T>::min()); skipMax.push_back((int)std::numeric_limits<T>::max()); isint.push_back(std::is_same<T,int>::value);}(),0)...}; (void)d;
    Ref o; o.marg.resize(v.size()); o.total=(double)v[0].size();
    for(size_t i=0; i<v.size(); ++i) {const bool s=SKIP&&!isint[i]; o.mn.push_back(s?skipMin[i]:(int)*std::min_element(v[i].begin(),v[i].end())); o.mx.push_back(s?skipMax[i]:(int)*std::max_element(v[i].begin(),v[i].end()));}
    for(size_t p=0; p<v[0].size(); ++p) {std::vector<int> key; for(size_t i=0; i<v.size(); ++i) {key.push_back((int)((v[i][p]-o.mn[i])/(int64_t)Q)); ++o.marg[i][key.back()];} ++o.joint[key];}
    return o;
}
template<typename M> static double sumM(const M& m) {double s=0; for(auto it=m.begin(); it!=m.end(); ++it) s+=*it; return s;}
static float getH(cv::SparseMat_<float>& m, const std::vector<int>& i) {const float* p=m.template find<float>(i.data()); return p?*p:0.f;}
static float getH(cv::Mat_<float>& m, const std::vector<int>& i) {if(i.size()==1) return i[0]<m.size[0]?m(i[0],0):-1.f; for(size_t k=0; k<i.size(); ++k) if(i[k]>=m.size[(int)k]) return -1.f; return m(i.data());}
static size_t nz(const cv::SparseMat_<float>& m) {size_t n=0; for(auto it=m.begin(); it!=m.end(); ++it) n+=(*it)!=0; return n;}
static size_t nz(const cv::Mat_<float>& m) {size_t n=0; for(auto it=m.begin(); it!=m.end(); ++it) n+=(*it)!=0; return n;}
template<typename H> static void checkHist(vh::Case& c, H& h, const Ref& e, bool fast) {
    const double tol=fast?1e-4:1e-6;
    for(size_t i=0; i<e.marg.size(); ++i) {
        c.check(h.aMinVals[i]==e.mn[i]&&h.aMaxVals[i]==e.mx[i],"hist-minmax",vh::str("input ",i," range is [",h.aMinVals[i],",",h.aMaxVals[i],"] instead of [",e.mn[i],",",e.mx[i],"]"));
        c.check(std::abs(sumM(h.aMargHists[i])-1)<1e-4,"marg-sum",vh::str("marginal ",i," sums to ",sumM(h.aMargHists[i])));
        c.check(nz(h.aMargHists[i])==e.marg[i].size(),"marg-states",vh::str("marginal ",i," has ",nz(h.aMargHists[i])," occupied cells instead of ",e.marg[i].size()));
        for(auto& p : e.marg[i]) {const float g=getH(h.aMargHists[i],std::vector<int>{p.first}); c.checkf(std::abs(g-p.second/e.total)<tol,"marg-value",[&]{return vh::str("marginal ",i," cell ",p.first," is ",g," instead of ",p.second/e.total);});}
    }
    c.check(std::abs(sumM(h.oJointHist)-1)<1e-4,"joint-sum",vh::str("joint histogram sums to ",sumM(h.oJointHist)));
    c.check(nz(h.oJointHist)==e.joint.size(),"joint-states",vh::str("joint histogram has ",nz(h.oJointHist)," occupied cells instead of ",e.joint.size()));
    for(auto& p : e.joint) {const float g=getH(h.oJointHist,p.first); c.checkf(std::abs(g-p.second/e.total)<tol,"joint-value",[&]{return vh::str("joint cell (",p.first[0],",",p.first[1],"..) is ",g," instead of ",p.second/e.total);});}
    if(!fast) {
        c.check(sumM(h.oJointCount)==e.total,"count-sum",vh::str("joint counts sum to ",sumM(h.oJointCount)," for ",e.total," pixels"));
        for(size_t i=0; i<e.marg.size(); ++i) c.check(sumM(h.aMargCounts[i])==e.total,"count-marg","marginal counts do not sum to the pixel count");
    }
}
static double entropy(const std::map<int,int>& m, double t) {double s=0; for(auto& p : m) s-=p.second/t*std::log2(p.second/t); return s;}
static double refMI(const Ref& e, bool norm) {
    double s=0; for(auto& p : e.joint) s+=p.second/e.total*std::log2(p.second*e.total/((double)e.marg[0].at(p.first[0])*e.marg[1].at(p.first[1])));
    const double a=entropy(e.marg[0],e.total),b=entropy(e.marg[1],e.total);
    return norm&&a>0&&b>0?s/std::sqrt(a*b):s;
}
template<size_t Q, bool SP, bool FAST, bool SKIP, typename A, typename B> static void pairCase(vh::Case& c) {
    auto& r=c.rng; static lv::JointHistData<SP,A,B> shared; static lv::JointHistData<SP,B,A> sharedR;
    const int rows=(int)r.range(1,20),cols=(int)r.range(1,20); cv::Mat pa,pb; const bool narrow=!SP&&(sizeof(A)+sizeof(B)>2);
    const cv::Mat_<A> a=rmat<A>(r,rows,cols,pa,narrow); cv::Mat_<B> b=rmat<B>(r,rows,cols,pb,narrow);
    if(r.chance(20)) b.setTo(cv::Scalar((double)std::numeric_limits<B>::min()));
    c.desc(vh::str("step ",Q,SP?" sparse":" dense",FAST?" fast":"",SKIP?" full-range ":" ",rows,"x",cols," types ",a.type(),"/",b.type()));
    const auto ba=bytes(a),bb=bytes(b); const Ref e=refHist<Q,SKIP>(a,b);
    const bool reuse=r.chance(70); lv::JointHistData<SP,A,B> fresh; lv::JointHistData<SP,A,B>& h=reuse?shared:fresh;
    lv::calcJointProbHist<Q,SP,FAST,SKIP>(std::make_tuple(a,b),h); checkHist(c,h,e,FAST);
    const double tol=2e-4;
    const double mi=lv::calcMutualInfo<Q,SP,false,FAST,SKIP>(a,b,r.chance(70)?&h:nullptr),ref=refMI(e,false);
    c.check(std::abs(mi-ref)<tol,"mi-value",vh::str("mutual information is ",mi," instead of ",ref));
    c.check(mi>-1e-4,"mi-negative",vh::str("mutual information is ",mi));
    const double nmi=lv::calcMutualInfo<Q,SP,true,FAST,SKIP>(a,b,r.chance(70)?&h:nullptr),nref=refMI(e,true);
    c.check(std::abs(nmi-nref)<5e-4||std::min(entropy(e.marg[0],e.total),entropy(e.marg[1],e.total))<1e-2,"nmi-value",vh::str("normalised mutual information is ",nmi," instead of ",nref));
    const double mr=lv::calcMutualInfo<Q,SP,false,FAST,SKIP>(b,a,r.chance(70)?&sharedR:nullptr); c.check(std::abs(mr-mi)<tol,"mi-symmetry",vh::str("swapping the images changes ",mi," into ",mr));
    const double self=lv::calcMutualInfo<Q,(SP||sizeof(A)>1),false,FAST,SKIP>(a,a); c.check(std::abs(self-entropy(e.marg[0],e.total))<tol,"mi-self",vh::str("self information ",self," is not the entropy"));
    c.check(bytes(a)==ba&&bytes(b)==bb,"mi-input","an input image was modified");
    c.nontrivial(c.desc_+vh::str(vh::hbytes(ba),vh::hbytes(bb)));
}
SCENARIO("pairs_8u",900,20000) {
    switch(c.rng.below(8)) {
        case 0: return pairCase<1,true,false,false,uchar,uchar>(c);
        case 1: return pairCase<1,false,false,false,uchar,uchar>(c);
        case 2: return pairCase<4,true,false,false,uchar,uchar>(c);
        case 3: return pairCase<7,false,false,false,uchar,uchar>(c);
        case 4: return pairCase<1,true,false,true,uchar,uchar>(c);
        case 5: return pairCase<5,false,false,true,uchar,uchar>(c);
        case 6: return pairCase<1,true,true,false,uchar,uchar>(c);
        default: return pairCase<3,false,true,false,uchar,uchar>(c);
    }
}
SCENARIO("pairs_mixed",600,15000) {
    switch(c.rng.below(8)) {
        case 0: return pairCase<1,true,false,false,ushort,uchar>(c);
        case 1: return pairCase<1,false,false,false,ushort,uchar>(c);
        case 2: return pairCase<3,true,false,false,short,ushort>(c);
        case 3: return pairCase<2,false,false,false,schar,short>(c);
        case 4: return pairCase<1,true,false,false,int,schar>(c);
        case 5: return pairCase<6,true,false,true,int,short>(c);
        case 6: return pairCase<2,true,true,false,short,uchar>(c);
        default: return pairCase<1,true,false,true,schar,uchar>(c);
    }
}
template<size_t Q, bool SP, bool FAST, typename A, typename B, typename C_> static void tripleCase(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(1,12),cols=(int)r.range(1,12); cv::Mat p1,p2,p3; static lv::JointHistData<SP,A,B,C_> shared; lv::JointHistData<SP,A,B,C_> fresh;
    auto lim=[&](auto m){if(!SP) for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) m(y,x)=m(y,x)%17; return m;};
    const cv::Mat_<A> a=lim(rmat<A>(r,rows,cols,p1,true)); const cv::Mat_<B> b=lim(rmat<B>(r,rows,cols,p2,true)); const cv::Mat_<C_> d=lim(rmat<C_>(r,rows,cols,p3,true));
    c.desc(vh::str("triple step ",Q,SP?" sparse ":" dense ",rows,"x",cols)); auto& h=r.chance(60)?shared:fresh;
    lv::calcJointProbHist<Q,SP,FAST>(std::make_tuple(a,b,d),h); checkHist(c,h,refHist<Q,false>(a,b,d),FAST); c.nontrivial(c.desc_+vh::str(vh::hbytes(bytes(a))));
}
SCENARIO("triples",250,5000) {
    switch(c.rng.below(4)) {
        case 0: return tripleCase<1,true,false,uchar,uchar,uchar>(c);
        case 1: return tripleCase<2,false,false,uchar,uchar,uchar>(c);
        case 2: return tripleCase<3,true,false,short,int,uchar>(c);
        default: return tripleCase<1,true,true,schar,ushort,uchar>(c);
    }
}
static double classRef(const cv::Mat& a, const cv::Mat& b, bool norm) {
    if(a.type()==CV_8UC3||b.type()==CV_8UC3) {const cv::Mat_<ushort> p=lv::cvtBGRToPackedYCbCr(a.type()==CV_8UC3?a:b); const cv::Mat_<uchar> q=a.type()==CV_8UC3?b:a; return refMI(refHist<1,false>(p,q),norm);}
    return refMI(refHist<1,false>(cv::Mat_<uchar>(a),cv::Mat_<uchar>(b)),norm);
}
static bool lowEnt(const cv::Mat& a, const cv::Mat& b) {
    const auto low=[](const cv::Mat& m){if(m.type()==CV_8UC3) {const cv::Mat_<ushort> p=lv::cvtBGRToPackedYCbCr(m); const Ref e=refHist<1,false>(p,p); return entropy(e.marg[0],e.total)<1e-2;} const cv::Mat_<uchar> u=m; const Ref e=refHist<1,false>(u,u); return entropy(e.marg[0],e.total)<1e-2;};
    return low(a)||low(b);
}
template<size_t Q> static void wideCase(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(1,6),cols=(int)r.range(2,6); cv::Mat_<int> a(rows,cols),b(rows,cols);
    for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {a(y,x)=(int)r.u32(); b(y,x)=(int)r.below(3);}
    if(r.chance(50)) {a(0,0)=INT_MIN; a(0,1)=INT_MAX;}
    double mn,mx; cv::minMaxIdx(a,&mn,&mx); const bool ok=std::floor((mx-mn)/Q)+1<(double)INT_MAX; c.desc(vh::str("32-bit values over a range of ",mx-mn," step ",Q));
    lv::JointSparseHistData<int,int> h; bool thrown=false; try {lv::calcJointProbHist<Q>(std::make_tuple(a,b),h);} catch(const lv::Exception&) {thrown=true;}
    c.check(thrown!=ok,"wide-refuse",ok?"a range that fits was refused":"a range that does not fit in the histogram was accepted");
    if(ok) checkHist(c,h,refHist<Q,false>(a,b),false);
    c.nontrivial(c.desc_);
}
SCENARIO("wide_range",200,3000) {
    switch(c.rng.below(3)) {case 0: return wideCase<1>(c); case 1: return wideCase<2>(c); default: return wideCase<1000>(c);}
}
SCENARIO("windows",220,4000) {
    auto& r=c.rng; const int n=(int)r.range(1,3); std::string d;
    for(int k=0; k<n; ++k) {
        const int ww=2*(int)r.range(0,5)+1,wh=2*(int)r.range(0,5)+1; const bool norm=r.chance(50),b24=r.chance(50),dense=r.chance(b24?6:50);
        const int rows=wh+(int)r.below(8),cols=ww+(int)r.below(8); const int mode=b24?(int)r.below(3):0; cv::Mat pa,pb;
        cv::Mat a=image(r,rows,cols,mode==1?CV_8UC3:CV_8UC1,(int)r.below(6)),b=image(r,rows,cols,mode==2?CV_8UC3:CV_8UC1,(int)r.below(6)); if(r.chance(40)) a=embed(r,a,pa); if(r.chance(40)) b=embed(r,b,pb);
        d+=vh::str("win ",ww,"x",wh,norm?" norm":"",dense?" dense":"",b24?" 24b":""," ",shape(a),"/",shape(b),"; "); c.desc(d);
        MutualInfo m(cv::Size(ww,wh),norm,dense,b24); c.check(m.windowSize()==cv::Size(ww,wh)&&m.borderSize(0)==ww/2&&m.borderSize(1)==wh/2,"win-info","wrong window properties");
        std::vector<cv::KeyPoint> kps; for(size_t i=r.below(6); i>0; --i) kps.emplace_back(cv::Point2f((float)(ww/2+(int)r.below(cols-ww+1)),(float)(wh/2+(int)r.below(rows-wh+1))),1.f);
        const auto ip=kps; if(r.chance(30)) for(auto& q : kps) {q.pt.x+=(float)r.real(-0.4,0.4); q.pt.y+=(float)r.real(-0.4,0.4);} // nearest pixels stay the same
        std::vector<double> s; if(r.chance(30)) s.resize(9,5.); m.compute(a,b,kps,s); c.check(s.size()==kps.size(),"win-count","one score per key point");
        for(size_t i=0; i<kps.size(); ++i) {
            const cv::Rect w((int)ip[i].pt.x-ww/2,(int)ip[i].pt.y-wh/2,ww,wh); const double e=classRef(a(w).clone(),b(w).clone(),norm); if(norm&&lowEnt(a(w).clone(),b(w).clone())) continue;
            c.check(std::abs(s[i]-e)<5e-4,"win-score",vh::str("score ",s[i]," instead of ",e));
            const double one=m.compute(a(w),b(w)); c.check(std::abs(one-s[i])<1e-4,"win-single",vh::str("single-window score ",one," differs from key-point score ",s[i]));
        }
        if(r.chance(30)) {std::vector<cv::KeyPoint> bad; bad.emplace_back(cv::Point2f((float)(r.chance(50)?cols-ww/2:ww/2-1),(float)(wh/2)),1.f); c.check(throws([&]{m.compute(a,b,bad);}),"win-oob","a window outside of the image was accepted");}
        std::vector<cv::KeyPoint> any; for(int i=0; i<10; ++i) any.emplace_back(cv::Point2f((float)r.real(-1,cols),(float)r.real(-1,rows)),1.f); m.validateKeyPoints(any,a.size());
        c.check(!throws([&]{m.compute(a,b,any);}),"win-validate","a validated key point is refused");
        if(rows>wh&&cols>ww) {cv::Mat roi=image(r,rows,cols,CV_8UC1,4); const cv::Mat roi0=roi.clone(); m.validateROI(roi); c.check(roi.size()==roi0.size()&&roi.type()==CV_8UC1,"win-roi","validateROI changed the shape");
        for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {
            const bool fits=x>=ww/2&&y>=wh/2&&x+ww/2<cols&&y+wh/2<rows,last=x+ww/2==cols-1||y+wh/2==rows-1; const int g=roi.at<uchar>(y,x),e=roi0.at<uchar>(y,x); // whether the last position that fits is kept is left open
            c.check(!fits?g==0:last?(g==0||g==e):g==e,"win-roi",vh::str("validateROI left ",g," at (",x,",",y,") of ",cols,"x",rows));
        }}
    }
    c.nontrivial(d);
}
SCENARIO("threads",25,400) {
    auto& r=c.rng; const int T=4; std::vector<std::string> err(T); std::vector<uint64_t> seeds; for(int t=0; t<T; ++t) seeds.push_back(r.u64()); c.desc("four threads share the class");
    MutualInfo m(cv::Size(7,5),false,false,true); std::vector<std::thread> th;
    for(int t=0; t<T; ++t) th.emplace_back([&,t]{vh::Rng q(seeds[t]); for(int k=0; k<6; ++k) {const cv::Mat a=image(q,5,7,q.chance(40)?CV_8UC3:CV_8UC1,(int)q.below(6)),b=image(q,5,7,CV_8UC1,(int)q.below(6)); const double g=m.compute(a,b),e=classRef(a,b,false); if(std::abs(g-e)>5e-4) err[t]=vh::str(g," instead of ",e);}});
    for(auto& x : th) x.join();
    for(auto& e : err) c.check(e.empty(),"threads","concurrent computations disturb each other: "+e);
    c.nontrivial(vh::str(seeds[0]));
}
VH_MAIN
