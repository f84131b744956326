// C11: DASC and LSS dense descriptors
#include "litiv/features2d.hpp"
#include "vh.hpp"
#include "cvgen.hpp"
#include "dasc_tables.inc"
using namespace cg;
typedef cv::Mat_<double> MD;

static bool finiteAll(const cv::Mat_<float>& m) {for(auto it=m.begin(); it!=m.end(); ++it) if(!std::isfinite(*it)) return false; return true;}
static const float* at3(const cv::Mat& m, int y, int x) {return m.ptr<float>(y,x);}
static void checkMap(vh::Case& c, const cv::Mat& m, int rows, int cols, int n, bool unit, double hi=1.0001) {
    c.check(m.type()==CV_32FC1&&m.dims==3&&m.size[0]==rows&&m.size[1]==cols&&m.size[2]==n,"map-shape","descriptor map has the wrong shape or type: "+shape(m));
    for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {
        const float* p=at3(m,y,x); double s=0;
        for(int k=0; k<n; ++k) {
            c.checkf(std::isfinite(p[k])&&p[k]>=0&&p[k]<=hi,"map-range",[&]{return vh::str("entry ",k," of descriptor (",y,",",x,") is ",p[k]);});
            s+=(double)p[k]*p[k];
        }
        if(unit) c.checkf(std::abs(std::sqrt(s)-1)<1e-4,"map-norm",[&]{return vh::str("norm of descriptor (",y,",",x,") is ",std::sqrt(s));});
    }
}
static bool closeMaps(const cv::Mat& a, const cv::Mat& b, double tol, std::string& why) {
    if(!sameShape(a,b)) {why="shapes differ: "+shape(a)+" vs "+shape(b); return false;}
    const cv::Mat ac=a.clone(),bc=b.clone(); const float* p=(const float*)ac.data; const float* q=(const float*)bc.data;
    for(size_t i=0; i<ac.total(); ++i) if(!(std::abs(p[i]-q[i])<=tol)) {why=vh::str("entry ",i,": ",p[i]," vs ",q[i]); return false;}
    return true;
}
static std::vector<cv::KeyPoint> randKps(vh::Rng& r, int rows, int cols, bool sub, int B=0) {
    std::vector<cv::KeyPoint> k; const int n=(int)r.range(0,12);
    for(int i=0; i<n; ++i) {
        const int b=r.chance(60)&&2*B<std::min(rows,cols)?B:0; // many inside the border
        float x=(float)r.range(b,cols-1-b),y=(float)r.range(b,rows-1-b);
        if(sub) {x+=(float)r.real(-0.5,0.5); y+=(float)r.real(-0.5,0.5);}
        k.emplace_back(cv::Point2f(x,y),1.f,-1.f,0.f,0,(int)i);
    }
    return k;
}
/// value expected for a key point: the dense map's at its (rounded or truncated) pixel
static bool kpMatches(const cv::Mat& dense, const cv::KeyPoint& k, const float* d, int n, double tol) {
    for(int ry=0; ry<2; ++ry) for(int rx=0; rx<2; ++rx) {
        const int y=ry?cvRound(k.pt.y):(int)k.pt.y,x=rx?cvRound(k.pt.x):(int)k.pt.x;
        if(y<0||x<0||y>=dense.size[0]||x>=dense.size[1]) continue;
        const float* p=at3(dense,y,x); bool ok=true;
        for(int i=0; i<n&&ok; ++i) ok=std::abs(p[i]-d[i])<=tol;
        if(ok) return true;
    }
    return false;
}
template<typename D> static void keypointChecks(vh::Case& c, D& d, const cv::Mat& img, const cv::Mat& dense, int n, double tol) {
    auto& r=c.rng; const int B=d.borderSize(); const bool sub=r.chance(40);
    const auto k0=randKps(r,img.rows,img.cols,sub,B); auto k1=k0; cv::Mat desc; if(r.chance(50)) desc=cv::Mat(3,4,CV_32FC1,cv::Scalar(7));
    auto kept=k0; cv::KeyPointsFilter::runByImageBorder(kept,img.size(),B);
    cv::Feature2D& f=d; f.compute(img,k1,desc);
    c.check(k1.size()==kept.size(),"kp-count",vh::str(k1.size()," key points were kept instead of ",kept.size()));
    for(size_t i=0; i<k1.size(); ++i) c.check(k1[i].class_id==kept[i].class_id,"kp-order","key points are not in their original order");
    if(k1.empty()) c.check(desc.empty(),"kp-empty","descriptors for no key point");
    else {
        c.check(desc.rows==(int)k1.size()&&desc.cols==n&&desc.type()==CV_32FC1,"kp-shape","bad descriptor matrix "+shape(desc));
        for(int i=0; i<desc.rows; ++i) c.checkf(kpMatches(dense,k1[i],desc.ptr<float>(i),n,tol),"kp-value",[&]{return vh::str("descriptor of key point (",k1[i].pt.y,",",k1[i].pt.x,") differs from the dense map");});
    }
    std::vector<cv::KeyPoint> k2; if(r.chance(30)) k2=k0; cv::Mat d2; cv::Mat mask; if(r.chance(60)) mask=image(r,img.rows,img.cols,CV_8UC1,4);
    f.detectAndCompute(img,mask,k2,d2,false);
    size_t e=0; for(int y=B; y<img.rows-B; ++y) for(int x=B; x<img.cols-B; ++x) e+=mask.empty()||mask.at<uchar>(y,x);
    c.check(k2.size()==e,"kp-detect",vh::str(k2.size()," key points instead of ",e));
    for(size_t i=0; i<k2.size(); ++i) c.check(kpMatches(dense,k2[i],d2.ptr<float>((int)i),n,tol),"kp-detect-value","descriptor of a dense key point differs from the map");
    {
        auto k4=k0; cv::Mat d4; f.detectAndCompute(img,mask,k4,d4,true); // the given key points, where the mask is set
        auto e4=kept; if(!mask.empty()) cv::KeyPointsFilter::runByPixelsMask(e4,mask);
        c.check(k4.size()==e4.size(),"kp-masked-count",vh::str(k4.size()," of the given key points were described instead of ",e4.size())); c.check(k4.empty()?d4.empty():d4.rows==(int)k4.size(),"kp-masked-shape","bad descriptor matrix "+shape(d4));
        for(size_t i=0; i<k4.size(); ++i) {c.check(k4[i].class_id==e4[i].class_id,"kp-masked-order","other key points than the ones under the mask were described"); c.check(kpMatches(dense,k4[i],d4.ptr<float>((int)i),n,tol),"kp-masked-value","descriptor of a given key point under a mask differs from the map");}
    }
    auto k3=k0; d.validateKeyPoints(k3,img.size()); c.check(k3.size()==kept.size(),"kp-validate","validateKeyPoints kept other key points");
    cv::Mat roi=image(r,img.rows,img.cols,CV_8UC1,4); const cv::Mat roi0=roi.clone(); d.validateROI(roi);
    for(int y=0; y<roi.rows; ++y) for(int x=0; x<roi.cols; ++x) {
        const bool in=y>=B&&x>=B&&y<roi.rows-B&&x<roi.cols-B;
        c.checkf(roi.at<uchar>(y,x)==(in?roi0.at<uchar>(y,x):0),"roi",[&]{return vh::str("validateROI left ",(int)roi.at<uchar>(y,x)," at (",y,",",x,")");});
    }
    // distances
    if(k2.size()>=2) {
        const int a=(int)r.below(k2.size()),b=(int)r.below(k2.size()); double s=0; for(int i=0; i<n; ++i) s+=std::pow((double)d2.at<float>(a,i)-d2.at<float>(b,i),2);
        c.check(std::abs(d.calcDistance(d2.ptr<float>(a),d2.ptr<float>(b))-std::sqrt(s))<1e-5,"dist","calcDistance is not the L2 distance");
        cv::Mat_<float> m1=d2,m2=d2.clone(),out; cv::flip(m2,m2,0); d.calcDistances(m1,m2,out);
        c.check(out.rows==m1.rows&&out.cols==1,"dists-shape","bad distance list shape");
        for(int i=0; i<out.rows; ++i) c.check(std::abs(out(i)-d.calcDistance(m1.ptr<float>(i),m2.ptr<float>(i)))<1e-5,"dists","calcDistances entry differs");
        {
            const int dm[3]={(int)r.range(1,6),(int)r.range(1,6),n}; cv::Mat_<float> a3(3,dm),b3(3,dm),o3; if(r.chance(40)) o3.create((int)r.range(1,7),(int)r.range(1,7));
            for(size_t i=0; i<a3.total(); ++i) {((float*)a3.data)[i]=(float)r.unit(); ((float*)b3.data)[i]=r.chance(20)?((float*)a3.data)[i]:(float)r.unit();}
            d.calcDistances(a3,b3,o3); c.check(o3.rows==dm[0]&&o3.cols==dm[1],"dists-map-shape",vh::str("distance map of ",dm[0],"x",dm[1]," descriptors is ",o3.rows,"x",o3.cols));
            for(int y=0; y<dm[0]; ++y) for(int x=0; x<dm[1]; ++x) {double q=0; const float *pa=at3(a3,y,x),*pb=at3(b3,y,x); for(int i=0; i<n; ++i) q+=std::pow((double)pa[i]-pb[i],2); c.check(std::abs(o3(y,x)-std::sqrt(q))<1e-3,"dists-map","distance map entry is not the L2 distance of its two descriptors");}
            cv::Mat rs; cv::Mat(dm[0]*dm[1],n,CV_32FC1,a3.data).copyTo(rs); d.reshapeDesc(cv::Size(dm[1],dm[0]),rs);
            c.check(rs.dims==3&&rs.size[0]==dm[0]&&rs.size[1]==dm[1]&&rs.size[2]==n&&!memcmp(rs.data,a3.data,a3.total()*4),"reshape-map","reshapeDesc moved descriptors");
        }
        if(mask.empty() && k2.size()==(size_t)img.rows*img.cols) {cv::Mat rs=d2.clone(); d.reshapeDesc(img.size(),rs); c.check(rs.dims==3,"reshape","reshapeDesc");}
    }
    if(r.chance(40)) { // collections: one map per image and key point list
        cv::Mat im0; cv::flip(img,im0,1); std::vector<cv::Mat> vi{im0,img}; std::vector<std::vector<cv::KeyPoint>> vk{randKps(r,img.rows,img.cols,false),randKps(r,img.rows,img.cols,false)},sk=vk; std::vector<cv::Mat_<float>> vm; d.compute2(vi,vk,vm); c.check(vm.size()==2,"kp-batch","one map per image expected");
        for(size_t i=0; i<2; ++i) {cv::Mat_<float> one; d.compute2(vi[i],sk[i],one); std::string why; c.check(vk[i].size()==sk[i].size(),"kp-batch","collection keeps other key points"); for(size_t j=0; j<sk[i].size(); ++j) {const int y=cvRound(sk[i][j].pt.y),x=cvRound(sk[i][j].pt.x); for(int q=0; q<n; ++q) c.check(std::abs(at3(vm[i],y,x)[q]-at3(one,y,x)[q])<=tol,"kp-batch","collection map differs from the single call");}}
    }
    c.stat("keypoints",k1.size()+k2.size());
}

// ---------------------------------------------------------------- LSS
struct LssP {int in,out,patch,ang,rad; float var; bool norm,pre,ln; int win() const {return out*2+patch;} int n() const {return ang*rad;}
    std::string s() const {return vh::str("in ",in," out ",out," patch ",patch," ang ",ang," rad ",rad," var ",var,norm?" norm":"",pre?" pre":"",ln?" lienhart":" chatfield");}
    std::unique_ptr<LSS> make() const {return std::unique_ptr<LSS>(new LSS(in,out,patch,ang,rad,var,norm,pre,ln));}};
static LssP randLss(vh::Rng& r) {
    LssP p; p.patch=(int)r.pick({1,3,5}); p.out=(int)r.range(std::max(p.patch,2),std::max(p.patch,2)+4); p.ln=r.chance(60); p.in=p.ln?(int)r.below(std::min(p.out,4)):0;
    p.ang=(int)r.range(1,14); p.rad=(int)r.range(1,5); p.var=(float)r.pick({2000,30000,300000}); p.norm=r.chance(60); p.pre=r.chance(50); return p;
}
static cv::Mat lssImage(vh::Rng& r, const LssP& p, cv::Mat& parent) {
    const int rows=p.win()+(int)r.below(9),cols=p.win()+(int)r.below(9); cv::Mat m=image(r,rows,cols,r.chance(50)?CV_8UC1:CV_8UC3,(int)r.below(6));
    if(!p.pre && r.chance(40)) return embed(r,m,parent);
    return m;
}
SCENARIO("lss_ref",130,2600) {
    auto& r=c.rng; const LssP p=randLss(r); cv::Mat parent; const cv::Mat img=lssImage(r,p,parent); c.desc(vh::str(p.s()," ",shape(img)));
    const auto before=bytes(parent.empty()?img:parent); auto d=p.make(); const int n=p.n();
    c.check(d->windowSize()==cv::Size(p.win(),p.win())&&d->borderSize()==p.win()/2&&d->descriptorSize()==n*4&&d->descriptorType()==CV_32F&&d->defaultNorm()==cv::NORM_L2,"lss-info","wrong descriptor properties");
    const lv::MatInfo info=d->getOutputInfo(lv::MatInfo(img));
    cv::Mat_<float> m; d->compute2(img,m); c.check(bytes(parent.empty()?img:parent)==before,"lss-input","image was modified");
    checkMap(c,m,img.rows,img.cols,n,p.norm); c.check(lv::MatInfo(m)==info,"lss-outinfo","getOutputInfo does not describe the map");
    cv::Mat src=img.clone(); if(p.pre) cv::GaussianBlur(img.clone(),src,cv::Size(7,7),1.0);
    cv::Mat_<int> mask; lv::getLogPolarMask(p.out*2+1,p.rad,p.ang,mask,p.ln,(float)p.in);
    const int W=p.win()/2,P=p.patch/2,ch=src.channels(); size_t cmp=0;
    for(int y=W; y<src.rows-W; ++y) for(int x=W; x<src.cols-W; ++x) {
        if(!r.chance(30) && !(y==W||x==W||y==src.rows-W-1||x==src.cols-W-1)) continue;
        std::vector<double> lo(n,1e300),hi(n,1e300); double tE=0; 
        for(int v=-P; v<=P; ++v) for(int u=-P; u<=P; ++u) for(int k=0; k<ch; ++k) tE+=std::pow((double)src.ptr<uchar>(y+v)[(x+u)*ch+k],2);
        for(int dy=-p.out; dy<=p.out; ++dy) for(int dx=-p.out; dx<=p.out; ++dx) {
            const int bin=mask(dy+p.out,dx+p.out); if(bin<0) continue;
            double s=0,wE=0; for(int v=-P; v<=P; ++v) for(int u=-P; u<=P; ++u) for(int k=0; k<ch; ++k) {const double q=src.ptr<uchar>(y+dy+v)[(x+dx+u)*ch+k]; s+=std::pow(q-src.ptr<uchar>(y+v)[(x+u)*ch+k],2); wE+=q*q;}
            const double e=1+2e-6*(wE+tE)*4; lo[bin]=std::min(lo[bin],s-e); hi[bin]=std::min(hi[bin],s+e);
        }
        double nl=0,nh=0; for(int k=0; k<n; ++k) {const double a=hi[k]>1e299?0:std::exp(-hi[k]/p.var),b=lo[k]>1e299?0:std::exp(-lo[k]/p.var); lo[k]=a; hi[k]=b; nl+=a*a; nh+=b*b;}
        nl=std::sqrt(nl); nh=std::sqrt(nh);
        if(p.norm) {if(nl<1e-3) continue; for(int k=0; k<n; ++k) {lo[k]/=nh; hi[k]/=nl;}}
        const float* q=at3(m,y,x);
        for(int k=0; k<n; ++k) c.checkf(q[k]>=lo[k]-1e-5&&q[k]<=hi[k]+1e-5,"lss-value",[&]{return vh::str("bin ",k," at (",y,",",x,") is ",q[k]," instead of ",(lo[k]+hi[k])/2);});
        ++cmp;
    }
    c.stat("pixels",cmp); c.nontrivial(c.desc_+vh::str(vh::hbytes(before)));
}
SCENARIO("lss_variants",90,1800) {
    auto& r=c.rng; const LssP p=randLss(r); cv::Mat parent; const cv::Mat img=lssImage(r,p,parent); c.desc(vh::str(p.s()," ",shape(img)));
    auto d=p.make(); cv::Mat_<float> m; d->compute2(img,m);
    keypointChecks(c,*d,img,m,p.n(),1e-5);
    auto kp=randKps(r,img.rows,img.cols,false); cv::Mat_<float> km; const bool used=r.chance(60);
    if(used) {km.create(3,std::array<int,3>{{img.rows,img.cols,p.n()}}.data()); const uchar junk=(uchar)r.pick({0,255}); memset(km.data,junk,km.total()*4);}
    d->compute2(img,kp,km);
    if(!kp.empty()) {
        c.check(finiteAll(km),"lss-kpmap-finite","descriptor map computed at key points holds non-finite values");
        c.check(km.dims==3&&km.size[0]==img.rows&&km.size[1]==img.cols&&km.size[2]==p.n(),"lss-kpmap-shape","bad map shape "+shape(km));
        for(auto& k : kp) {const float* a=at3(km,cvRound(k.pt.y),cvRound(k.pt.x)); for(int i=0; i<p.n(); ++i) c.check(std::abs(a[i]-at3(m,cvRound(k.pt.y),cvRound(k.pt.x))[i])<1e-5,"lss-kpmap","key-point map differs from the dense map");}
    }
    c.nontrivial(c.desc_+vh::str(vh::hbytes(bytes(img))));
}
SCENARIO("lss_history",40,800) {
    auto& r=c.rng; const LssP p=randLss(r),p2=randLss(r); auto d=p.make(),o=p2.make(); c.desc(p.s()+" / "+p2.s());
    std::vector<cv::Mat> imgs; std::vector<cv::Mat_<float>> all; cv::Mat reuse; cv::Mat_<float> reuse_;
    const int n=(int)r.range(2,4);
    for(int i=0; i<n; ++i) {
        cv::Mat pa,pb; const cv::Mat img=lssImage(r,p,pa); imgs.push_back(img); std::string why;
        if(r.chance(50)) {const cv::Mat other=lssImage(r,p2,pb); cv::Mat_<float> t; o->compute2(other,t);}
        cv::Mat_<float> fresh; {auto q=p.make(); q->compute2(img,fresh);}
        d->compute2(img,reuse_); c.check(closeMaps(reuse_,fresh,1e-5,why),"lss-history","result depends on earlier calls: "+why);
        d->compute2(img,reuse); c.check(closeMaps(reuse,fresh,1e-5,why),"lss-history-mat","result in a reused matrix is wrong: "+why);
        all.push_back(fresh.clone());
    }
    std::vector<cv::Mat_<float>> batch; if(r.chance(40)) batch.resize(r.below(6)); d->compute2(imgs,batch); c.check(batch.size()==imgs.size(),"lss-batch-size","batch size");
    std::string why; for(size_t i=0; i<imgs.size(); ++i) c.check(closeMaps(batch[i],all[i],1e-5,why),"lss-batch","batch result differs: "+why);
    c.nontrivial(c.desc_);
}
SCENARIO("lss_refused",60,600) {
    auto& r=c.rng; const LssP p=randLss(r); auto d=p.make(); const bool tiny=r.chance(50); cv::Mat_<float> m;
    const cv::Mat img=tiny?image(r,r.chance(50)?p.win()-1:p.win(),p.win()-1,CV_8UC1,0):image(r,p.win()+2,p.win()+2,(int)r.pick({CV_8UC2,CV_8UC4,CV_16UC1,CV_32FC1}),0);
    c.desc(vh::str(p.s()," ",shape(img))); c.check(throws([&]{d->compute2(img,m);}),"lss-refuse","unsupported image was accepted");
    c.check(throws([&]{d->getOutputInfo(lv::MatInfo(img));}),"lss-refuse-info","unsupported image info was accepted");
    c.nontrivial(c.desc_);
}

// ---------------------------------------------------------------- DASC
struct DascP {bool rf; float s,rr; size_t it; size_t rad; float eps; size_t sub; bool pre;
    std::string str_() const {return rf?vh::str("rf ",s," ",rr," it ",it,pre?" pre":""):vh::str("gf ",rad," ",eps," sub ",sub,pre?" pre":"");}
    std::unique_ptr<DASC> make() const {return rf?std::unique_ptr<DASC>(new DASC(s,rr,it,pre)):std::unique_ptr<DASC>(new DASC(rad,eps,sub,pre));}};
static DascP randDasc(vh::Rng& r) {DascP p; p.rf=r.chance(50); p.s=(float)r.pick({1,2,4,8}); p.rr=(float)r.real(0.05,1); p.it=(size_t)r.range(1,3); p.rad=(size_t)r.range(1,5); p.eps=(float)r.real(0.01,0.3); p.sub=r.chance(60)?1:(size_t)r.range(1,(int)p.rad); p.pre=r.chance(50); return p;}
static cv::Mat dascImage(vh::Rng& r, cv::Mat& parent) {
    const int rows=31+(int)r.below(8),cols=31+(int)r.below(8); cv::Mat m=image(r,rows,cols,r.chance(50)?CV_8UC1:CV_8UC3,(int)r.below(6));
    if(r.chance(40)) m.convertTo(m,CV_32F,1.0/255);
    if(r.chance(40)) return embed(r,m,parent);
    return m;
}
static MD rfilter(const MD& in, const std::vector<MD>& H, const std::vector<MD>& V) {
    MD o=in.clone(); const int R=o.rows,C=o.cols;
    for(size_t k=0; k<H.size(); ++k) {
        for(int y=0; y<R; ++y) {for(int x=1; x<C; ++x) o(y,x)=(1-H[k](y,x))*o(y,x)+H[k](y,x)*o(y,x-1); for(int x=C-2; x>=0; --x) o(y,x)=(1-H[k](y,x+1))*o(y,x)+H[k](y,x+1)*o(y,x+1);}
        for(int x=0; x<C; ++x) {for(int y=1; y<R; ++y) o(y,x)=(1-V[k](y,x))*o(y,x)+V[k](y,x)*o(y-1,x); for(int y=R-2; y>=0; --y) o(y,x)=(1-V[k](y+1,x))*o(y,x)+V[k](y+1,x)*o(y+1,x);}
    }
    return o;
}
static MD box(const MD& m, int r) {cv::Mat o; cv::blur((const cv::Mat&)m,o,cv::Size(2*r+1,2*r+1)); return o;}
static MD mulm(const MD& a, const MD& b) {return MD(cv::Mat(a.mul(b)));}
SCENARIO("dasc_ref",16,160) {
    auto& r=c.rng; DascP p=randDasc(r); cv::Mat parent; const cv::Mat img=dascImage(r,parent); c.desc(vh::str(p.str_()," ",shape(img)));
    const auto before=bytes(parent.empty()?img:parent); auto d=p.make();
    c.check(d->borderSize()==15&&d->windowSize()==cv::Size(31,31)&&d->descriptorSize()==512&&d->isUsingRF()==p.rf&&d->isPreProcessing()==p.pre&&d->descriptorType()==CV_32F,"dasc-info","wrong descriptor properties");
    cv::Mat_<float> m; d->compute2(img,m); c.check(bytes(parent.empty()?img:parent)==before,"dasc-input","image was modified");
    checkMap(c,m,img.rows,img.cols,128,true); c.check(lv::MatInfo(m)==d->getOutputInfo(lv::MatInfo(img)),"dasc-outinfo","getOutputInfo does not describe the map");
    cv::Mat g=img.clone(); if(g.depth()==CV_8U) g.convertTo(g,CV_32F,1.0/255); if(g.channels()==3) cv::cvtColor(g,g,cv::COLOR_BGR2GRAY); if(p.pre) {cv::Mat t; cv::GaussianBlur(g,t,cv::Size(7,7),1.0); g=t;}
    MD I; g.convertTo(I,CV_64F); const int R=I.rows,C=I.cols;
    std::function<MD(const MD&)> filt;
    std::vector<MD> H,V; MD Is,Ib,var; int kr=0; cv::Size ss;
    if(p.rf) {
        for(size_t k=0; k<p.it; ++k) {
            const double b=std::exp(-std::sqrt(2.0)/(p.s*std::sqrt(3.0)*std::pow(2.0,(double)p.it-(k+1))/std::sqrt(std::pow(4.0,(double)p.it)-1))); MD h(R,C),v(R,C);
            for(int y=0; y<R; ++y) for(int x=0; x<C; ++x) {h(y,x)=std::pow(b,1+p.s/p.rr*(x?std::abs(I(y,x-1)-I(y,x)):0)); v(y,x)=std::pow(b,1+p.s/p.rr*(y?std::abs(I(y-1,x)-I(y,x)):0));}
            H.push_back(h); V.push_back(v);
        }
        filt=[&](const MD& a){return rfilter(a,H,V);};
    }
    else {
        ss=cv::Size(int(C/p.sub),int(R/p.sub)); kr=(int)(p.rad/p.sub); {cv::Mat t; cv::resize((const cv::Mat&)I,t,ss,0,0,cv::INTER_NEAREST); Is=t;} Ib=box(Is,kr); {const MD q=box(mulm(Is,Is),kr); var=MD(cv::Mat(q-mulm(Ib,Ib)+(double)p.eps));}
        filt=[&](const MD& a){cv::Mat t; cv::resize((const cv::Mat&)a,t,ss,0,0,cv::INTER_NEAREST); const MD as=t; const MD ab=box(as,kr),cb=box(mulm(Is,as),kr); MD A(as.size()),B(as.size());
            for(int y=0; y<A.rows; ++y) for(int x=0; x<A.cols; ++x) {A(y,x)=(cb(y,x)-Ib(y,x)*ab(y,x))/var(y,x); B(y,x)=ab(y,x)-A(y,x)*Ib(y,x);}
            cv::Mat A2,B2; cv::resize((const cv::Mat&)box(A,kr),A2,I.size(),0,0,cv::INTER_LINEAR); cv::resize((const cv::Mat&)box(B,kr),B2,I.size(),0,0,cv::INTER_LINEAR); return MD(cv::Mat(A2.mul((const cv::Mat&)I)+B2));};
    }
    const MD mu=filt(I),mu2=filt(mulm(I,I)); std::vector<MD> raw(128); std::vector<cv::Mat_<uchar>> stable(128);
    for(int k=0; k<128; ++k) {
        const int dy=anRP2[2*k]-anRP1[2*k],dx=anRP2[2*k+1]-anRP1[2*k+1]; MD L(R,C,0.0);
        for(int y=0; y<R; ++y) for(int x=0; x<C; ++x) if(y+dy>=0&&y+dy<R&&x+dx>=0&&x+dx<C) L(y,x)=I(y+dy,x+dx);
        const MD l=filt(L),l2=filt(mulm(L,L)),mx=filt(mulm(I,L)); raw[k]=MD(R,C,0.0); stable[k]=cv::Mat_<uchar>(R,C,(uchar)0);
        for(int y=15; y<R-15; ++y) for(int x=15; x<C-15; ++x) {
            const int a=y+anRP1[2*k],b=x+anRP1[2*k+1]; if(a<=0||b<=0||a>=R||b>=C) continue;
            const double v1=mu2(a,b)-mu(a,b)*mu(a,b),v2=l2(a,b)-l(a,b)*l(a,b);
            if(v1>2e-4&&v2>2e-4) {raw[k](y,x)=std::min(1.0,std::exp(-2*(1-(mx(a,b)-mu(a,b)*l(a,b))/std::sqrt(v1*v2)))); stable[k](y,x)=1;}
        }
    }
    size_t cmp=0;
    for(int y=15; y<R-15; ++y) for(int x=15; x<C-15; ++x) {
        int ref=-1; for(int k=0; k<128; ++k) if(stable[k](y,x) && (ref<0||raw[k](y,x)>raw[ref](y,x))) ref=k;
        if(ref<0) continue; const float* q=at3(m,y,x);
        for(int k=0; k<128; ++k) if(stable[k](y,x)) {c.checkf(std::abs(q[k]*raw[ref](y,x)-q[ref]*raw[k](y,x))<4e-3*raw[ref](y,x),"dasc-value",[&]{return vh::str("entries ",k,"/",ref," at (",y,",",x,"): ",q[k],"/",q[ref]," instead of ",raw[k](y,x),"/",raw[ref](y,x));}); ++cmp;}
    }
    c.stat("entries",cmp); if(cmp) c.nontrivial(c.desc_+vh::str(vh::hbytes(before)));
}
SCENARIO("dasc_variants",12,150) {
    auto& r=c.rng; const DascP p=randDasc(r); cv::Mat parent; const cv::Mat img=dascImage(r,parent); c.desc(vh::str(p.str_()," ",shape(img)));
    auto d=p.make(); cv::Mat_<float> m; d->compute2(img,m); checkMap(c,m,img.rows,img.cols,128,true);
    keypointChecks(c,*d,img,m,128,1e-5);
    std::vector<cv::KeyPoint> k; cv::Mat_<float> km; d->compute2(img,k,km); std::string why; c.check(closeMaps(km,m,1e-5,why),"dasc-kpmap","key-point map differs: "+why);
    c.check((int)k.size()==(img.rows-30)*(img.cols-30),"dasc-kpcount","wrong number of key points");
    c.nontrivial(c.desc_);
}
SCENARIO("dasc_history",8,100) {
    auto& r=c.rng; const DascP p=randDasc(r); auto d=p.make(); c.desc(p.str_()); cv::Mat reuse; cv::Mat_<float> reuse_; std::vector<cv::Mat> imgs; std::vector<cv::Mat_<float>> all;
    for(int i=0; i<3; ++i) {
        cv::Mat pa; const cv::Mat img=dascImage(r,pa); imgs.push_back(img); std::string why; cv::Mat_<float> fresh; {auto q=p.make(); q->compute2(img,fresh);}
        d->compute2(img,reuse_); c.check(closeMaps(reuse_,fresh,1e-5,why),"dasc-history","result depends on earlier calls: "+why);
        d->compute2(img,reuse); c.check(closeMaps(reuse,fresh,1e-5,why),"dasc-history-mat","result in a reused matrix is wrong: "+why);
        checkMap(c,fresh,img.rows,img.cols,128,true); all.push_back(fresh.clone());
    }
    std::vector<cv::Mat_<float>> batch; d->compute2(imgs,batch); std::string why; for(size_t i=0; i<imgs.size(); ++i) c.check(closeMaps(batch[i],all[i],1e-5,why),"dasc-batch","batch result differs: "+why);
    c.nontrivial(c.desc_);
}
SCENARIO("dasc_refused",40,400) {
    auto& r=c.rng; const DascP p=randDasc(r); auto d=p.make(); cv::Mat_<float> m; const bool tiny=r.chance(50);
    const cv::Mat img=tiny?image(r,r.chance(50)?30:31,30,CV_8UC1,0):image(r,33,33,(int)r.pick({CV_8UC2,CV_8UC4,CV_16UC1,CV_64FC1}),0);
    c.desc(vh::str(p.str_()," ",shape(img))); c.check(throws([&]{d->compute2(img,m);}),"dasc-refuse","unsupported image was accepted"); c.nontrivial(c.desc_);
}
VH_MAIN
