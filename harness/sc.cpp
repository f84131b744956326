// C13: shape context descriptors
#include "litiv/features2d.hpp"
#include "vh.hpp"
#include "cvgen.hpp"
#include <set>
using namespace cg;
struct P {bool rel; int in,out; double rin,rout; int ang,rad; bool rot,norm,nz; int n() const {return ang*rad;}
    std::string s() const {return vh::str(rel?vh::str("rel ",rin,"-",rout):vh::str("abs ",in,"-",out)," ang ",ang," rad ",rad,rot?" rot":"",norm?" norm":"",nz?" nz":"");}
    std::unique_ptr<ShapeContext> make() const {return std::unique_ptr<ShapeContext>(rel?new ShapeContext(rin,rout,(size_t)ang,(size_t)rad,rot,norm,nz):new ShapeContext((size_t)in,(size_t)out,(size_t)ang,(size_t)rad,rot,norm,nz));}
    bool direct() const {return !rel&&!rot;}};
static P randP(vh::Rng& r) {P p; p.rel=r.chance(35); p.out=(int)r.range(2,14); p.in=(int)r.range(1,p.out-1); p.rin=r.real(0.05,0.6); p.rout=p.rin+r.real(0.1,2.0); p.ang=(int)r.range(1,14); p.rad=(int)r.range(1,6); p.rot=r.chance(30); p.norm=r.chance(50); p.nz=r.chance(50); return p;}
static cv::Mat shapeImg(vh::Rng& r, int rows, int cols, int margin=0) {
    cv::Mat m(rows,cols,CV_8UC1,cv::Scalar(0)); const int n=(int)r.below(4); cv::Mat in=m(cv::Rect(margin,margin,cols-2*margin,rows-2*margin));
    for(int i=0; i<n; ++i) {
        const cv::Point a((int)r.below(in.cols),(int)r.below(in.rows)),b((int)r.below(in.cols),(int)r.below(in.rows)); const cv::Scalar v((double)r.range(1,255));
        switch(r.below(4)) {case 0: cv::line(in,a,b,v,1); break; case 1: cv::rectangle(in,a,b,v,r.chance(50)?-1:1); break; case 2: in.at<uchar>(a)=(uchar)v[0]; break; default: cv::circle(in,a,(int)r.range(1,6),v,r.chance(50)?-1:1);}
    }
    if(r.chance(10)) m.setTo(cv::Scalar(255));
    return m;
}
static std::vector<cv::Point> contour(const cv::Mat& img) {cv::Mat b; cv::compare(img,0,b,cv::CMP_GT); std::vector<std::vector<cv::Point>> v; cv::findContours(b,v,cv::RETR_LIST,cv::CHAIN_APPROX_NONE); std::vector<cv::Point> o; for(auto& a : v) o.insert(o.end(),a.begin(),a.end()); return o;}
/// expected descriptors at key points; 'sure' tells whether no contour point lies on a numerically ambiguous cell border
static std::vector<std::vector<double>> expected(const P& p, const std::vector<cv::Point>& ct, const std::vector<cv::Point2f>& kps, std::vector<char>& sure) {
    const int n=p.n(); std::vector<std::vector<double>> out; sure.assign(kps.size(),1); cv::Mat_<int> lp; if(p.direct()) lv::getLogPolarMask(p.out*2+1,p.rad,p.ang,lp,true,(float)p.in);
    std::vector<double> rl(p.rad),al(p.ang); const double mn=p.rel?p.rin:p.in,mx=p.rel?p.rout:p.out;
    for(int i=0; i<p.rad; ++i) rl[i]=p.rad==1?mx:mn*std::pow(mx/mn,(double)i/(p.rad-1)); for(int i=0; i<p.ang; ++i) al[i]=2*CV_PI*(i+1)/p.ang;
    double mean=0,cx=0,cy=0; for(auto& c_ : ct) {cx+=c_.x; cy+=c_.y;} if(!ct.empty()) {cx/=ct.size(); cy/=ct.size();}
    if(p.rel && !ct.empty()) {for(auto& k : kps) for(auto& c_ : ct) mean+=std::hypot((double)k.x-c_.x,(double)k.y-c_.y); mean/=(double)kps.size()*ct.size();}
    for(size_t q=0; q<kps.size(); ++q) {
        std::vector<double> d(n,p.nz?std::max(10.0/n,0.5):0.0); const auto& k=kps[q];
        for(auto& c_ : ct) {
            if(p.direct()) {const int y=(int)std::round(c_.y-k.y)+p.out,x=(int)std::round(c_.x-k.x)+p.out; if(y>=0&&x>=0&&y<lp.rows&&x<lp.cols&&lp(y,x)>=0) d[lp(y,x)]+=1; continue;}
            const double dy=k.y-c_.y,dx=k.x-c_.x; if(std::abs(dx)<0.01&&std::abs(dy)<0.01) continue;
            double dist=std::hypot(dx,dy); if(p.rel) dist/=mean+FLT_EPSILON; double a=std::atan2(dy,-dx); if(p.rot) {a-=std::atan2(-(c_.y-cy),c_.x-cx); if(std::hypot(c_.x-cx,c_.y-cy)<1e-3) sure[q]=0;} a=std::fmod(a+2*CV_PI+FLT_EPSILON,2*CV_PI); if(a<0) a+=2*CV_PI;
            int ri=-1,ai=-1; for(int i=0; i<p.rad&&ri<0; ++i) {if(std::abs(dist-rl[i])<1e-5*(1+rl[i])) {if(p.rel||dist!=std::floor(dist)||true) sure[q]=sure[q]&&!(std::abs(dist-rl[i])<1e-5*(1+rl[i])); } if(dist<rl[i]) ri=i;}
            const double tol=p.rot?3e-6:1e-8; for(int i=0; i<p.ang&&ai<0; ++i) {if(std::abs(a-al[i])<tol||a<tol) sure[q]=0; if(a<al[i]) ai=i;}
            if(ri>=0&&ai>=0) d[ai+ri*p.ang]+=1;
        }
        if(p.norm) {double s=0; for(double v : d) s+=v*v; s=std::sqrt(s); for(double& v : d) v=s>1e-5?v/s:std::sqrt(1.0/n);}
        out.push_back(d);
    }
    return out;
}
static void cmpDesc(vh::Case& c, const P& p, const float* g, const std::vector<double>& e, bool sure, const char* key, const cv::Point2f& at) {
    double s=0; for(int i=0; i<p.n(); ++i) {c.checkf(std::isfinite(g[i])&&g[i]>=0,"range",[&]{return vh::str("entry ",i," is ",g[i]);}); s+=(double)g[i]*g[i];}
    if(p.norm) c.checkf(std::abs(std::sqrt(s)-1)<1e-4,"norm",[&]{return vh::str("norm is ",std::sqrt(s));});
    if(!sure) return;
    for(int i=0; i<p.n(); ++i) c.checkf(std::abs(g[i]-e[i])<=1e-4*(1+e[i]),key,[&]{return vh::str("entry ",i," at (",at.y,",",at.x,") is ",g[i]," instead of ",e[i]);});
}
static std::vector<cv::Point2f> pts(const std::vector<cv::KeyPoint>& k) {std::vector<cv::Point2f> o; for(auto& a : k) o.push_back(a.pt); return o;}
static std::vector<cv::Point2f> allPts(int rows, int cols) {std::vector<cv::Point2f> o; for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) o.push_back(cv::Point2f((float)x,(float)y)); return o;}
static std::vector<cv::KeyPoint> randKps(vh::Rng& r, int rows, int cols, bool unique, bool sub) {
    std::vector<cv::KeyPoint> k; std::set<std::pair<int,int>> seen; const int n=(int)r.range(1,14);
    for(int i=0; i<n; ++i) {float x=(float)r.below(cols),y=(float)r.below(rows); if(sub) {x=std::min((float)cols-1,std::max(0.f,x+(float)r.real(-.4,.4))); y=std::min((float)rows-1,std::max(0.f,y+(float)r.real(-.4,.4)));}
        const auto q=std::make_pair((int)std::round(x),(int)std::round(y)); if(unique&&!seen.insert(q).second) continue; k.emplace_back(cv::Point2f(x,y),1.f,-1.f,0.f,0,i);}
    return k;
}
static void checkDense(vh::Case& c, const P& p, const cv::Mat& m, const cv::Mat& img, const char* key) {
    c.check(m.dims==3&&m.type()==CV_32FC1&&m.size[0]==img.rows&&m.size[1]==img.cols&&m.size[2]==p.n(),"map-shape","bad map "+shape(m)); std::vector<char> sure; const auto k=allPts(img.rows,img.cols); const auto e=expected(p,contour(img),k,sure); size_t ns=0;
    for(size_t i=0; i<k.size(); ++i) {cmpDesc(c,p,m.ptr<float>((int)k[i].y,(int)k[i].x),e[i],sure[i],key,k[i]); ns+=sure[i];}
    c.stat("descriptors",k.size()); c.stat("descriptors_exact",ns);
}
SCENARIO("dense",160,3000) {
    auto& r=c.rng; const P p=randP(r); const int rows=(int)r.range(1,p.direct()?26:14),cols=(int)r.range(1,p.direct()?26:14); cv::Mat parent,img=shapeImg(r,rows,cols); if(r.chance(40)) img=embed(r,img,parent); c.desc(vh::str(p.s()," ",shape(img)));
    const auto before=bytes(parent.empty()?img:parent); auto d=p.make(); c.check(d->descriptorSize()==p.n()*4&&d->descriptorType()==CV_32F&&d->borderSize()==0&&d->isNormalizingBins()==p.norm&&d->isNonZeroInitBins()==p.nz&&d->chainDetectMethod()==cv::CHAIN_APPROX_NONE,"info","wrong properties");
    cv::Mat_<float> m; d->compute2(img,m); c.check(bytes(parent.empty()?img:parent)==before,"input","image was modified"); checkDense(c,p,m,img,"dense-value"); c.check(lv::MatInfo(m)==d->getOutputInfo(lv::MatInfo(img)),"outinfo","getOutputInfo does not describe the map");
    c.nontrivial(c.desc_+vh::str(vh::hbytes(before)));
}
SCENARIO("keypoints",260,5000) {
    auto& r=c.rng; const P p=randP(r); const int rows=(int)r.range(1,24),cols=(int)r.range(1,24); const cv::Mat img=shapeImg(r,rows,cols); const bool sub=r.chance(30); c.desc(vh::str(p.s()," ",shape(img),sub?" sub":"")); auto d=p.make(); const auto ct=contour(img); std::vector<char> sure;
    auto k=randKps(r,rows,cols,false,sub); cv::Mat desc; cv::Feature2D& f=*d; const size_t n0=k.size(); f.compute(img,k,desc); c.check(k.size()==n0&&desc.rows==(int)n0&&desc.cols==p.n(),"kp-shape","one descriptor per key point expected");
    auto e=expected(p,ct,pts(k),sure); for(size_t i=0; i<k.size(); ++i) cmpDesc(c,p,desc.ptr<float>((int)i),e[i],sure[i],"kp-value",k[i].pt);
    // map at (unique) key points
    auto k2=randKps(r,rows,cols,!p.direct()&&false,false); cv::Mat_<float> km; if(r.chance(50)) {km.create(3,std::array<int,3>{{rows,cols,p.n()}}.data()); km=9.f;} d->compute2(img,k2,km); e=expected(p,ct,pts(k2),sure);
    for(size_t i=0; i<k2.size(); ++i) cmpDesc(c,p,km.ptr<float>((int)k2[i].pt.y,(int)k2[i].pt.x),e[i],sure[i],"kpmap-value",k2[i].pt);
    if(r.chance(30)) {const cv::Mat im0=shapeImg(r,rows,cols); std::vector<cv::Mat> vi{im0,img}; std::vector<std::vector<cv::KeyPoint>> vk{{},k2}; std::vector<cv::Mat_<float>> vm; d->compute2(vi,vk,vm); c.check(vm.size()==2&&vk[0].size()==contour(im0).size()&&vk[1].size()==k2.size(),"kp-batch","one map per image expected"); e=expected(p,ct,pts(k2),sure); for(size_t i=0; i<k2.size(); ++i) cmpDesc(c,p,vm[1].ptr<float>((int)k2[i].pt.y,(int)k2[i].pt.x),e[i],sure[i],"kp-batch-value",k2[i].pt);}
    // contour points as key points
    std::vector<cv::KeyPoint> k3; cv::Mat_<float> cm; d->compute2(img,k3,cm); c.check(k3.size()==ct.size(),"contour-count",vh::str(k3.size()," key points for ",ct.size()," contour points"));
    e=expected(p,ct,pts(k3),sure); for(size_t i=0; i<k3.size(); ++i) cmpDesc(c,p,cm.ptr<float>((int)k3[i].pt.y,(int)k3[i].pt.x),e[i],sure[i],"contourmap-value",k3[i].pt);
    std::vector<cv::KeyPoint> k4; if(r.chance(30)) k4=k2; cv::Mat d4,mask; if(r.chance(50)) mask=image(r,rows,cols,CV_8UC1,4); f.detectAndCompute(img,mask,k4,d4,false); size_t en=0; for(auto& q : ct) en+=mask.empty()||mask.at<uchar>(q); c.check(k4.size()==en&&(en==0||d4.rows==(int)en),"detect-count",vh::str(k4.size()," key points instead of ",en));
    e=expected(p,ct,pts(k4),sure); for(size_t i=0; i<k4.size(); ++i) cmpDesc(c,p,d4.ptr<float>((int)i),e[i],sure[i],"detect-value",k4[i].pt);
    if(!sub) { // the given key points, where the mask is set
        auto k5=k; cv::Mat d5; f.detectAndCompute(img,mask,k5,d5,true); std::vector<cv::KeyPoint> e5; for(auto& q : k) if(mask.empty()||mask.at<uchar>((int)q.pt.y,(int)q.pt.x)) e5.push_back(q);
        c.check(k5.size()==e5.size()&&(k5.empty()?d5.empty():d5.rows==(int)k5.size()),"kp-mask-count",vh::str(k5.size()," of the given key points described instead of ",e5.size())); e=expected(p,ct,pts(e5),sure);
        for(size_t i=0; i<k5.size(); ++i) {c.check(k5[i].pt==e5[i].pt,"kp-mask-order","other key points than the ones under the mask were described"); cmpDesc(c,p,d5.ptr<float>((int)i),e[i],sure[i],"kp-mask-value",k5[i].pt);}
    }
    c.nontrivial(c.desc_+vh::str(vh::hbytes(bytes(img))));
}
SCENARIO("translate",140,3000) {
    auto& r=c.rng; const P p=randP(r); const int mg=(int)r.range(1,4); const int rows=(int)r.range(2*mg+1,26),cols=(int)r.range(2*mg+1,26); const cv::Mat img=shapeImg(r,rows,cols,mg); if(cv::countNonZero(img)==rows*cols) return;
    const int dx=(int)r.range(-(mg-1),mg-1),dy=(int)r.range(-(mg-1),mg-1); cv::Mat t(rows,cols,CV_8UC1,cv::Scalar(0)); for(int y=mg; y<rows-mg; ++y) for(int x=mg; x<cols-mg; ++x) t.at<uchar>(y+dy,x+dx)=img.at<uchar>(y,x);
    c.desc(vh::str(p.s()," ",shape(img)," by ",dx,",",dy)); std::vector<cv::KeyPoint> k,kt; for(int i=0; i<8; ++i) {const float x=(float)r.range(mg,cols-mg-1),y=(float)r.range(mg,rows-mg-1); k.emplace_back(cv::Point2f(x,y),1.f); kt.emplace_back(cv::Point2f(x+dx,y+dy),1.f);}
    auto d=p.make(); cv::Feature2D& f=*d; cv::Mat a,b; f.compute(img,k,a); f.compute(t,kt,b); std::vector<char> s1,s2; expected(p,contour(img),pts(k),s1); expected(p,contour(t),pts(kt),s2);
    for(int i=0; i<a.rows; ++i) if(s1[i]&&s2[i]) for(int j=0; j<p.n(); ++j) c.checkf(std::abs(a.at<float>(i,j)-b.at<float>(i,j))<1e-4,"translate",[&]{return vh::str("entry ",j," changes from ",a.at<float>(i,j)," to ",b.at<float>(i,j));});
    c.nontrivial(c.desc_);
}
SCENARIO("history",80,1500) {
    auto& r=c.rng; const P p=randP(r); auto d=p.make(); cv::Feature2D& f=*d; std::string ops=p.s(); cv::Mat reuse; cv::Mat_<float> reuse_; std::vector<cv::Size> sizes; for(int i=0; i<3; ++i) sizes.push_back(cv::Size((int)r.range(1,12),(int)r.range(1,12)));
    for(int s=0; s<6; ++s) {
        const cv::Size z=sizes[r.below(3)]; const cv::Mat img=r.chance(25)?cv::Mat(z,CV_8UC1,cv::Scalar(0)):shapeImg(r,z.height,z.width); const int op=(int)r.below(5); ops+=vh::str(" ",op,"@",z.height,"x",z.width); c.desc(ops); std::vector<char> sure; const auto ct=contour(img);
        if(op==0) {d->compute2(img,reuse_); checkDense(c,p,reuse_,img,"history-dense");}
        else if(op==1) {d->compute2(img,reuse); checkDense(c,p,reuse,img,"history-mat");}
        else if(op==2) {auto k=randKps(r,z.height,z.width,true,false); d->compute2(img,k,reuse_); const auto e=expected(p,ct,pts(k),sure); for(size_t i=0; i<k.size(); ++i) cmpDesc(c,p,reuse_.ptr<float>((int)k[i].pt.y,(int)k[i].pt.x),e[i],sure[i],"history-kpmap",k[i].pt);}
        else if(op==3) {std::vector<cv::KeyPoint> k; cv::Mat de; f.detectAndCompute(img,cv::noArray(),k,de,false); const auto e=expected(p,ct,pts(k),sure); for(size_t i=0; i<k.size(); ++i) cmpDesc(c,p,de.ptr<float>((int)i),e[i],sure[i],"history-detect",k[i].pt);}
        else {std::vector<cv::Mat> v{img,img}; std::vector<cv::Mat_<float>> o; d->compute2(v,o); for(auto& m : o) checkDense(c,p,m,img,"history-batch");}
    }
    c.nontrivial(ops);
}
SCENARIO("costs",150,3000) {
    auto& r=c.rng; const P p=randP(r); c.desc(p.s()); auto d=p.make(); const cv::Mat_<float> m=d->getEMDCostMap(); const int n=p.n(); c.check(m.rows==n&&m.cols==n,"cost-shape","bad cost map shape");
    for(int i=0; i<n; ++i) {c.check(m(i,i)==0,"cost-diagonal",vh::str("cost of cell ",i," to itself is ",m(i,i))); for(int j=0; j<i; ++j) c.checkf(m(i,j)==m(j,i)&&m(i,j)>=0&&std::isfinite(m(i,j)),"cost-symmetry",[&]{return vh::str("cost ",i,",",j," is ",m(i,j)," and ",m(j,i));});}
    for(int t=0; t<200; ++t) {const int i=(int)r.below(n),j=(int)r.below(n),k=(int)r.below(n); c.checkf(m(i,j)<=m(i,k)+m(k,j)+1e-4,"cost-triangle",[&]{return vh::str("triangle inequality fails for ",i,",",j,",",k);});}
    std::vector<float> a(n),b(n); for(int i=0; i<n; ++i) {a[i]=(float)r.below(5)+.5f; b[i]=(float)r.below(5)+.5f;} double s=0; for(int i=0; i<n; ++i) s+=std::pow((double)a[i]-b[i],2);
    c.check(std::abs(d->calcDistance_L2(a.data(),b.data())-std::sqrt(s))<1e-3,"l2","calcDistance_L2"); const cv::Mat_<float> A(1,n,a.data()),B(1,n,b.data()); c.check(std::abs(d->calcDistance_L2(A,B)-std::sqrt(s))<1e-3,"l2-mat","calcDistance_L2 on matrices");
    if(n>1 && n<=30) {const double z=d->calcDistance_EMD(a.data(),a.data()); c.check(std::abs(z)<1e-3,"emd-self",vh::str("earth mover's distance of a descriptor to itself is ",z)); c.check(d->calcDistance_EMD(a.data(),b.data())>=-1e-6,"emd-neg","negative distance");}
    c.nontrivial(c.desc_);
}
VH_MAIN
