// C15: affinity maps against patch-by-patch distances
#include "cvgen.hpp"
#include "litiv/imgproc.hpp"
#include "litiv/features2d/MI.hpp"
#include <opencv2/imgproc.hpp>
#include <thread>
#ifdef _OPENMP
#include <omp.h>
#else
static void omp_set_num_threads(int) {}
#endif
using namespace cg;
static cv::Mat_<uchar> roiMask(vh::Rng& r, int rows, int cols) {
    if(r.chance(40)) return cv::Mat_<uchar>(); cv::Mat_<uchar> m(rows,cols); const double p=r.chance(20)?(double)r.below(2):r.real(0.2,1.0); for(auto& v : m) v=(uchar)(r.chance(p)?1+r.below(255):0); return m;
}
static std::vector<int> disps(vh::Rng& r, int cols) {
    std::vector<int> v; const int n=(int)r.range(1,7),kind=(int)r.below(3); for(int i=0;i<n;++i) v.push_back(kind==0?i:kind==1?(int)r.range(-cols-2,cols+2):(int)r.range(-3,3)); return v;
}
static std::string ds(const std::vector<int>& v) {std::string s; for(int i : v) s+=vh::str(i,","); return s;}
static bool refMI(const cv::Mat& a, const cv::Mat& b, double& out) { // normalised mutual information; false when too close to degenerate
    std::map<int,int> ha,hb; std::map<std::pair<int,int>,int> hj; const double n=(double)a.total();
    for(int y=0;y<a.rows;++y) for(int x=0;x<a.cols;++x) {const int p=a.at<uchar>(y,x),q=b.at<uchar>(y,x); ++ha[p]; ++hb[q]; ++hj[{p,q}];}
    double mi=0,ea=0,eb=0; for(auto& k : hj) mi+=k.second/n*std::log2((k.second/n)/((ha[k.first.first]/n)*(hb[k.first.second]/n))); for(auto& k : ha) ea-=k.second/n*std::log2(k.second/n); for(auto& k : hb) eb-=k.second/n*std::log2(k.second/n);
    if(ha.size()==1||hb.size()==1) {out=0; return true;} out=mi/std::sqrt(ea*eb); return true;
}
struct ImgCfg {cv::Mat a,b; cv::Mat_<uchar> ra,rb; std::vector<int> d; int ps; lv::AffinityDistType t; std::string str() const {return vh::str(t==lv::AffinityDist_MI?"MI ":"SSD ",shape(a)," patch ",ps," disparities ",ds(d),ra.empty()?"":" roi1",rb.empty()?"":" roi2");}};
static ImgCfg imgCfg(vh::Rng& r, bool big) {
    ImgCfg k; k.ps=1+2*(int)r.range(0,3); const int rows=k.ps+(int)r.range(0,big?12:7),cols=k.ps+(int)r.range(0,big?20:12); k.t=r.chance(50)?lv::AffinityDist_MI:lv::AffinityDist_SSD; const int t=k.t==lv::AffinityDist_MI?CV_8UC1:r.pick({CV_8UC1,CV_16UC1,CV_32FC1});
    k.a=image(r,rows,cols,CV_8UC1); k.b=r.chance(25)?k.a.clone():image(r,rows,cols,CV_8UC1); if(t!=CV_8UC1) {k.a.convertTo(k.a,t,t==CV_16UC1?257:0.25); k.b.convertTo(k.b,t,t==CV_16UC1?257:0.25);}
    k.ra=roiMask(r,rows,cols); k.rb=roiMask(r,rows,cols); k.d=disps(r,cols); return k;
}
static size_t checkImg(vh::Case& c, const ImgCfg& k, const cv::Mat& m) {
    const int h=k.ps/2,R=k.a.rows-2*h,C=k.a.cols-2*h; size_t valid=0; c.check(m.dims==3&&m.type()==CV_32FC1&&m.size[0]==R&&m.size[1]==C&&m.size[2]==(int)k.d.size(),"img-shape","affinity map has another size");
    for(int y=0;y<R;++y) for(int x=0;x<C;++x) for(size_t o=0;o<k.d.size();++o) {
        const float g=m.ptr<float>(y,x)[o]; const int xx=x+h+k.d[o]; const bool in=(k.ra.empty()||k.ra(y+h,x+h))&&xx>=h&&xx<k.a.cols-h&&(k.rb.empty()||k.rb(y+h,xx));
        if(!in) {c.checkf(g==-1.f,"img-invalid",[&]{return vh::str("entry (",x,",",y,",",k.d[o],") has no valid counterpart but holds ",g);}); continue;}
        ++valid; const cv::Mat p=k.a(cv::Rect(x,y,k.ps,k.ps)),q=k.b(cv::Rect(xx-h,y,k.ps,k.ps));
        if(k.t==lv::AffinityDist_SSD) {double s=0; for(int j=0;j<k.ps;++j) for(int i=0;i<k.ps;++i) {auto V=[&](const cv::Mat& z){return z.type()==CV_8UC1?(double)z.at<uchar>(j,i):z.type()==CV_16UC1?(double)z.at<ushort>(j,i):(double)z.at<float>(j,i);}; const double d=V(p)-V(q); s+=d*d;} s=std::sqrt(s);
            c.checkf(std::abs(g-s)<=1e-4*(1+s),"ssd-value",[&]{return vh::str("distance at (",x,",",y,",",k.d[o],") is ",g," instead of ",s);});}
        else {double mi; if(refMI(p,q,mi)) {const double e=std::max(1.0-mi,0.0); c.checkf(std::abs(g-e)<=2e-3,"mi-value",[&]{return vh::str("distance at (",x,",",y,",",k.d[o],") is ",g," instead of ",e);});} c.check(g>=0,"mi-negative","negative distance");}
    }
    return valid;
}
SCENARIO("images",300,5000) {
    auto& r=c.rng; omp_set_num_threads((int)r.range(1,8)); cv::Mat_<float> m; std::string d; size_t v=0; uint64_t h=0;
    for(int n=(int)r.range(1,3);n>0;--n) {const ImgCfg k=imgCfg(r,c.thorough()); d+=k.str()+"; "; c.desc(d); const auto ba=bytes(k.a),bb=bytes(k.b); lv::computeImageAffinity(k.a,k.b,k.ps,m,k.d,k.t,k.ra,k.rb); c.check(bytes(k.a)==ba&&bytes(k.b)==bb,"input","affinity modified its input"); v+=checkImg(c,k,m); h^=vh::hbytes(ba)+vh::hbytes(bb)*3;}
    c.stat("valid_entries",v); if(v) c.nontrivial(h);
}
struct DescCfg {cv::Mat_<float> a,b,cost; cv::Mat_<uchar> ra,rb; std::vector<int> d; int ps; lv::AffinityDistType t; std::string str() const {return vh::str(t==lv::AffinityDist_L2?"L2 ":"EMD ",shape(a)," patch ",ps," disparities ",ds(d),ra.empty()?"":" roi1",rb.empty()?"":" roi2");}};
static cv::Mat_<float> descMap(vh::Rng& r, int rows, int cols, int n) {
    const int sz[3]={rows,cols,n}; cv::Mat_<float> m(3,sz); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {float* p=m.ptr<float>(y,x); double s=0; for(int i=0;i<n;++i) {p[i]=r.chance(30)?0.f:(float)r.unit(); s+=p[i]*p[i];} if(s==0) {p[0]=1; s=1;} for(int i=0;i<n;++i) p[i]=(float)(p[i]/std::sqrt(s));} return m;
}
static DescCfg descCfg(vh::Rng& r, bool big) {
    DescCfg k; k.ps=1+2*(int)r.range(0,3); k.t=r.chance(65)?lv::AffinityDist_L2:lv::AffinityDist_EMD; const int rows=(int)r.range(1,big?12:7),cols=(int)r.range(1,big?16:9),n=(int)r.range(2,k.t==lv::AffinityDist_L2?20:7);
    k.a=descMap(r,rows,cols,n); k.b=r.chance(25)?cv::Mat_<float>(k.a.clone()):descMap(r,rows,cols,n); k.ra=roiMask(r,rows,cols); k.rb=roiMask(r,rows,cols); k.d=disps(r,cols);
    if(k.t==lv::AffinityDist_EMD) {k.cost.create(n,n); for(int i=0;i<n;++i) for(int j=0;j<n;++j) k.cost(i,j)=(float)std::abs(i-j)*0.5f; if(r.chance(30)) for(int i=0;i<n;++i) for(int j=0;j<i;++j) k.cost(i,j)*=3;} return k; // (moving mass down may cost more than moving it up)
}
// earth mover's distance for the |i-j|/2 ground cost and equal or unequal masses: independent of opencv when masses agree
static size_t checkDesc(vh::Case& c, const DescCfg& k, const cv::Mat& m) {
    const int R=k.a.size[0],C=k.a.size[1],N=k.a.size[2],h=k.ps/2; const size_t O=k.d.size(); c.check(m.dims==3&&m.type()==CV_32FC1&&m.size[0]==R&&m.size[1]==C&&m.size[2]==(int)O,"desc-shape","affinity map has another size");
    std::vector<double> raw((size_t)R*C*O,-1.0); auto A=[&](int y,int x,size_t o)->double& {return raw[((size_t)y*C+x)*O+o];}; size_t valid=0;
    for(int y=0;y<R;++y) for(int x=0;x<C;++x) for(size_t o=0;o<O;++o) {
        const int xx=x+k.d[o]; if((!k.ra.empty()&&!k.ra(y,x))||xx<0||xx>=C||(!k.rb.empty()&&!k.rb(y,xx))) continue; const float* p=k.a.ptr<float>(y,x); const float* q=k.b.ptr<float>(y,xx); ++valid;
        if(k.t==lv::AffinityDist_L2) {double s=0; for(int i=0;i<N;++i) s+=((double)p[i]-q[i])*((double)p[i]-q[i]); A(y,x,o)=std::sqrt(s);}
        else {const cv::Mat_<float> P(N,1,const_cast<float*>(p)),Q(N,1,const_cast<float*>(q)); A(y,x,o)=cv::EMD(P.clone(),Q.clone(),-1,k.cost.clone()); bool same=true; for(int i=0;i<N;++i) same=same&&p[i]==q[i]; if(same) A(y,x,o)=0;}
    }
    for(int y=0;y<R;++y) for(int x=0;x<C;++x) for(size_t o=0;o<O;++o) {
        double s=0; int n=0; for(int j=std::max(y-h,0);j<=std::min(y+h,R-1);++j) for(int i=std::max(x-h,0);i<=std::min(x+h,C-1);++i) if(A(j,i,o)>=0) {s+=A(j,i,o); ++n;} const float g=m.ptr<float>(y,x)[o];
        if(!n) c.checkf(g==-1.f,"desc-invalid",[&]{return vh::str("entry (",x,",",y,",",k.d[o],") has no valid descriptor pair but holds ",g);});
        else c.checkf(std::abs(g-s/n)<=1e-4,"desc-value",[&]{return vh::str("distance at (",x,",",y,",",k.d[o],") is ",g," instead of ",s/n," (",n," pairs)");});
    }
    return valid;
}
SCENARIO("descriptors",350,6000) {
    auto& r=c.rng; omp_set_num_threads((int)r.range(1,8)); cv::Mat_<float> m; std::string d; size_t v=0; uint64_t h=0;
    for(int n=(int)r.range(1,3);n>0;--n) {const DescCfg k=descCfg(r,c.thorough()); d+=k.str()+"; "; c.desc(d); const auto ba=bytes(k.a),bb=bytes(k.b); lv::computeDescriptorAffinity(k.a,k.b,k.ps,m,k.d,k.t,k.ra,k.rb,k.cost); c.check(bytes(k.a)==ba&&bytes(k.b)==bb,"input","affinity modified its input"); v+=checkDesc(c,k,m); h^=vh::hbytes(ba)+vh::hbytes(bb)*3;}
    c.stat("valid_entries",v); if(v) c.nontrivial(h);
}
SCENARIO("threads",40,800) { // several callers at once, each with its own data: results must equal the serial ones
    auto& r=c.rng; const int T=(int)r.range(2,4); std::vector<DescCfg> dc; std::vector<ImgCfg> ic; for(int i=0;i<T;++i) {dc.push_back(descCfg(r,false)); ic.push_back(imgCfg(r,false));}
    c.desc(vh::str(T," concurrent callers")); std::vector<cv::Mat_<float>> dm(T),im(T); std::vector<std::thread> th;
    for(int i=0;i<T;++i) th.emplace_back([&,i]{for(int n=0;n<3;++n) {lv::computeDescriptorAffinity(dc[i].a,dc[i].b,dc[i].ps,dm[i],dc[i].d,dc[i].t,dc[i].ra,dc[i].rb,dc[i].cost); lv::computeImageAffinity(ic[i].a,ic[i].b,ic[i].ps,im[i],ic[i].d,ic[i].t,ic[i].ra,ic[i].rb);}});
    for(auto& t : th) t.join(); size_t v=0; uint64_t h=0; for(int i=0;i<T;++i) {v+=checkDesc(c,dc[i],dm[i])+checkImg(c,ic[i],im[i]); h^=vh::hbytes(bytes(dc[i].a))+i;} c.stat("valid_entries",v); if(v) c.nontrivial(h);
}
VH_MAIN
