// C16: edge detectors
#include "cvgen.hpp"
#include "litiv/imgproc.hpp"
#include <opencv2/imgproc.hpp>
using namespace cg;
static const int PX[16]={-2,2,0,0,-2,2,2,-2,0,-1,0,1,-1,1,1,-1}, PY[16]={0,0,-2,2,2,-2,2,-2,1,0,-1,0,-1,1,-1,1};
struct G {int x,y,m;};
static cv::Mat scene(vh::Rng& r, int rows, int cols, int ch) {
    if(r.chance(35)) return image(r,rows,cols,CV_8UC(ch));
    cv::Mat im(rows,cols,CV_8UC(ch)); auto col=[&]{return cv::Scalar((double)r.below(256),(double)r.below(256),(double)r.below(256),(double)r.below(256));}; im=col();
    for(int n=(int)r.range(1,5);n>0;--n) {const cv::Point a((int)r.below(cols),(int)r.below(rows)),b((int)r.below(cols),(int)r.below(rows)); switch(r.below(3)) {case 0: cv::rectangle(im,a,b,col(),-1); break; case 1: cv::circle(im,a,(int)r.range(1,10),col(),-1); break; default: cv::line(im,a,b,col(),(int)r.range(1,4));}}
    if(r.chance(40)) {cv::Mat n(rows,cols,CV_8UC(ch)); fill(n,r,0); im=im*0.85+n*0.15;} return im;
}
// gradient map of the pyramid: at every pixel, the weakest response over the levels (axis by axis)
static std::vector<G> gradients(const cv::Mat& im, size_t levels) {
    const int ch=im.channels(); std::vector<cv::Mat> pyr={im.clone()}; std::vector<std::vector<G>> g;
    for(size_t l=0;l<levels;++l) {
        const cv::Mat p=pyr[l]; cv::Mat next((p.rows+1)/2,(p.cols+1)/2,p.type()); std::vector<G> cur((size_t)p.rows*p.cols);
        for(int y=0;y<p.rows;++y) for(int x=0;x<p.cols;++x) {
            const bool in=x>=2&&y>=2&&x<p.cols-2&&y<p.rows-2; std::vector<uchar> vals((size_t)16*ch+64); uchar* v=vals.data(); v+=(16-(uintptr_t)v%16)%16; const uchar* ref=p.ptr<uchar>(y)+x*ch;
            for(int k=0;k<ch;++k) {int sum=0; for(int n=0;n<16;++n) {v[k*16+n]=in?p.ptr<uchar>(y+PY[n])[(x+PX[n])*ch+k]:ref[k]; sum+=v[k*16+n];} if(x%2==0&&y%2==0) next.ptr<uchar>(y/2)[x/2*ch+k]=in?(uchar)(sum/16):ref[k];}
            char gx,gy; uchar gm; if(ch==1) LBSP::computeDescriptor_gradient<1>(v,ref,gx,gy,gm); else if(ch==2) LBSP::computeDescriptor_gradient<2>(v,ref,gx,gy,gm); else if(ch==3) LBSP::computeDescriptor_gradient<3>(v,ref,gx,gy,gm); else LBSP::computeDescriptor_gradient<4>(v,ref,gx,gy,gm);
            cur[(size_t)y*p.cols+x]={gx,gy,gm};
        }
        g.push_back(cur); pyr.push_back(next);
    }
    for(int l=(int)levels-2;l>=0;--l) {const int C=pyr[l].cols,PC=pyr[l+1].cols; for(int y=0;y<pyr[l].rows;++y) for(int x=0;x<C;++x) {G& a=g[l][(size_t)y*C+x]; const G& b=g[l+1][(size_t)(y/2)*PC+x/2]; if(std::abs(b.x)<std::abs(a.x)) a.x=b.x; if(std::abs(b.y)<std::abs(a.y)) a.y=b.y; a.m=std::min(a.m,b.m);}}
    return g[0];
}
static cv::Mat_<uchar> thinned(const std::vector<G>& g, int rows, int cols, int low) { // pixels that are maxima across the edge
    auto M=[&](int y,int x) {return y<0||x<0||y>=rows||x>=cols?0:g[(size_t)y*cols+x].m;}; cv::Mat_<uchar> o(rows,cols,uchar(0));
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {
        const G& a=g[(size_t)y*cols+x]; if(a.m<low) continue; auto rule=[&](int dx,int dy) {for(int n=1;n<=2;++n) if(!(a.m>M(y-n*dy,x-n*dx)&&a.m>=M(y+n*dy,x+n*dx))) return false; return true;};
        const int64_t ax=std::abs(a.x),ay=(int64_t)std::abs(a.y)<<15,t22=ax*13573,t67=t22+(ax<<16);
        o(y,x)=ay<t22?rule(1,0):ay>t67?rule(0,1):(a.x||a.y)?rule((a.x<0)==(a.y<0)?-1:1,1):(rule(-1,1)||rule(1,1));
    }
    return o;
}
static cv::Mat_<uchar> linked(const std::vector<G>& g, int rows, int cols, int high, int low) {
    const cv::Mat_<uchar> t=thinned(g,rows,cols,low); cv::Mat_<int> lab; const int n=cv::connectedComponents(t,lab,8,CV_32S); std::vector<char> strong(n,0);
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(t(y,x)&&g[(size_t)y*cols+x].m>=high) strong[lab(y,x)]=1; cv::Mat_<uchar> o(rows,cols,uchar(0)); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(t(y,x)&&strong[lab(y,x)]) o(y,x)=255; return o;
}
static void same(vh::Case& c, const cv::Mat& got, const cv::Mat& exp, const char* key, const std::string& what) {
    c.check(got.type()==CV_8UC1&&got.size()==exp.size(),"shape",what+": mask has another size or type");
    for(int y=0;y<got.rows;++y) for(int x=0;x<got.cols;++x) c.checkf(got.at<uchar>(y,x)==exp.at<uchar>(y,x),key,[&]{return vh::str(what,": pixel (",x,",",y,") is ",(int)got.at<uchar>(y,x)," instead of ",(int)exp.at<uchar>(y,x));});
}
static void nested(vh::Case& c, const cv::Mat& lo, const cv::Mat& hi, const std::string& what) {
    for(int y=0;y<lo.rows;++y) for(int x=0;x<lo.cols;++x) {const int a=lo.at<uchar>(y,x),b=hi.at<uchar>(y,x); c.check((a==0||a==255)&&(b==0||b==255),"binary",what+": mask is neither 0 nor 255"); c.checkf(!b||a,"nested",[&]{return vh::str(what,": pixel (",x,",",y,") is an edge at the higher threshold only");});}
}
static int dim(vh::Rng& r) {return (int)(r.chance(15)?r.range(1,5):r.range(4,r.chance(85)?26:60));}
SCENARIO("lbsp",220,4000) {
    auto& r=c.rng; const size_t levels=(size_t)r.range(1,4); const double fac=r.pick({0.5,0.3,0.9,0.05}); const bool norm=r.chance(30); EdgeDetectorLBSP e(levels,fac,norm); std::string d=vh::str("lbsp levels ",levels," factor ",fac,norm?" normalised ":" "); size_t edges=0; uint64_t h=0;
    for(int n=(int)r.range(1,3);n>0;--n) {
        const int rows=dim(r),cols=dim(r),ch=(int)r.range(1,4); const cv::Mat im=scene(r,rows,cols,ch); d+=shape(im)+"; "; c.desc(d); const auto b=bytes(im); h^=vh::hbytes(b); const std::vector<G> g=gradients(im,levels); cv::Mat m; if(r.chance(30)) m.create(4,4,CV_32FC1);
        if(r.chance(60)) {
            const double t=r.chance(10)?(r.chance(50)?-1.0:1.5):r.chance(30)?(double)r.below(17)/16:r.unit(); const double tt=t<0||t>1?0.5:t; const int hi=(int)(tt*16),lo=(int)(hi*fac);
            e.apply_threshold(im,m,t); c.check(bytes(im)==b,"input","detector modified its input"); same(c,m,linked(g,rows,cols,hi,lo),"lbsp-mask",vh::str("mask at threshold ",hi,"/16")); edges+=(size_t)cv::countNonZero(m);
            const double t2=std::min(1.0,tt+r.unit()*0.5); cv::Mat m2; e.apply_threshold(im,m2,t2); nested(c,m,m2,vh::str("thresholds ",tt,", ",t2));
        }
        else {
            e.apply(im,m); c.check(bytes(im)==b,"input","detector modified its input"); cv::Mat_<uchar> ex(rows,cols,uchar(0)); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {int k=0; (void)k;}
            cv::Mat_<int> acc(rows,cols,0); for(int t=0;t<16;++t) {const cv::Mat_<uchar> l=linked(g,rows,cols,t,(int)(t*fac)); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) acc(y,x)+=l(y,x)?16:0;} int mx=0,mn=999; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {ex(y,x)=(uchar)std::min(acc(y,x),255); mx=std::max(mx,(int)ex(y,x)); mn=std::min(mn,(int)ex(y,x));}
            if(!norm) same(c,m,ex,"lbsp-soft","soft output"); else {c.check(m.size()==im.size()&&m.type()==CV_8UC1,"shape","soft output has another size"); if(mx>mn) for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) c.check(std::abs((ex(y,x)-mn)*255.0/(mx-mn)-m.at<uchar>(y,x))<=1.0,"lbsp-soft-norm",vh::str("normalised soft output is ",(int)m.at<uchar>(y,x)," for a count of ",(int)ex(y,x)));}
            edges+=(size_t)cv::countNonZero(m);
        }
    }
    c.stat("edge_pixels",edges); if(edges) c.nontrivial(h^levels);
}
SCENARIO("lbsp_dense",10,120) { // many seeds at once: the linking step outgrows its first buffer
    auto& r=c.rng; const int rows=(int)r.range(90,150),cols=(int)r.range(90,150),ch=r.pick({1,1,3}),kind=(int)r.below(3),per=(int)r.range(3,5); cv::Mat im(rows,cols,CV_8UC(ch)); const double amp=r.real(40,120);
    for(int y=0;y<rows;++y) for(int x=0;x<cols*ch;++x) {const int p=kind==0?x/ch:kind==1?y:x/ch+y; im.ptr<uchar>(y)[x]=(uchar)(kind==2&&r.chance(30)?r.below(256):120+((p%per)==0?amp:0)+(double)r.below(12));}
    const double fac=r.pick({0.5,0.3}),t=r.pick({1.0/16,2.0/16,4.0/16,8.0/16}); EdgeDetectorLBSP e(1,fac,false); c.desc(vh::str("stripes of period ",per," kind ",kind," ",shape(im)," threshold ",t)); const std::vector<G> g=gradients(im,1); cv::Mat m; const int hi=(int)(t*16),lo=(int)(hi*fac);
    for(int n=0;n<2;++n) {e.apply_threshold(im,m,t); same(c,m,linked(g,rows,cols,hi,lo),"lbsp-mask",vh::str("mask at threshold ",hi,"/16"));}
    c.stat("edge_pixels",(size_t)cv::countNonZero(m)); c.statmax("dense_share_permille",(uint64_t)cv::countNonZero(m)*1000/(rows*cols)); if(cv::countNonZero(m)) c.nontrivial(vh::hbytes(bytes(im)));
}
SCENARIO("location",60,1000) { // a straight step is reported within a pixel of where it is, and only there
    auto& r=c.rng; const int rows=(int)r.range(14,40),cols=(int)r.range(14,40); const bool hor=r.chance(50); const int at=(int)r.range(5,(hor?rows:cols)-6),a=(int)r.range(0,80),b=(int)r.range(150,255); cv::Mat im(rows,cols,CV_8UC1,cv::Scalar(a)); im(hor?cv::Rect(0,at,cols,rows-at):cv::Rect(at,0,cols-at,rows))=b; const bool inv=r.chance(50); if(inv) im=255-im;
    const bool canny=r.chance(40); c.desc(vh::str(canny?"canny ":"lbsp ",hor?"horizontal":"vertical"," step at ",at," of ",rows,"x",cols)); cv::Mat m; if(canny) {EdgeDetectorCanny e; e.apply_threshold(im,m,60);} else {EdgeDetectorLBSP e((size_t)r.range(1,1)); e.apply_threshold(im,m,0.2);}
    size_t near=0; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(m.at<uchar>(y,x)) {const int p=hor?y:x; c.checkf(p>=at-2&&p<=at+1,"edge-location",[&]{return vh::str("edge pixel (",x,",",y,") far from the step");}); ++near;}
    for(int q=3;q<(hor?cols:rows)-3;++q) {bool any=false; for(int p=at-2;p<=at+1;++p) any=any||m.at<uchar>(hor?p:q,hor?q:p); c.checkf(any,"edge-missed",[&]{return vh::str("step not detected in ",hor?"column ":"row ",q);});}
    c.stat("edge_pixels",near); c.nontrivial(vh::hbytes(bytes(im))^canny);
}
SCENARIO("canny",150,3000) {
    auto& r=c.rng; const double fac=r.pick({0.4,0.2,0.8}),sig=r.pick({0.0,std::sqrt(2.0),0.7,2.5}); EdgeDetectorCanny e(fac,sig); std::string d=vh::str("canny factor ",fac," sigma ",sig," "); size_t edges=0; uint64_t h=0;
    for(int n=(int)r.range(1,3);n>0;--n) {
        const int rows=dim(r),cols=dim(r),ch=r.pick({1,1,3}); const cv::Mat im=scene(r,rows,cols,ch); d+=shape(im)+"; "; c.desc(d); const auto b=bytes(im); h^=vh::hbytes(b); cv::Mat blur=im.clone(); if(sig>0) {const int k=4*(int)std::ceil(sig)-1; cv::GaussianBlur(blur,blur,cv::Size(k,k),sig,sig);}
        auto ref=[&](double t) {cv::Mat o; cv::Canny(blur,o,t*fac,t,3,true); return o;};
        if(r.chance(70)) {const double t=r.chance(10)?-1.0:r.real(1,300); cv::Mat m,m2; e.apply_threshold(im,m,t); c.check(bytes(im)==b,"input","detector modified its input"); same(c,m,ref(t<0?100.0:t),"canny-mask",vh::str("mask at threshold ",t)); const double t2=(t<0?100.0:t)+r.real(0,200); e.apply_threshold(im,m2,t2); nested(c,m,m2,vh::str("thresholds ",t,", ",t2)); edges+=(size_t)cv::countNonZero(m);}
        else if(rows*cols<700) {cv::Mat m; e.apply(im,m); c.check(bytes(im)==b,"input","detector modified its input"); cv::Mat_<int> acc(rows,cols,0); for(int t=0;t<255;++t) acc+=(ref(t)/255); int mx=0,mn=999; for(int v : acc) {mx=std::max(mx,v); mn=std::min(mn,v);} c.check(m.size()==im.size()&&m.type()==CV_8UC1,"shape","soft output has another size");
            if(mx>mn) for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) c.checkf(std::abs((acc(y,x)-mn)*255.0/(mx-mn)-m.at<uchar>(y,x))<=1.0,"canny-soft",[&]{return vh::str("soft output at (",x,",",y,") is ",(int)m.at<uchar>(y,x)," for ",acc(y,x)," thresholds of at most ",mx);}); edges+=(size_t)cv::countNonZero(m);}
    }
    c.stat("edge_pixels",edges); if(edges) c.nontrivial(h);
}
VH_MAIN
