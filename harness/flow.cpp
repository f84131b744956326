// C24: image warping, offset remapping, temporal differences, optical flow
#include "cvgen.hpp"
#include "litiv/imgproc.hpp"
#include "litiv/imgproc/imwarp.hpp"
#include "litiv/3rdparty/ofdis/ofdis.hpp"
#include <opencv2/imgproc.hpp>
#include <malloc.h>
#include <thread>
using namespace cg;
static cv::Mat image8(vh::Rng& r, int rows, int cols, int ch) {
    cv::Mat m(rows,cols,CV_8UC(ch)); const int kind=(int)r.below(5);
    if(kind==0) {m.setTo(cv::Scalar::all((double)r.below(256))); return m;}
    if(kind==1) {for(int y=0;y<rows;++y) for(int x=0;x<cols*ch;++x) m.ptr(y)[x]=(uchar)r.u32(); return m;}
    if(kind==2) {for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) for(int k=0;k<ch;++k) m.ptr(y)[x*ch+k]=(uchar)((x*3+y*5+k*17)%256); return m;}
    if(kind==3) {const int q=1+(int)r.below(6); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) for(int k=0;k<ch;++k) m.ptr(y)[x*ch+k]=((x/q+y/q)&1)?255:0; return m;}
    const double a=r.real(0.05,0.4),b=r.real(0.05,0.4); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) for(int k=0;k<ch;++k) m.ptr(y)[x*ch+k]=cv::saturate_cast<uchar>(128+60*std::sin(a*x+k)+60*std::cos(b*y-k)); return m;
}
// every value the definition allows at a source position known up to eps (bilinear over the replicated image)
static void allowed(const cv::Mat& in, double sx, double sy, double eps, int k, double& lo, double& hi) {
    const int ch=in.channels(),W=in.cols,H=in.rows; lo=1e9; hi=-1e9;
    auto V=[&](double x, double y){x=std::min(std::max(x,0.0),W-1.0); y=std::min(std::max(y,0.0),H-1.0); const int x0=(int)x,y0=(int)y,x1=std::min(x0+1,W-1),y1=std::min(y0+1,H-1); const double u=x-x0,v=y-y0; auto P=[&](int a, int b){return (double)in.ptr(b)[a*ch+k];}; return (P(x0,y0)*(1-u)+P(x1,y0)*u)*(1-v)+(P(x0,y1)*(1-u)+P(x1,y1)*u)*v;};
    // a bilinear surface has its extrema over a box at box corners and cell borders
    std::vector<double> xs={sx-eps,sx+eps},ys={sy-eps,sy+eps}; for(double q=std::ceil(sx-eps);q<=sx+eps;q+=1) xs.push_back(q); for(double q=std::ceil(sy-eps);q<=sy+eps;q+=1) ys.push_back(q);
    for(double x : xs) for(double y : ys) {const double v=V(x,y); lo=std::min(lo,v); hi=std::max(hi,v);}
}
struct Aff {double a,b,tx,ty; cv::Point2d operator()(const cv::Point2d& p) const {return cv::Point2d(a*p.x-b*p.y+tx,b*p.x+a*p.y+ty);}};
static std::vector<cv::Point2d> points(vh::Rng& r, int n, int W, int H, bool grid) {
    std::vector<cv::Point2d> v; for(int i=0;i<n;++i) {cv::Point2d p; bool ok=false; for(int t=0;t<60&&!ok;++t) {p=grid||r.chance(50)?cv::Point2d((double)r.range(-2,W+1),(double)r.range(-2,H+1)):cv::Point2d(r.real(-2,W+2),r.real(-2,H+2)); ok=true; for(auto& q : v) if(std::hypot(p.x-q.x,p.y-q.y)<0.9) ok=false;} if(ok) v.push_back(p);} return v;
}
SCENARIO("warp_exact",600,12000) {
    // control points related by a translation, rotation or similarity: the whole warp is that transformation
    auto& r=c.rng; const int W=(int)r.range(1,c.thorough()?60:34),H=(int)r.range(1,c.thorough()?60:34),ch=(int)r.range(1,4); const bool other=r.chance(30); const int SW=other?(int)r.range(1,34):W,SH=other?(int)r.range(1,34):H; const int grid=(int)r.pick({1,2,3,5,7,40}); const auto mode=r.chance(50)?ImageWarper::RIGID:ImageWarper::SIMILARITY;
    const int kind=(int)r.below(4); Aff T{1,0,0,0}; if(kind>=1) {T.tx=r.chance(50)?(double)r.range(-6,6):r.real(-6,6); T.ty=r.chance(50)?(double)r.range(-6,6):r.real(-6,6);}
    if(kind>=2) {const double th=r.chance(30)?CV_PI/2*(double)r.below(4):r.real(-3,3),s=kind==3&&mode==ImageWarper::SIMILARITY?r.real(0.4,2.0):1; T.a=s*std::cos(th); T.b=s*std::sin(th); T.tx+=r.real(0,SW); T.ty+=r.real(0,SH);}
    const auto dst=points(r,(int)r.range(2,7),W,H,r.chance(50)); if(dst.size()<2) return; std::vector<cv::Point2d> src; for(auto& p : dst) src.push_back(T(p));
    const double ratio=r.chance(60)?1.0:r.chance(30)?0.0:r.real(0,1.5); cv::Mat in=image8(r,SH,SW,ch); const auto before=bytes(in);
    c.desc(vh::str(mode==ImageWarper::RIGID?"rigid":"similarity"," dest ",W,"x",H," source ",SW,"x",SH,"x",ch," grid ",grid," points ",dst.size()," a=",T.a," b=",T.b," t=(",T.tx,",",T.ty,") ratio ",ratio));
    ImageWarper w; if(r.chance(30)) {const auto p=points(r,3,9,9,false); if(p.size()>1) w.initialize(p,cv::Size(9,9),p,cv::Size(12,7),3,ImageWarper::RIGID);} w.initialize(src,cv::Size(SW,SH),dst,cv::Size(W,H),grid,mode); c.check(w.isInitialized(),"warp-init","not initialised");
    cv::Mat out; if(r.chance(40)) out=cv::Mat(H,W+3,CV_8UC(ch),cv::Scalar::all(7))(cv::Rect(1,0,W,H)); w.warp(in,out,ratio); c.check(bytes(in)==before,"warp-input","warping modified its input"); c.check(out.rows==H&&out.cols==W&&out.type()==in.type(),"warp-shape","output has another size or type");
    const double slope=(std::abs(T.a-1)+std::abs(T.b))*std::abs(ratio); size_t moved=0;
    for(int y=0;y<H;++y) for(int x=0;x<W;++x) {
        const cv::Point2d q=T(cv::Point2d(x,y)); const double sx=x+(q.x-x)*ratio,sy=y+(q.y-y)*ratio; double eps=1e-6*(1+std::abs(q.x)+std::abs(q.y));
        // the last, partial grid cell is interpolated with the cell size rather than the node distance: at most one pixel of displacement change
        if(slope>0&&(x>=(W-1)/grid*grid||x>=W/grid*grid||y>=(H-1)/grid*grid||y>=H/grid*grid)) eps+=slope*1.01;
        for(int k=0;k<ch;++k) {double lo,hi; allowed(in,sx,sy,eps,k,lo,hi); const int g=out.ptr(y)[x*ch+k]; c.checkf(g>=lo-1.01&&g<=hi+0.01,"warp-value",[&]{return vh::str("pixel (",x,",",y,",",k,") is ",g," but the source position (",sx,",",sy,") allows [",lo,",",hi,"]");});}
        moved+=sx!=x||sy!=y;
    }
    c.stat("warped_pixels",moved); c.nontrivial(vh::hbytes(before)*31+vh::hbytes(bytes(out)));
}
SCENARIO("warp_points",500,9000) {
    // arbitrary control points: those on grid nodes map exactly, everything stays inside the image and within the values of the input
    auto& r=c.rng; const int W=(int)r.range(1,36),H=(int)r.range(1,36),SW=(int)r.range(1,36),SH=(int)r.range(1,36),ch=(int)r.range(1,4),grid=(int)r.pick({1,2,4,5,9,50}); const auto mode=r.chance(50)?ImageWarper::RIGID:ImageWarper::SIMILARITY;
    std::vector<cv::Point2d> dst,src; const int n=(int)r.range(1,8); const int degenerate=r.chance(30)?(int)r.range(1,3):0;
    for(int i=0;i<n;++i) {dst.emplace_back(r.chance(50)?(double)(r.range(0,W-1)/grid*grid):(double)r.range(0,W-1),r.chance(50)?(double)(r.range(0,H-1)/grid*grid):(double)r.range(0,H-1)); src.emplace_back(r.chance(50)?(double)r.range(-3,SW+3):r.real(-3,SW+3),r.chance(50)?(double)r.range(-3,SH+3):r.real(-3,SH+3));}
    if(degenerate==1) for(auto& p : dst) p=dst[0]; else if(degenerate==2) for(auto& p : src) p=src[0]; else if(degenerate==3&&n>1) {dst[1]=dst[0]; src[1]=src[0];}
    cv::Mat in=image8(r,SH,SW,ch); const auto before=bytes(in); c.desc(vh::str(mode==ImageWarper::RIGID?"rigid":"similarity"," dest ",W,"x",H," source ",SW,"x",SH,"x",ch," grid ",grid," points ",n," degenerate ",degenerate));
    ImageWarper w(src,cv::Size(SW,SH),dst,cv::Size(W,H),grid,mode); cv::Mat out; const double ratio=r.chance(70)?1.0:r.real(-0.5,1.5); w.warp(in,out,ratio); c.check(bytes(in)==before,"warp-input","warping modified its input"); c.check(out.rows==H&&out.cols==W&&out.type()==in.type(),"warp-shape","output has another size or type");
    for(int k=0;k<ch;++k) {cv::Mat ci,co; cv::extractChannel(in,ci,k); cv::extractChannel(out,co,k); double a,b,x,y; cv::minMaxLoc(ci,&a,&b); cv::minMaxLoc(co,&x,&y); c.ck(x>=a-1&&y<=b,"warp-range","channel ",k," holds [",x,",",y,"] from an input in [",a,",",b,"]");}
    size_t nodes=0; for(size_t i=0;i<dst.size();++i) {
        const int x=(int)dst[i].x,y=(int)dst[i].y; if(x%grid||y%grid) continue; bool first=true; for(size_t j=0;j<i;++j) if(dst[j]==dst[i]) first=false; if(!first) continue; ++nodes;
        const double sx=n<2?x:x+(src[i].x-x)*ratio,sy=n<2?y:y+(src[i].y-y)*ratio;
        for(int k=0;k<ch;++k) {double lo,hi; allowed(in,sx,sy,1e-6*(1+std::abs(sx)+std::abs(sy)),k,lo,hi); const int g=out.ptr(y)[x*ch+k]; c.checkf(g>=lo-1.01&&g<=hi+0.01,"warp-node",[&]{return vh::str("control point (",x,",",y,",",k,") is ",g," but its source position (",sx,",",sy,") allows [",lo,",",hi,"]");});}
    }
    bool apart=false; for(auto& p : dst) if(p!=dst[0]) apart=true;
    if(degenerate==2&&n>1&&apart&&mode==ImageWarper::SIMILARITY&&ratio==1.0) // all sources coincide: every destination is drawn to that point
        for(int y=0;y<H;++y) for(int x=0;x<W;++x) if(x%grid==0&&y%grid==0) for(int k=0;k<ch;++k) {double lo,hi; allowed(in,src[0].x,src[0].y,1e-6,k,lo,hi); const int g=out.ptr(y)[x*ch+k]; c.checkf(g>=lo-1.01&&g<=hi+0.01,"warp-collapse",[&]{return vh::str("(",x,",",y,") is ",g," instead of [",lo,",",hi,"]");});}
    if(n>1&&ratio==1.0&&(!apart||(degenerate==2&&mode==ImageWarper::RIGID))&&degenerate!=3&&degenerate!=0&&(degenerate==2||n==2)&&dst.size()==2u) // two points without any orientation: a translation of the mean
        for(int y=0;y<H;++y) for(int x=0;x<W;++x) if(x%grid==0&&y%grid==0) {bool at=false; for(auto& p : dst) if(p==cv::Point2d(x,y)) at=true; if(at) continue; double w=0,wx=0,wy=0,sx=0,sy=0; for(int i=0;i<2;++i) {const double q=1/(std::pow(dst[i].x-x,2)+std::pow(dst[i].y-y,2)); w+=q; wx+=q*dst[i].x; wy+=q*dst[i].y; sx+=q*src[i].x; sy+=q*src[i].y;} for(int k=0;k<ch;++k) {double lo,hi; allowed(in,x+(sx-wx)/w,y+(sy-wy)/w,1e-6,k,lo,hi); const int g=out.ptr(y)[x*ch+k]; c.checkf(g>=lo-1.01&&g<=hi+0.01,"warp-translation",[&]{return vh::str("(",x,",",y,") is ",g," instead of [",lo,",",hi,"]");});}}
    // repeated and in another object: same result
    cv::Mat out2; ImageWarper w2; w2.initialize(src,cv::Size(SW,SH),dst,cv::Size(W,H),grid,mode); w2.warp(in,out2,ratio); w.warp(in,out,ratio); c.check(sameBits(out,out2),"warp-repeat","a second warper gives another image");
    c.stat("exact_nodes",nodes); c.nontrivial(vh::hbytes(before)*31+vh::hbytes(bytes(out)));
}
template<typename F> static bool refuses(F f) {try {f(); return false;} catch(const std::exception&) {return true;}}
SCENARIO("warp_misuse",60,600) {
    auto& r=c.rng; const std::vector<cv::Point2d> a={{0,0},{5,2},{1,7}},b={{1,0},{4,2},{1,6}},none; const cv::Size s(9,8); const int k=(int)r.below(10); c.desc(vh::str("misuse ",k)); ImageWarper w; cv::Mat in=image8(r,8,9,1+2*(int)r.below(2)),out; bool ok=true;
    if(k==0) ok=refuses([&]{w.warp(in,out);}); else if(k==1) ok=refuses([&]{w.initialize(a,s,none,s);}); else if(k==2) ok=refuses([&]{w.initialize(none,s,none,s);}); else if(k==3) ok=refuses([&]{w.initialize(a,s,{b[0]},s);}); else if(k==4) ok=refuses([&]{w.initialize(a,s,b,s,(int)r.pick({0,-1,-5}));}); else if(k==5) ok=refuses([&]{w.initialize(a,cv::Size(0,8),b,s);})&&refuses([&]{w.initialize(a,s,b,cv::Size(8,0));}); else if(k==6) ok=refuses([&]{w.initialize(a,s,b,s,5,ImageWarper::CUSTOM);})&&!w.isInitialized();
    else {w.initialize(a,s,b,s); if(k==7) ok=refuses([&]{w.warp(image8(r,(int)r.pick({7,9}),9,1),out);})&&refuses([&]{w.warp(cv::Mat(),out);}); else if(k==8) {cv::Mat f; in.convertTo(f,(int)r.pick({CV_16U,CV_32F})); ok=refuses([&]{w.warp(f,out);});} else {cv::Mat big=image8(r,12,14,1); ok=refuses([&]{w.warp(big(cv::Rect(1,1,9,8)),out);});}
        c.check(out.empty(),"misuse-output","a refused call wrote its output"); w.warp(in,out); c.check(out.size()==s,"misuse-after","warper unusable after a refused call");}
    c.check(ok,"misuse","an invalid call was accepted"); c.nontrivial(vh::str("misuse",k,in.channels()));
}
SCENARIO("remap",400,8000) {
    auto& r=c.rng; const int W=(int)r.range(1,30),H=(int)r.range(1,30),ch=(int)r.range(1,4); cv::Mat full=image8(r,H+2,W+3,ch); cv::Mat in=r.chance(30)?full(cv::Rect(1,1,W,H)):image8(r,H,W,ch); const int depth=(int)r.pick({CV_8U,CV_8U,CV_16U,CV_32F}); if(depth!=CV_8U) in.convertTo(in,depth,depth==CV_32F?0.3:200);
    cv::Mat offFull(H,W+2,CV_32FC2); cv::Mat off=r.chance(30)?offFull(cv::Rect(1,0,W,H)):cv::Mat(H,W,CV_32FC2); const int kind=(int)r.below(3); const cv::Vec2f u((float)r.range(-9,9),(float)r.range(-9,9)); for(int y=0;y<H;++y) for(int x=0;x<W;++x) off.at<cv::Vec2f>(y,x)=kind==0?u:kind==1?cv::Vec2f((float)r.range(-9,9),(float)r.range(-9,9)):cv::Vec2f((float)r.range(-80,80)/8.f,(float)r.range(-80,80)/8.f);
    const bool repl=r.chance(50); const cv::Scalar bv((double)r.below(256),(double)r.below(256),(double)r.below(256),(double)r.below(256)); const int it=kind==2?cv::INTER_LINEAR:(int)r.pick({(int)cv::INTER_NEAREST,(int)cv::INTER_LINEAR}); const auto before=bytes(in),bo=bytes(off); cv::Mat out; if(r.chance(30)) out=cv::Mat(H,W+5,in.type())(cv::Rect(2,0,W,H));
    c.desc(vh::str(shape(in)," offsets kind ",kind," u=(",u[0],",",u[1],") interp ",it,repl?" replicate":" constant")); if(repl) lv::remap_offset(in,out,off,it,cv::BORDER_REPLICATE); else lv::remap_offset(in,out,off,it,cv::BORDER_CONSTANT,bv);
    c.check(bytes(in)==before&&bytes(off)==bo,"remap-input","inputs modified"); c.check(sameShape(in,out),"remap-shape","output has another size or type"); auto V=[&](const cv::Mat& m, int y, int x, int k){return depth==CV_8U?(double)m.ptr<uchar>(y)[x*ch+k]:depth==CV_16U?(double)m.ptr<ushort>(y)[x*ch+k]:(double)m.ptr<float>(y)[x*ch+k];};
    const double amp=depth==CV_8U?255:depth==CV_16U?51000:77; for(int y=0;y<H;++y) for(int x=0;x<W;++x) {const cv::Vec2f d=off.at<cv::Vec2f>(y,x); const double sx=x-d[0],sy=y-d[1]; for(int k=0;k<ch;++k) {
        auto P=[&](int a, int b){if(repl) {a=std::min(std::max(a,0),W-1); b=std::min(std::max(b,0),H-1);} else if(a<0||b<0||a>=W||b>=H) return bv[k]; return V(in,b,a,k);}; const int x0=(int)std::floor(sx),y0=(int)std::floor(sy); const double fu=sx-x0,fv=sy-y0; const double e=(P(x0,y0)*(1-fu)+P(x0+1,y0)*fu)*(1-fv)+(P(x0,y0+1)*(1-fu)+P(x0+1,y0+1)*fu)*fv,g=V(out,y,x,k);
        const double tol=kind==2?(depth==CV_8U?1.01:1e-3*amp):(depth==CV_32F?1e-4:0); c.checkf(std::abs(g-e)<=tol,"remap-value",[&]{return vh::str("(",x,",",y,",",k,") is ",g," instead of ",e);});}}
    if(r.chance(15)) {cv::Mat bad(H,W+1,CV_32FC2,cv::Scalar::all(0)),bad2(H,W,CV_32FC1,cv::Scalar::all(0)),o; c.check(refuses([&]{lv::remap_offset(in,o,bad,it);})&&refuses([&]{lv::remap_offset(in,o,bad2,it);})&&refuses([&]{lv::remap_offset(cv::Mat(),o,off,it);}),"remap-misuse","invalid parameters accepted");}
    c.nontrivial(vh::hbytes(before)*31+vh::hbytes(bo));
}
SCENARIO("temporal_diff",300,6000) {
    auto& r=c.rng; const int W=(int)r.range(1,24),H=(int)r.range(1,24),ch=r.chance(50)?1:3,ks=(int)r.pick({0,1,1,3,5}); cv::Mat a=image8(r,H,W,ch),b=r.chance(20)?a.clone():image8(r,H,W,ch),f(H,W,CV_32FC2); const int kind=(int)r.below(3); for(int y=0;y<H;++y) for(int x=0;x<W;++x) f.at<cv::Vec2f>(y,x)=kind==0?cv::Vec2f(0,0):kind==1?cv::Vec2f((float)r.range(-7,7),(float)r.range(-7,7)):cv::Vec2f((float)r.real(-7,7),(float)r.real(-7,7));
    const auto ba=bytes(a),bb=bytes(b),bf=bytes(f); cv::Mat out; c.desc(vh::str(shape(a)," flow kind ",kind," kernel ",ks)); lv::computeTemporalAbsDiff(a,b,f,out,ks); c.check(bytes(a)==ba&&bytes(b)==bb&&bytes(f)==bf,"tdiff-input","inputs modified"); c.check(out.rows==H&&out.cols==W&&out.type()==CV_32FC(ch),"tdiff-shape","output has another size or type");
    cv::Mat ref(H,W,CV_32FC(ch)); for(int y=0;y<H;++y) for(int x=0;x<W;++x) {const cv::Vec2f d=f.at<cv::Vec2f>(y,x); const double sx=std::min(std::max((double)(x+d[0]),-1e4),1e4),sy=y+d[1]; for(int k=0;k<ch;++k) {auto P=[&](int p, int q){p=std::min(std::max(p,0),W-1); q=std::min(std::max(q,0),H-1); return (double)b.ptr(q)[p*ch+k];}; const int x0=(int)std::floor(sx),y0=(int)std::floor(sy); const double u=sx-x0,v=sy-y0; const double e=(P(x0,y0)*(1-u)+P(x0+1,y0)*u)*(1-v)+(P(x0,y0+1)*(1-u)+P(x0+1,y0+1)*u)*v; ref.ptr<float>(y)[x*ch+k]=(float)std::abs(a.ptr(y)[x*ch+k]-e);}}
    if(ks>1) cv::GaussianBlur(ref,ref,cv::Size(ks,ks),0); for(int y=0;y<H;++y) for(int x=0;x<W*ch;++x) {const float g=out.ptr<float>(y)[x],e=ref.ptr<float>(y)[x]; c.checkf(std::abs(g-e)<=0.02f,"tdiff-value",[&]{return vh::str("(",x/ch,",",y,") is ",g," instead of ",e);});}
    c.nontrivial(vh::hbytes(ba)*31+vh::hbytes(bb)*7+vh::hbytes(bf));
}
// ---- optical flow
static cv::Mat texture(vh::Rng& r, int rows, int cols, int ch) {cv::Mat m(rows,cols,CV_32FC(ch)); for(int y=0;y<rows;++y) for(int x=0;x<cols*ch;++x) m.ptr<float>(y)[x]=(float)r.unit(); cv::Mat a,b; cv::GaussianBlur(m,a,cv::Size(0,0),1.5); cv::GaussianBlur(m,b,cv::Size(0,0),4); a=a*2+b*4; cv::normalize(a.reshape(1),a,0,255,cv::NORM_MINMAX); a=a.reshape(ch,rows); cv::Mat o; a.convertTo(o,CV_8U); return o;}
enum {FlowOpt,FlowStereo,FlowGrad};
static void flow(int type, const cv::Mat& a, const cv::Mat& b, cv::Mat& o, int op) {
    using namespace ofdis;
    if(type==FlowGrad) computeFlow<FlowInput_Gradient,FlowOutput_OpticalFlow>(a,b,o,FlowParams(op));
    else if(a.channels()==3) type==FlowOpt?computeFlow<FlowInput_RGB,FlowOutput_OpticalFlow>(a,b,o,FlowParams(op)):computeFlow<FlowInput_RGB,FlowOutput_StereoDepth>(a,b,o,FlowParams(op));
    else type==FlowOpt?computeFlow<FlowInput_Grayscale,FlowOutput_OpticalFlow>(a,b,o,FlowParams(op)):computeFlow<FlowInput_Grayscale,FlowOutput_StereoDepth>(a,b,o,FlowParams(op));
}
static void checkFlowShape(vh::Case& c, int type, const cv::Mat& a, const cv::Mat& o) {
    c.ck(o.size()==a.size()&&o.type()==(type!=FlowStereo?CV_32FC2:CV_32FC1),"flow-shape","flow of ",shape(a)," has shape ",shape(o));
    for(int y=0;y<o.rows;++y) for(int x=0;x<o.cols*o.channels();++x) c.checkf(std::isfinite(o.ptr<float>(y)[x]),"flow-finite",[&]{return vh::str("flow at (",x/o.channels(),",",y,") is ",o.ptr<float>(y)[x]);});
}
static void sizes(vh::Rng& r, bool thorough, int& W, int& H) {if(r.chance(50)) {W=(int)r.range(1,24); H=(int)r.range(1,24);} else if(r.chance(50)) {W=(int)r.range(16,96); H=(int)r.range(16,96);} else {W=(int)r.range(1,thorough?200:120); H=(int)r.range(1,thorough?200:120);}}
SCENARIO("flow_self",120,1500) {
    auto& r=c.rng; int W,H; sizes(r,c.thorough(),W,H); const int ch=r.chance(50)?1:3,op=(int)r.range(1,W*H>4000?3:4),type=r.chance(70)?FlowOpt:ch==1&&r.chance(50)?FlowGrad:FlowStereo; cv::Mat a=r.chance(60)?image8(r,H,W,ch):texture(r,H,W,ch); const auto before=bytes(a); cv::Mat o; c.desc(vh::str("self ",W,"x",H,"x",ch," preset ",op,type==FlowOpt?" flow":type==FlowGrad?" gradient flow":" stereo")); flow(type,a,a.clone(),o,op); c.check(bytes(a)==before,"flow-input","input modified"); checkFlowShape(c,type,a,o);
    double mx=0; for(int y=0;y<H;++y) for(int x=0;x<W*o.channels();++x) mx=std::max(mx,(double)std::abs(o.ptr<float>(y)[x])); c.statmax("self_flow_max_e6",(uint64_t)(mx*1e6)); c.ck(mx<=1e-3,"flow-self","flow between identical images reaches ",mx," pixels"); c.nontrivial(vh::hbytes(before)*31+op);
}
SCENARIO("flow_any",150,2500) {
    // hostile pairs: unrelated contents, flat or one-dimensional structures, tiny sizes; repeated with other call history, thread and heap content
    auto& r=c.rng; int W,H; sizes(r,c.thorough(),W,H); const int ch=r.chance(50)?1:3,op=(int)r.range(1,W*H>3000?3:4),type=r.chance(70)?FlowOpt:ch==1&&r.chance(50)?FlowGrad:FlowStereo; cv::Mat a=image8(r,H,W,ch),b=image8(r,H,W,ch); const auto ba=bytes(a),bb=bytes(b); cv::Mat o,p,q; c.desc(vh::str("any ",W,"x",H,"x",ch," preset ",op,type==FlowOpt?" flow":type==FlowGrad?" gradient flow":" stereo")); mallopt(M_PERTURB,0x55); flow(type,a,b,o,op); c.check(bytes(a)==ba&&bytes(b)==bb,"flow-input","input modified"); checkFlowShape(c,type,a,o);
    if(type==FlowStereo) {double mx; cv::minMaxLoc(o,nullptr,&mx); c.ck(mx<=1e-4,"stereo-sign","stereo displacement is positive: ",mx);}
    {cv::Mat x=image8(r,(int)r.range(8,60),(int)r.range(8,60),ch),y; flow(FlowOpt,x,x,y,1);} mallopt(M_PERTURB,0xA7); if(r.chance(50)) {std::thread t([&]{flow(type,a,b,p,op);}); t.join();} else flow(type,a,b,p,op); mallopt(M_PERTURB,0);
    c.check(sameBits(o,p),"flow-repeat","the same pair gives another flow the second time"); c.nontrivial(vh::hbytes(ba)*31+vh::hbytes(bb)*7+op);
}
SCENARIO("flow_shift",24,300) {
    auto& r=c.rng; const int W=(int)r.range(64,128),H=(int)r.range(64,128),ch=r.chance(50)?1:3,op=(int)r.range(1,4),type=r.chance(75)?FlowOpt:FlowStereo; const int dx=type==FlowStereo?-(int)r.range(0,4):(int)r.range(-4,4),dy=type==FlowStereo?0:(int)r.range(-4,4);
    cv::Mat big=texture(r,H+16,W+16,ch); cv::Mat a=big(cv::Rect(8,8,W,H)).clone(),b=big(cv::Rect(8-dx,8-dy,W,H)).clone(),o; c.desc(vh::str("shift ",W,"x",H,"x",ch," by (",dx,",",dy,") preset ",op,type==FlowOpt?" flow":type==FlowGrad?" gradient flow":" stereo")); flow(type,a,b,o,op); checkFlowShape(c,type,a,o);
    std::vector<float> ex,ey; for(int y=12;y<H-12;++y) for(int x=12;x<W-12;++x) {if(type==FlowOpt) {const cv::Vec2f v=o.at<cv::Vec2f>(y,x); ex.push_back(std::abs(v[0]-dx)); ey.push_back(std::abs(v[1]-dy));} else {ex.push_back(std::abs(o.at<float>(y,x)-dx)); ey.push_back(0);}}
    std::sort(ex.begin(),ex.end()); std::sort(ey.begin(),ey.end()); const double mx=std::max(ex[ex.size()/2],ey[ey.size()/2]),m9=std::max(ex[ex.size()*8/10],ey[ey.size()*8/10]); c.statmax("shift_median_err_e3",(uint64_t)(mx*1e3)); c.statmax("shift_p80_err_e3",(uint64_t)(m9*1e3));
    c.ck(m9<=0.3,"flow-shift","80% of the recovered shift is only within ",m9," pixels"); c.ck(mx<=0.1,"flow-shift","median error of the recovered shift is ",mx," pixels"); c.nontrivial(vh::hbytes(bytes(a))*31+op);
}
SCENARIO("flow_output",60,600) {
    // a pre-allocated (also non-continuous) output receives the same flow; nothing around it changes
    auto& r=c.rng; int W,H; sizes(r,false,W,H); const int ch=r.chance(50)?1:3,op=(int)r.range(1,2); cv::Mat a=image8(r,H,W,ch),b=image8(r,H,W,ch),o; cv::Mat frame(H+2,W+4,CV_32FC2,cv::Scalar::all(7)); cv::Mat v=frame(cv::Rect(2,1,W,H)); c.desc(vh::str("preallocated output ",W,"x",H,"x",ch," preset ",op)); flow(FlowOpt,a,b,o,op); flow(FlowOpt,a,b,v,op); checkFlowShape(c,FlowOpt,a,v); c.check(sameBits(o,v),"flow-output","a pre-allocated output receives another flow");
    for(int y=0;y<H+2;++y) for(int x=0;x<W+4;++x) if(y<1||y>H||x<2||x>=W+2) c.check(frame.at<cv::Vec2f>(y,x)==cv::Vec2f(7,7),"flow-outside","memory around a pre-allocated output was written");
    // the same output variable over several sizes
    for(int i=0;i<3;++i) {int w2,h2; if(i==0) {w2=o.cols;h2=o.rows;} else {w2=(int)r.range(1,64); h2=(int)r.range(1,64);} cv::Mat x=image8(r,h2,w2,ch),y=image8(r,h2,w2,ch),fresh; flow(FlowOpt,x,y,o,op); flow(FlowOpt,x,y,fresh,op); c.check(sameBits(o,fresh),"flow-reuse","a re-used output receives another flow");}
    // mismatched inputs are refused
    cv::Mat x=image8(r,H,W,ch),y=image8(r,(int)r.range(1,H+3),W+1,ch),z; c.check(refuses([&]{flow(FlowOpt,x,y,z,op);})&&refuses([&]{flow(FlowOpt,y,x,z,op);}),"flow-mismatch","images of different sizes were accepted"); c.check(refuses([&]{flow(FlowOpt,x,cv::Mat(),z,op);})&&refuses([&]{flow(FlowOpt,x,image8(r,H,W,ch==1?3:1),z,op);}),"flow-misuse","an empty image or another channel count was accepted");
    c.nontrivial(vh::hbytes(bytes(a))*31+op);
}
VH_MAIN
