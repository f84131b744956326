// C10: LBSP descriptors against the pattern definition
#include "cvgen.hpp"
#include "litiv/features2d/LBSP.hpp"
using namespace cg;
// the double-cross pattern of the documentation, bit by bit (x,y)
static const int PX[16]={-2,2,0,0,-2,2,2,-2,0,-1,0,1,-1,1,1,-1}, PY[16]={0,0,-2,2,2,-2,2,-2,1,0,-1,0,-1,1,-1,1};
static uint16_t ref16(const cv::Mat& im, int x, int y, int k, int ref, int thr) {
    uint16_t d=0;
    for(int n=0; n<16; ++n) {const int v=im.ptr<uint8_t>(y+PY[n])[(x+PX[n])*im.channels()+k]; if(std::abs(v-ref)>thr) d=(uint16_t)(d|(1u<<n));}
    return d;
}
struct Mode {bool abs; size_t thr; float rel; size_t off;
    int at(int ref) const {if(abs) return (int)std::min<size_t>(thr,255); const float f=(float)ref*rel+(float)off; const long v=std::lrint(f); return v<0?0:v>255?255:(int)v;}
    std::string str() const {return abs?vh::str("abs ",thr):vh::str("rel ",rel,"+",off);}
    std::unique_ptr<LBSP> make() const {return abs?std::unique_ptr<LBSP>(new LBSP(thr)):std::unique_ptr<LBSP>(new LBSP(rel,off));}
};
static Mode randMode(vh::Rng& r) {
    Mode m; m.abs=r.chance(50); m.thr=r.chance(80)?r.below(256):r.below(1000); m.rel=r.chance(20)?0.f:(float)r.real(0,r.chance(80)?1.0:4.0); m.off=r.chance(50)?0:r.below(r.chance(90)?60:400); return m;
}
static bool inside(const cv::Mat& m, int x, int y) {return x>=2&&y>=2&&x<m.cols-2&&y<m.rows-2;}
SCENARIO("dense",500,12000) {
    auto& r=c.rng; const int ch=r.chance(50)?1:3,rows=(int)r.range(r.chance(10)?1:5,20),cols=(int)r.range(r.chance(10)?1:5,24);
    const cv::Mat im=image(r,rows,cols,CV_8UC(ch)); const bool useRef=r.chance(40); const cv::Mat rf=useRef?image(r,rows,cols,CV_8UC(ch)):cv::Mat();
    const Mode m=randMode(r); auto l=m.make(); c.desc(vh::str(shape(im)," ",m.str(),useRef?" with reference":""));
    l->setReference(rf); if(r.chance(30)) {l->setReference(image(r,rows,cols,CV_8UC(ch))); l->setReference(rf);}
    const auto before=bytes(im); const cv::Mat& R=useRef?rf:im;
    cv::Mat d; if(r.chance(30)) d=cv::Mat(3,3,CV_8UC1); else if(r.chance(30)) {d.create(rows,cols,CV_16UC(ch)); d=cv::Scalar::all(777);}
    if(r.chance(70)) l->compute2(im,d); else {std::vector<cv::Mat> v={image(r,rows,cols,CV_8UC(ch)),im},o; l->compute2(v,o); c.check(o.size()==2,"batch","batch size"); d=o[1];}
    c.check(bytes(im)==before,"input","image was modified");
    c.check(d.rows==rows&&d.cols==cols&&d.type()==CV_16UC(ch),"shape","descriptor map has another size or type");
    size_t bits=0;
    for(int y=2; y<rows-2; ++y) for(int x=2; x<cols-2; ++x) for(int k=0; k<ch; ++k) {
        const int rv=R.ptr<uint8_t>(y)[x*ch+k]; const uint16_t e=ref16(im,x,y,k,rv,m.at(rv)),g=d.ptr<uint16_t>(y)[x*ch+k]; bits+=(size_t)__builtin_popcount(e);
        c.checkf(g==e,"dense-value",[&]{return vh::str("descriptor at (",x,",",y,") channel ",k," is ",g," instead of ",e," (reference value ",rv,", threshold ",m.at(rv),")");});
    }
    c.stat("bits_set",bits);
    if(bits) c.nontrivial(vh::hbytes(im.data,im.total()*im.elemSize())^vh::hbytes(d.data,4));
    c.check(l->descriptorSize()==2&&l->borderSize(0)==2&&l->windowSize()==cv::Size(5,5)&&l->defaultNorm()==cv::NORM_HAMMING&&l->isUsingRelThreshold()==!m.abs,"info","wrong descriptor info");
}
SCENARIO("keypoints",600,12000) {
    auto& r=c.rng; const int ch=r.chance(50)?1:3,rows=(int)r.range(r.chance(10)?1:5,16),cols=(int)r.range(r.chance(10)?1:5,16);
    const cv::Mat im=image(r,rows,cols,CV_8UC(ch)); const bool useRef=r.chance(40); const cv::Mat rf=useRef?image(r,rows,cols,CV_8UC(ch)):cv::Mat(); const cv::Mat& R=useRef?rf:im;
    const Mode m=randMode(r); auto l=m.make(); l->setReference(rf); const bool frac=r.chance(40);
    std::vector<cv::KeyPoint> kps; const int n=(int)r.below(40);
    for(int i=0; i<n; ++i) {float x=(float)r.real(-2,cols+1),y=(float)r.real(-2,rows+1); if(!frac) {x=std::floor(x);y=std::floor(y);} if(frac&&r.chance(20)) x=std::nextafter(r.chance(50)?2.f:(float)cols-2.f,r.chance(50)?0.f:1000.f); kps.emplace_back(x,y,5.f,(float)i);}
    c.desc(vh::str(shape(im)," ",m.str()," ",n,frac?" fractional":""," keypoints",useRef?" with reference":""));
    std::vector<cv::KeyPoint> k1=kps,k2=kps; cv::Mat d1,d2; if(r.chance(40)) {d2.create(rows,cols,CV_16UC(ch)); d2=cv::Scalar::all(4242);}
    l->compute(im,k1,d1); if(r.chance(70)) l->compute2(im,k2,d2); else {std::vector<cv::Mat> vi{image(r,rows,cols,CV_8UC(ch)),im},vo; std::vector<std::vector<cv::KeyPoint>> vk{{},kps}; l->compute2(vi,vk,vo); c.check(vo.size()==2&&vk.size()==2&&vk[0].empty()&&vo[0].empty(),"kp-batch","one map per image expected"); k2=vk[1]; d2=vo[1];}
    c.check(k1.size()==k2.size(),"kp-filter","variants keep different keypoints");
    c.check(k1.empty()?d1.empty():(d1.rows==(int)k1.size()&&d1.cols==1&&d1.type()==CV_16UC(ch)),"kp-shape","descriptor list has another size");
    // kept keypoints are an ordered subset; integer positions are kept exactly when their patch fits
    size_t j=0; for(auto& k : kps) {const bool kept=j<k1.size()&&k1[j].angle==k.angle; if(kept) ++j; const int x=(int)std::lrint(k.pt.x),y=(int)std::lrint(k.pt.y);
        if(k.pt.x==x&&k.pt.y==y) c.checkf(kept==inside(im,x,y),"kp-kept",[&]{return vh::str("keypoint at (",k.pt.x,",",k.pt.y,") ",kept?"kept":"dropped");});
        else if(kept) c.check(inside(im,(int)std::floor(k.pt.x),(int)std::floor(k.pt.y))||inside(im,(int)std::ceil(k.pt.x),(int)std::ceil(k.pt.y))||inside(im,x,y),"kp-kept-frac","keypoint without a valid pixel was kept");}
    c.check(j==k1.size(),"kp-order","keypoints were reordered");
    cv::Mat expect=cv::Mat::zeros(rows,cols,CV_16UC(ch)); bool amb=false;
    for(size_t i=0; i<k1.size(); ++i) {
        bool any=false; const uint16_t* g=d1.ptr<uint16_t>((int)i); 
        std::set<std::pair<int,int>> cand={{(int)std::lrint(k1[i].pt.x),(int)std::lrint(k1[i].pt.y)},{(int)std::floor(k1[i].pt.x),(int)std::floor(k1[i].pt.y)},{(int)std::floor(k1[i].pt.x+0.5f),(int)std::floor(k1[i].pt.y+0.5f)}};
        for(auto& q : cand) {if(!inside(im,q.first,q.second)) continue; bool ok=true; for(int k=0; k<ch; ++k) {const int rv=R.ptr<uint8_t>(q.second)[q.first*ch+k]; ok=ok&&g[k]==ref16(im,q.first,q.second,k,rv,m.at(rv));} if(ok) {any=true;}}
        c.checkf(any,"kp-value",[&]{return vh::str("descriptor of keypoint (",k1[i].pt.x,",",k1[i].pt.y,") does not match its pixel");});
        if(!frac) for(int k=0; k<ch; ++k) expect.ptr<uint16_t>((int)k1[i].pt.y)[(int)k1[i].pt.x*ch+k]=g[k];
    }
    (void)amb;
    if(!k1.empty()) { // map variant == list + reshape
        cv::Mat rs; if(r.chance(40)) {rs.create(rows,cols,CV_16UC(ch)); rs=cv::Scalar::all(99);} LBSP::reshapeDesc(im.size(),k1,d1,rs);
        c.check(sameBits(rs,d2),"kp-map","map computed at keypoints differs from reshaped descriptors");
        if(!frac) c.check(sameBits(rs,expect),"kp-reshape","reshaped descriptors are not at their keypoints");
        if(!frac) c.nontrivial(vh::hbytes(expect.data,expect.total()*expect.elemSize()));
    }
    // all pixels, with a mask
    std::vector<cv::KeyPoint> k3; if(r.chance(30)) k3=kps; cv::Mat d3,mask; if(r.chance(60)) {mask=image(r,rows,cols,CV_8UC1,4);} static_cast<cv::Feature2D&>(*l).detectAndCompute(im,mask,k3,d3,false);
    if(!frac) { // the given key points, where the mask is set
        std::vector<cv::KeyPoint> k4=kps,e4; cv::Mat d4; static_cast<cv::Feature2D&>(*l).detectAndCompute(im,mask,k4,d4,true);
        for(auto& k : kps) if(inside(im,(int)k.pt.x,(int)k.pt.y)&&(mask.empty()||mask.at<uint8_t>((int)k.pt.y,(int)k.pt.x))) e4.push_back(k);
        c.check(k4.size()==e4.size()&&(k4.empty()?d4.empty():d4.rows==(int)k4.size()),"kp-mask-count",vh::str(k4.size()," of the given keypoints described instead of ",e4.size()));
        for(size_t i=0; i<k4.size(); ++i) {c.check(k4[i].angle==e4[i].angle,"kp-mask-order","other keypoints than the ones under the mask were described"); for(int k=0; k<ch; ++k) {const int x=(int)k4[i].pt.x,y=(int)k4[i].pt.y,rv=R.ptr<uint8_t>(y)[x*ch+k]; c.check(d4.ptr<uint16_t>((int)i)[k]==ref16(im,x,y,k,rv,m.at(rv)),"kp-mask-value","descriptor of a keypoint under a mask differs from the definition");}}
    }
    size_t cnt=0; for(int y=2; y<rows-2; ++y) for(int x=2; x<cols-2; ++x) if(mask.empty()||mask.at<uint8_t>(y,x)) ++cnt;
    c.check(k3.size()==cnt,"detect-count",vh::str(k3.size()," keypoints described instead of ",cnt));
    for(size_t i=0; i<k3.size(); ++i) for(int k=0; k<ch; ++k) {const int x=(int)k3[i].pt.x,y=(int)k3[i].pt.y,rv=R.ptr<uint8_t>(y)[x*ch+k]; c.check(d3.ptr<uint16_t>((int)i)[k]==ref16(im,x,y,k,rv,m.at(rv)),"detect-value","descriptor of a detected pixel differs from the definition");}
}
template<size_t C> static void single(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(5,12),cols=(int)r.range(5,12); cv::Mat parent; const cv::Mat base=image(r,rows,cols,CV_8UC((int)C)); const cv::Mat im=r.chance(50)?embed(r,base,parent):base; c.desc(shape(im));
    for(int q=0; q<10; ++q) {
        const int x=(int)r.range(2,cols-3),y=(int)r.range(2,rows-3); alignas(16) std::array<uchar,C> refs,thr; for(size_t k=0; k<C; ++k) {refs[k]=(uchar)(r.chance(50)?r.below(256):im.ptr<uint8_t>(y)[x*C+k]); thr[k]=(uchar)(r.chance(20)?r.pick({0,255,254,1,127,128}):(int)r.below(256));}
        std::array<LBSP::desc_t,C> d; LBSP::computeDescriptor<C>(im,refs,x,y,thr,d);
        alignas(16) std::array<std::array<uchar,16>,C> vals; LBSP::computeDescriptor_lookup<C>(im,x,y,vals);
        for(size_t k=0; k<C; ++k) {
            const uint16_t e=ref16(im,x,y,(int)k,refs[k],thr[k]);
            c.checkf(d[k]==e,"single-multi",[&]{return vh::str("channel ",k," at (",x,",",y,"): ",d[k]," instead of ",e," (ref ",(int)refs[k]," thr ",(int)thr[k],")");});
            LBSP::desc_t s; LBSP::computeDescriptor<C>(im,refs[k],x,y,k,thr[k],s); c.check(s==e,"single-channel","single-channel variant differs");
            for(int n=0; n<16; ++n) c.check(vals[k][(size_t)n]==im.ptr<uint8_t>(y+PY[n])[(x+PX[n])*(int)C+(int)k],"lookup","pattern lookup returned another pixel");
            c.check(LBSP::computeDescriptor_threshold(vals[k],refs[k],thr[k])==e,"lookup-threshold","thresholded lookup differs");
        }
        int gx,gy; uint gm; LBSP::computeDescriptor_gradient<C>(vals,refs,gx,gy,gm);
        uint best=0; for(size_t k=0; k<C; ++k) best=std::max<uint>(best,(uint)__builtin_popcount(ref16(im,x,y,(int)k,refs[k],((refs[k]>>2)+20)/2)));
        c.check(gm==best,"grad-mag",vh::str("gradient magnitude ",gm," instead of ",best)); bool any=false;
        for(size_t k=0; k<C; ++k) {const uint16_t t=ref16(im,x,y,(int)k,refs[k],((refs[k]>>2)+20)/2); if((uint)__builtin_popcount(t)!=best) continue; int ex=0,ey=0; for(int n=0; n<16; ++n) if(t>>n&1) {ex+=PX[n]<0?1:PX[n]>0?-1:0; ey+=PY[n]>0?1:PY[n]<0?-1:0;} any=any||(ex==gx&&ey==gy);}
        c.check(any,"grad-dir",vh::str("gradient (",gx,",",gy,") matches no channel"));
        if(best) c.nontrivial(vh::hbytes(&vals,sizeof(vals))^vh::hbytes(&refs,C));
    }
}
SCENARIO("single",500,10000) { switch(c.rng.below(3)) {case 0: single<1>(c); break; case 1: single<3>(c); break; default: single<4>(c);} }
// every (value, reference, threshold) triple
SCENARIO("threshold_exhaustive",256,256) {
    const int ref=(int)(c.idx%256); c.desc(vh::str("reference ",ref)); alignas(16) std::array<uchar,16> v;
    for(int t=0; t<256; ++t) for(int b=0; b<256; b+=16) {for(int n=0; n<16; ++n) v[(size_t)n]=(uchar)(b+n); uint16_t e=0; for(int n=0; n<16; ++n) if(std::abs(b+n-ref)>t) e=(uint16_t)(e|1u<<n); const uint16_t g=LBSP::computeDescriptor_threshold(v,(uchar)ref,(uchar)t); if(g!=e) c.check(false,"threshold",vh::str("values ",b,"+0..15, reference ",ref,", threshold ",t,": ",g," instead of ",e));}
    c.check(true,"threshold"); c.stat("triples",65536); c.nontrivial(c.desc_);
}
SCENARIO("utils",500,8000) {
    auto& r=c.rng; const int rows=(int)r.range(1,12),cols=(int)r.range(1,12);
    {const int ch=(int)r.range(1,4); cv::Mat pa,pb; const cv::Mat a=randMat(r,{rows,cols},CV_16UC(ch),r.chance(40),pa,0),b=randMat(r,{rows,cols},CV_16UC(ch),r.chance(40),pb,0); cv::Mat_<uchar> d; LBSP::calcDistances(a,b,d); c.desc(vh::str("distances ",shape(a)));
        for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {int e=0; for(int k=0; k<ch; ++k) e+=__builtin_popcount((unsigned)(a.ptr<uint16_t>(y)[x*ch+k]^b.ptr<uint16_t>(y)[x*ch+k])); c.checkf(d(y,x)==e,"hamming",[&]{return vh::str("distance ",(int)d(y,x)," instead of ",e," with ",ch," channels");});}}
    {const int ch=r.chance(50)?1:3; cv::Mat p; const cv::Mat a=randMat(r,{rows,cols},CV_16UC(ch),false,p,0),b=randMat(r,{rows,cols},CV_16UC(ch),false,p,0); cv::Mat o; const bool merge=r.chance(50); LBSP::calcDescImgDiff(a,b,o,merge); c.desc("diff image");
        const int oc=ch==1||merge?1:3; c.check(o.rows==rows&&o.cols==cols&&o.type()==CV_8UC(oc),"diff-shape","difference image has another size or type");
        for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {double tot=0; for(int k=0; k<ch; ++k) {const double e=255.0/16*__builtin_popcount((unsigned)(a.ptr<uint16_t>(y)[x*ch+k]^b.ptr<uint16_t>(y)[x*ch+k])); tot+=e/ch; if(oc==ch) c.check(std::abs(o.ptr<uint8_t>(y)[x*oc+k]-e)<=1.01,"diff-value","difference image value");} if(oc!=ch) c.check(std::abs(o.ptr<uint8_t>(y)[x]-tot)<=3.01,"diff-merged","merged difference image value");}}
    {cv::Mat roi=image(r,rows,cols,CV_8UC1,0); cv::Mat in=roi.clone(); bool threw=throws([&]{LBSP::validateROI(roi);}); c.desc(vh::str("roi ",rows,"x",cols)); if(rows>4&&cols>4) {c.check(!threw,"roi-refused","valid region refused"); for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) c.check(roi.at<uint8_t>(y,x)==(inside(in,x,y)?in.at<uint8_t>(y,x):0),"roi","region validation kept a border pixel or changed an inner one");}}
    {std::vector<cv::KeyPoint> v,w; for(int i=0; i<20; ++i) v.emplace_back((float)r.range(-1,cols),(float)r.range(-1,rows),5.f,(float)i); w=v; LBSP::validateKeyPoints(w,cv::Size(cols,rows)); size_t n=0; for(auto& k : v) if(inside(cv::Mat(rows,cols,CV_8UC1),(int)k.pt.x,(int)k.pt.y)) {c.check(n<w.size()&&w[n].angle==k.angle,"kp-valid","valid keypoint dropped"); ++n;} c.check(n==w.size(),"kp-invalid","invalid keypoint kept");}
    c.nontrivial(vh::str(rows,"x",cols,c.idx));
}
SCENARIO("refused",60,300) {
    auto& r=c.rng; cv::Mat d; LBSP l((size_t)r.below(100)); const cv::Mat im=image(r,8,9,CV_8UC1);
    c.check(throws([&]{l.compute2(cv::Mat(),d);})&&throws([&]{l.compute2(cv::Mat(8,8,CV_8UC2,cv::Scalar(0)),d);})&&throws([&]{l.compute2(cv::Mat(8,8,CV_32FC1,cv::Scalar(0)),d);}),"refuse-image","unsupported image raised no error");
    l.setReference(image(r,8,10,CV_8UC1)); c.check(throws([&]{l.compute2(im,d);}),"refuse-ref-size","reference of another size raised no error");
    l.setReference(image(r,8,9,CV_8UC3)); c.check(throws([&]{l.compute2(im,d);}),"refuse-ref-type","reference of another type raised no error");
    c.check(throws([&]{LBSP(-0.5f);}),"refuse-rel","negative relative threshold raised no error"); c.nontrivial(vh::str(c.idx));
}
VH_MAIN
