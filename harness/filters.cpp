// C14: masked filters, counts, integral images, thinning, suppression, image-level mixture helpers
#include "cvgen.hpp"
#include "litiv/imgproc.hpp"
#include <opencv2/imgproc.hpp>
#ifdef _OPENMP
#include <omp.h>
#else
static void omp_set_num_threads(int) {}
#endif
using namespace cg;
static cv::Mat_<uchar> randMask(vh::Rng& r, int rows, int cols) {
    cv::Mat_<uchar> m(rows,cols); const int kind=(int)r.below(6); const double p=r.unit();
    for(auto& v : m) v = kind==0?0:kind==1?255:(uchar)(r.chance(p)?(r.chance(50)?255:1+(int)r.below(255)):0);
    if(kind==2) {m=uchar(0); m((int)r.below(rows),(int)r.below(cols))=(uchar)(1+r.below(255));}
    if(kind==3) {for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) m(y,x)=(uchar)(x<cols*p?255:0);}
    return m;
}
static cv::Mat_<uchar> randBin(vh::Rng& r, int rows, int cols, bool one) {
    cv::Mat_<uchar> m(rows,cols); const double p=r.unit(); const int kind=(int)r.below(3);
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {const bool b=kind==0?r.chance(p):kind==1?((x*3+y*5)/7)%2==0:(r.chance(0.1)!=(x<cols*p)); m(y,x)=(uchar)(b?(one?1:r.chance(50)?255:1+(int)r.below(255)):0);}
    return m;
}
static std::string P(int x, int y) {return vh::str("(",x,",",y,")");}
SCENARIO("median",500,9000) {
    auto& r=c.rng; const int rows=(int)r.range(1,r.chance(80)?14:40),cols=(int)r.range(1,r.chance(80)?14:40),k=1+2*(int)r.range(1,r.chance(80)?4:12); const bool masked=r.chance(75); const uchar def=(uchar)r.below(256);
    const cv::Mat im=image(r,rows,cols,CV_8UC1); const cv::Mat_<uchar> m=masked?randMask(r,rows,cols):cv::Mat_<uchar>(); cv::Mat out; const bool inplace=r.chance(15); cv::Mat src=im; if(inplace) {src=im.clone(); out=src;} else if(r.chance(40)) {out.create(rows,cols,CV_8UC1); out=cv::Scalar(77);}
    c.desc(vh::str(inplace?"in place ":"","median ",shape(im)," kernel ",k,masked?" masked":"")); omp_set_num_threads((int)r.range(1,6));
    const auto b=bytes(im),mb=bytes(m); lv::medianBlur(src,out,m,k,def); c.check(bytes(im)==b&&bytes(m)==mb,"input","median blur modified its input");
    c.check(out.type()==CV_8UC1&&out.size()==im.size(),"shape","median output has another size"); const int h=k/2; size_t none=0; std::vector<uchar> w;
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {
        w.clear(); for(int j=y-h;j<=y+h;++j) for(int i=x-h;i<=x+h;++i) {
            if(masked) {if(j>=0&&i>=0&&j<rows&&i<cols&&m(j,i)) w.push_back(im.at<uchar>(j,i));}
            else w.push_back(im.at<uchar>(std::min(std::max(j,0),rows-1),std::min(std::max(i,0),cols-1)));
        }
        std::sort(w.begin(),w.end()); const int e=w.empty()?def:w[(w.size()-1)/2]; none+=w.empty();
        c.checkf(out.at<uchar>(y,x)==e,"median-value",[&]{return vh::str("median at ",P(x,y)," is ",(int)out.at<uchar>(y,x)," instead of ",e," (",w.size()," valid pixels)");});
    }
    c.stat("windows_without_valid_pixels",none); c.nontrivial(vh::hbytes(im.data,im.total())^(uint64_t)k*77^(masked?vh::hbytes(mb):0));
}
SCENARIO("binary",700,12000) {
    auto& r=c.rng; const int rows=(int)r.range(1,r.chance(80)?14:40),cols=(int)r.range(1,r.chance(80)?14:40),k=1+2*(int)r.range(1,r.chance(80)?4:12); const bool force=r.chance(70); const uchar def=(uchar)r.below(256);
    const cv::Mat_<uchar> im=randBin(r,rows,cols,!force); const int mode=(int)r.below(3); const cv::Mat_<uchar> m=mode==1?randMask(r,rows,cols):cv::Mat_<uchar>(); cv::Mat out; const bool inplace=r.chance(15); cv::Mat src=im; if(inplace) {src=im.clone(); out=src;} else if(r.chance(40)) {out.create(rows,cols,CV_8UC1); out=cv::Scalar(77);}
    cv::Mat_<int> mc; if(mode==2&&r.chance(85)) {mc.create(rows,cols); for(auto& v : mc) v=(int)r.range(-1,k*k+1);}
    c.desc(vh::str(inplace?"in place ":"",mode==2?"consensus ":"binary median ",shape(im)," kernel ",k,mode==1?" masked":"",force?" force":"",mc.empty()?"":" counts")); omp_set_num_threads((int)r.range(1,6));
    const auto b=bytes(im); if(mode==2) lv::binaryConsensus(src,out,mc,k,force); else lv::binaryMedianBlur(src,out,m,k,force,def);
    c.check(bytes(im)==b,"input","binary filter modified its input"); c.check(out.type()==CV_8UC1&&out.size()==im.size(),"shape","binary output has another size"); const int h=k/2; size_t ties=0;
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {
        int hits=0,pos=0; for(int j=std::max(y-h,0);j<=std::min(y+h,rows-1);++j) for(int i=std::max(x-h,0);i<=std::min(x+h,cols-1);++i) if(mode!=1||m(j,i)) {++hits; pos+=im(j,i)!=0;}
        const int e=!mc.empty()?(pos>=mc(y,x)?255:0):hits==0?def:(pos>hits/2?255:0); ties+=hits&&pos*2==hits;
        c.checkf(out.at<uchar>(y,x)==e,mode==2?"consensus-value":"binary-value",[&]{return vh::str("value at ",P(x,y)," is ",(int)out.at<uchar>(y,x)," instead of ",e," (",pos," of ",hits," set",mc.empty()?"":vh::str(", need ",mc(y,x)),")");});
    }
    c.stat("ties",ties); c.nontrivial(vh::hbytes(im.data,im.total())^(uint64_t)k*77^(uint64_t)mode*991^(uint64_t)def);
}
SCENARIO("counts",400,8000) {
    auto& r=c.rng; const int rows=(int)r.range(1,20),cols=(int)r.range(1,20); const bool w=r.chance(50); cv::Mat im=image(r,rows,cols,w?CV_16UC1:CV_8UC1); if(r.chance(30)) for(int n=(int)r.range(1,rows*cols);n>0;--n) {const int y=(int)r.below(rows),x=(int)r.below(cols),v=r.pick({0,0,65535,65535,65534,32768}); if(w) im.at<ushort>(y,x)=(ushort)v; else im.at<uchar>(y,x)=(uchar)v;} const bool masked=r.chance(60); const cv::Mat_<uchar> m=masked?randMask(r,rows,cols):cv::Mat_<uchar>();
    c.desc(vh::str("counts ",shape(im),masked?" masked":"")); std::map<int,int> e; std::vector<int> vals; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(!masked||m(y,x)) {const int v=w?im.at<ushort>(y,x):im.at<uchar>(y,x); ++e[v]; vals.push_back(v);}
    int tot=-5; const auto h=lv::calcHistCounts(im,m,&tot); c.check(h.size()==(w?65536u:256u),"hist-size","histogram size"); c.check(tot==(int)vals.size(),"hist-total",vh::str("total ",tot," instead of ",vals.size()));
    for(size_t i=0;i<h.size();++i) {const auto it=e.find((int)i); c.checkf(h[i]==(it==e.end()?0:it->second),"hist-value",[&]{return vh::str("count of value ",i," is ",h[i]);});}
    std::sort(vals.begin(),vals.end()); std::vector<int> hc;
    if(vals.empty()) {c.stat("empty_masks"); bool threw=false; int v=0; try {v=lv::calcMedianValue(im,m);} catch(const lv::Exception&) {threw=true;} c.check(threw||v==0,"median-empty",vh::str("median of no values is ",v));}
    else {const int g=lv::calcMedianValue(im,m,&hc); c.check(hc==h,"median-hist","histogram returned with the median differs"); c.check(g==vals[vals.size()/2],"median-of",vh::str("median value ",g," instead of ",vals[vals.size()/2]));}
    c.nontrivial(vh::hbytes(im.data,im.total()*im.elemSize())^vh::hbytes(bytes(m)));
}
SCENARIO("integral",500,9000) {
    auto& r=c.rng; const int rows=(int)r.range(1,r.chance(80)?16:60),cols=(int)r.range(1,r.chance(80)?40:90),depth=r.chance(60)?CV_32S:CV_32F; const bool dflt=depth==CV_32S&&r.chance(30); const int mode=(int)r.below(3),ch=mode==2?1:(int)r.range(1,4);
  for(int rep=(int)r.range(1,3);rep>0;--rep) { // images of the same size after each other: nothing of an earlier one may show
    const bool masked=mode&&r.chance(70),force=r.chance(70);
    const cv::Mat im=image(r,rows,cols,CV_8UC(ch)); const cv::Mat_<uchar> m=masked?randMask(r,rows,cols):cv::Mat_<uchar>(); cv::Mat out; if(r.chance(30)) {out.create(rows+1,cols+1,CV_MAKETYPE(depth,ch)); out=cv::Scalar::all(9);} else if(r.chance(30)) out.create(3,4,CV_8UC1);
    c.desc(vh::str("integral ",shape(im)," mode ",mode,masked?" masked":""," depth ",depth)); const auto b=bytes(im);
    const int dd=dflt?-1:depth; if(mode==0) lv::integral(im,out,dd); else if(mode==1) lv::integral(im,out,m,dd); else lv::binaryIntegral(im,out,m,dd,force);
    c.check(bytes(im)==b,"input","integral modified its input"); c.check(out.rows==rows+1&&out.cols==cols+1&&out.type()==CV_MAKETYPE(depth,ch),"shape","integral has another size or type");
    std::vector<int64_t> acc((size_t)(rows+1)*(cols+1)*ch,0); auto A=[&](int y,int x,int k)->int64_t& {return acc[((size_t)y*(cols+1)+x)*ch+k];};
    for(int y=0;y<=rows;++y) for(int x=0;x<=cols;++x) for(int k=0;k<ch;++k) {
        if(x&&y) {int v=im.ptr<uchar>(y-1)[(x-1)*ch+k]; if(masked&&!m(y-1,x-1)) v=0; else if(mode==2&&force) v=v?1:0; A(y,x,k)=v+A(y-1,x,k)+A(y,x-1,k)-A(y-1,x-1,k);}
        const double g=depth==CV_32S?(double)out.ptr<int>(y)[x*ch+k]:(double)out.ptr<float>(y)[x*ch+k];
        c.checkf(g==(double)A(y,x,k),"integral-value",[&]{return vh::str("sum at ",P(x,y)," channel ",k," is ",g," instead of ",A(y,x,k));});
    }
    c.nontrivial(vh::hbytes(b)^(uint64_t)mode*77^(uint64_t)depth^vh::hbytes(bytes(m)));
  }
}
static int comps(const cv::Mat& bin, int conn) {cv::Mat l; return cv::connectedComponents(bin,l,conn)-1;}
static cv::Mat zs(const cv::Mat& in) { // Zhang & Suen, from the paper: P2..P9 clockwise from north
    cv::Mat o=in.clone(),prev; const int dy[8]={-1,-1,0,1,1,1,0,-1},dx[8]={0,1,1,1,0,-1,-1,-1};
    do { prev=o.clone(); for(int it=0;it<2;++it) { std::vector<cv::Point> rm;
        for(int y=1;y<o.rows-1;++y) for(int x=1;x<o.cols-1;++x) {int p[8],B=0,A=0; for(int i=0;i<8;++i) {p[i]=o.at<uchar>(y+dy[i],x+dx[i])>0; B+=p[i];} for(int i=0;i<8;++i) A+=!p[i]&&p[(i+1)%8];
            const bool c1=it==0?!(p[0]&&p[2]&&p[4])&&!(p[2]&&p[4]&&p[6]):!(p[0]&&p[2]&&p[6])&&!(p[0]&&p[4]&&p[6]); if(A==1&&B>=2&&B<=6&&c1) rm.push_back({x,y});}
        for(auto& q : rm) o.at<uchar>(q)=0; } } while(cv::norm(o,prev,cv::NORM_L1)!=0);
    return o;
}
static cv::Mat llsRef(const cv::Mat& im) { // Lam/Lee/Suen (1992) conditions G1-G3, in raster order
    cv::Mat o=im.clone(),prev; 
    do { prev=o.clone(); for(int it=0; it<2; ++it) for(int y=1; y<o.rows-1; ++y) for(int x=1; x<o.cols-1; ++x) if(o.at<uchar>(y,x)) {
            // x1..x8, counter-clockwise from "south" as in the library's orientation of the rule
            const int dx[8]={0,-1,-1,-1,0,1,1,1},dy[8]={1,1,0,-1,-1,-1,0,1}; bool v[9]; for(int k=0; k<8; ++k) v[k+1]=o.at<uchar>(y+dy[k],x+dx[k])!=0;
            int xh=0,n1=0,n2=0; for(int k=1; k<=4; ++k) {const bool a=v[2*k-1],b=v[2*k],d=v[k==4?1:2*k+1]; xh+=!a&&(b||d); n1+=a||b; n2+=b||d;}
            const int n=std::min(n1,n2); if(xh!=1||n<2||n>3) continue;
            const bool g3=it==0?((v[2]||v[3]||!v[8])&&v[1]):((v[6]||v[7]||!v[4])&&v[5]); if(!g3) o.at<uchar>(y,x)=0; }
    } while(cv::norm(o,prev,cv::NORM_L1)!=0);
    return o;
}
SCENARIO("thinning",600,12000) {
    auto& r=c.rng; const int rows=(int)r.range(4,r.chance(80)?16:40),cols=(int)r.range(4,r.chance(80)?16:40); cv::Mat im;
    const int kind=(int)r.below(5); const uchar on=r.chance(60)?255:r.chance(50)?1:(uchar)(1+r.below(255)); im=cv::Mat::zeros(rows,cols,CV_8UC1);
    if(kind==0) {const double p=r.unit(); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) im.at<uchar>(y,x)=(uchar)(r.chance(p)?on:0);}
    else for(int n=(int)r.range(1,5);n>0;--n) {const cv::Point a((int)r.below(cols),(int)r.below(rows)),b((int)r.below(cols),(int)r.below(rows)); const cv::Scalar col(r.chance(85)?on:0); if(kind==1) cv::rectangle(im,a,b,col,-1); else if(kind==2) cv::circle(im,a,(int)r.range(1,8),col,r.chance(60)?-1:2); else if(kind==3) cv::line(im,a,b,col,(int)r.range(1,6)); else {cv::rectangle(im,a,b,col,(int)r.range(1,3)); cv::line(im,b,a,col,2);}}
    const bool lls=r.chance(60); c.desc(vh::str("thinning ",shape(im),lls?" LamLeeSuen":" ZhangSuen"," kind ",kind)); cv::Mat out; if(r.chance(30)) out.create(5,5,CV_32FC1); const auto b=bytes(im);
    auto run=[&](const cv::Mat& i,cv::Mat& o) {if(lls&&r.chance(50)) lv::thinning(i,o); else lv::thinning(i,o,lls?lv::ThinningMode_LamLeeSuen:lv::ThinningMode_ZhangSuen);};
    run(im,out); c.check(bytes(im)==b,"input","thinning modified its input"); c.check(out.type()==CV_8UC1&&out.size()==im.size(),"shape","thinning output has another size");
    size_t removed=0; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {const int i=im.at<uchar>(y,x),o=out.at<uchar>(y,x); removed+=i&&!o; c.checkf(o==0||o==i,"thin-subset",[&]{return vh::str("pixel ",P(x,y)," went from ",i," to ",o);});}
    cv::Mat again; run(out,again); c.check(sameBits(out,again),"thin-idempotent","thinning a thinned image changes it");
    if(lls) {
        c.check(comps(im,8)==comps(out,8),"thin-components",vh::str("thinning turned ",comps(im,8)," connected shapes into ",comps(out,8)));
        c.check(comps(im==0,4)==comps(out==0,4),"thin-holes",vh::str("thinning turned ",comps(im==0,4)," background regions into ",comps(out==0,4)));
    }
    if(lls) c.check(sameBits(out,llsRef(im)),"thin-lls","result differs from the published rule applied pixel by pixel");
    else c.check(sameBits(out,zs(im)),"thin-zs","result differs from the published two-pass rule");
    c.stat("removed_pixels",removed); if(removed) c.nontrivial(vh::hbytes(b)^lls);
}
template<int N> static void nms(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(1,18),cols=(int)r.range(1,18); const int t=r.pick({CV_8UC1,CV_16UC1,CV_32FC1}); cv::Mat im(rows,cols,t); const int lv_=(int)r.pick({3,20,256});
    const bool neg=t==CV_32FC1&&r.chance(40); for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {const int v=(int)r.below(lv_); if(t==CV_8UC1) im.at<uchar>(y,x)=(uchar)v; else if(t==CV_16UC1) im.at<ushort>(y,x)=(ushort)(v*200); else im.at<float>(y,x)=(float)v*0.37f-(neg?100.f:0.f);}
    const bool masked=r.chance(60); const cv::Mat_<uchar> m=masked?randMask(r,rows,cols):cv::Mat_<uchar>(); c.desc(vh::str("nms<",N,"> ",shape(im),masked?" masked":"",neg?" negative":"")); cv::Mat out; if(r.chance(30)) out.create(2,2,CV_32FC1);
    const auto b=bytes(im); lv::nonMaxSuppression<N>(im,out,m); c.check(bytes(im)==b,"input","suppression modified its input"); c.check(out.type()==CV_8UC1&&out.size()==im.size(),"shape","suppression output has another size");
    auto V=[&](int y,int x)->double {return t==CV_8UC1?im.at<uchar>(y,x):t==CV_16UC1?im.at<ushort>(y,x):im.at<float>(y,x);}; auto ok=[&](int y,int x) {return !masked||m(y,x);}; size_t kept=0;
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {
        const int o=out.at<uchar>(y,x); c.check(o==0||o==255,"nms-binary","suppression output is neither 0 nor 255"); bool strict=ok(y,x),max=ok(y,x),nb=false;
        for(int j=std::max(y-N,0);j<=std::min(y+N,rows-1);++j) for(int i=std::max(x-N,0);i<=std::min(x+N,cols-1);++i) if((i!=x||j!=y)&&ok(j,i)) {nb=true; strict=strict&&V(y,x)>V(j,i); max=max&&V(y,x)>=V(j,i);}
        kept+=o!=0; if(o) c.checkf(max,"nms-not-max",[&]{return vh::str("pixel ",P(x,y)," of value ",V(y,x)," kept although it is not a valid maximum of its window");});
        // a strict maximum is kept (values that no valid pixel outside its block competes with must be positive to count)
        if(strict&&nb&&V(y,x)>0) c.checkf(o==255,"nms-lost",[&]{return vh::str("strict window maximum ",P(x,y)," of value ",V(y,x)," suppressed");});
    }
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(out.at<uchar>(y,x)) {for(int j=y;j<=std::min(y+N,rows-1);++j) for(int i=std::max(x-N,0);i<=std::min(x+N,cols-1);++i) if((j>y||i>x)&&(j!=y||i!=x)) c.checkf(!out.at<uchar>(j,i),"nms-pair",[&]{return vh::str("both ",P(x,y)," and ",P(i,j)," were kept in one window");});}
    c.stat("kept",kept); if(kept) c.nontrivial(vh::hbytes(b)^vh::hbytes(bytes(m))^N);
}
SCENARIO("suppression",700,12000) { switch(c.rng.below(4)) {case 0: nms<1>(c); break; case 1: nms<2>(c); break; case 2: nms<3>(c); break; default: nms<5>(c);} }
template<size_t H, typename T> static void locmax(vh::Case& c) {
    auto& r=c.rng; const int R=(int)H,rows=2*R+1+(int)r.below(4),cols=2*R+1+(int)r.below(4),ch=(int)r.range(1,3); std::vector<T> v((size_t)rows*cols*ch); const int lev=(int)r.pick({2,4,100}); for(auto& q : v) q=(T)r.below(lev);
    c.desc(vh::str("local maximum half ",H," ",rows,"x",cols,"x",ch)); const size_t cs=(size_t)ch,rs=(size_t)ch*cols; size_t hit=0;
    for(int y=R;y<rows-R;++y) for(int x=R;x<cols-R;++x) {
        const T* p=&v[(size_t)y*rs+(size_t)x*cs]; auto rule=[&](int dx,int dy) {bool b=true; for(int n=1;n<=R;++n) b=b&&*p>p[-(n*dx*(int)cs+n*dy*(int)rs)]&&*p>=p[n*dx*(int)cs+n*dy*(int)rs]; return b;};
        const bool h=rule(1,0),w=rule(0,1),d=rule(1,1),a=rule(-1,1); hit+=h+w+d+a;
        c.check(lv::isLocalMaximum_Horizontal<H>(p,cs,rs)==h,"locmax-h","horizontal local maximum"); c.check(lv::isLocalMaximum_Vertical<H>(p,cs,rs)==w,"locmax-v","vertical local maximum");
        c.check((lv::isLocalMaximum_Diagonal<H,false>(p,cs,rs))==d,"locmax-d","diagonal local maximum"); c.check((lv::isLocalMaximum_Diagonal<H,true>(p,cs,rs))==a,"locmax-a","inverted diagonal local maximum");
        c.check(lv::isLocalMaximum_Diagonal<H>(p,cs,rs,false)==d&&lv::isLocalMaximum_Diagonal<H>(p,cs,rs,true)==a,"locmax-r","run-time diagonal choice");
    }
    if(hit) c.nontrivial(vh::hbytes(v.data(),v.size()*sizeof(T))); c.stat("local_maxima",hit);
}
SCENARIO("local_maximum",300,6000) { switch(c.rng.below(4)) {case 0: locmax<1,uchar>(c); break; case 1: locmax<2,int>(c); break; case 2: locmax<3,float>(c); break; default: locmax<5,uchar>(c);} }
template<size_t C1, size_t C2, size_t D> static void gmm(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(4,12),cols=(int)r.range(4,12); const cv::Mat im=image(r,rows,cols,CV_8UC((int)D)); cv::Mat_<uchar> m=randMask(r,rows,cols); const bool roi=r.chance(50); const cv::Mat_<uchar> R=roi?randMask(r,rows,cols):cv::Mat_<uchar>();
    size_t nb=0,nf=0; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(!roi||R(y,x)) ++(m(y,x)?nf:nb); c.desc(vh::str("mixtures ",shape(im)," ",nb," background ",nf," foreground",roi?" roi":""));
    if((nb>D&&nb<C1)||(nf>D&&nf<C2)) return; // fewer samples than clusters
    lv::GMM<C1,D> bg; lv::GMM<C2,D> fg; lv::initGaussianMixtureParams(im,m,bg,fg,R); cv::Mat a; if(r.chance(40)) {a.create(rows,cols,CV_32SC1); a=cv::Scalar(-7);} cv::Mat before=a.clone(); lv::assignGaussianMixtureComponents(im,m,a,bg,fg,R);
    c.check(a.type()==CV_32SC1&&a.size()==im.size(),"gmm-shape","assignment map has another size"); lv::GMM<C1,D> eb; lv::GMM<C2,D> ef; eb.initLearning(); ef.initLearning();
    for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) {
        if(roi&&!R(y,x)) {if(!before.empty()) c.check(a.at<int>(y,x)==-7,"gmm-outside","assignment outside the region of interest was written"); continue;}
        std::array<double,D> s; for(size_t k=0;k<D;++k) s[k]=im.ptr<uchar>(y)[x*(int)D+(int)k]; const size_t e=m(y,x)?fg.getBestComponent(s):bg.getBestComponent(s);
        c.checkf((size_t)a.at<int>(y,x)==e,"gmm-assign",[&]{return vh::str("pixel ",P(x,y)," assigned to ",a.at<int>(y,x)," instead of ",e);}); if(m(y,x)) ef.addSample(e,s); else eb.addSample(e,s);
    }
    if(roi) for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) if(!R(y,x)) a.at<int>(y,x)=(int)r.range(0,1);
    eb.endLearning(); ef.endLearning(); lv::GMM<C1,D> lb; lv::GMM<C2,D> lf; lv::learnGaussianMixtureParams(im,m,a,lb,lf,R);
    for(int i=0;i<10;++i) {std::array<double,D> s; for(auto& v : s) v=(double)r.below(256); const double x=lb(s),y=eb(s),u=lf(s),w=ef(s); auto same=[](double p,double q) {return p==q||(p!=p&&q!=q)||std::abs(p-q)<=1e-9*(std::abs(p)+std::abs(q));}; c.check(same(x,y)&&same(u,w),"gmm-learn",vh::str("learned densities ",x,"/",u," instead of ",y,"/",w));}
    c.nontrivial(vh::hbytes(bytes(im))^vh::hbytes(bytes(m)));
}
SCENARIO("mixtures",200,4000) { switch(c.rng.below(3)) {case 0: gmm<2,2,1>(c); break; case 1: gmm<3,2,3>(c); break; default: gmm<5,5,3>(c);} }
VH_MAIN
