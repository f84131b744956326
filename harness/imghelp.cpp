// C06: image helpers against their definitions, on any layout
#include "cvgen.hpp"
#include "litiv/utils/opencv.hpp"
#include <sstream>
using namespace cg;
static double getv(const cv::Mat& m, int y, int x, int k) {
    switch(m.depth()) {
        case CV_8U: return m.ptr<uint8_t>(y)[x*m.channels()+k];
        case CV_8S: return m.ptr<int8_t>(y)[x*m.channels()+k];
        case CV_16U: return m.ptr<uint16_t>(y)[x*m.channels()+k];
        case CV_16S: return m.ptr<int16_t>(y)[x*m.channels()+k];
        case CV_32S: return m.ptr<int32_t>(y)[x*m.channels()+k];
        case CV_32F: return m.ptr<float>(y)[x*m.channels()+k];
        default: return m.ptr<double>(y)[x*m.channels()+k];
    }
}
// own border indexing: returns -1 for constant fill
static int bidx(int p, int n, int type) {
    if(p>=0 && p<n) return p;
    switch(type) {
        case cv::BORDER_REPLICATE: return p<0?0:n-1;
        case cv::BORDER_WRAP: return ((p%n)+n)%n;
        case cv::BORDER_REFLECT: {int q=((p%(2*n))+2*n)%(2*n); return q<n?q:2*n-1-q;}
        case cv::BORDER_REFLECT_101: {if(n==1) return 0; int m=2*n-2; int q=((p%m)+m)%m; return q<n?q:m-q;}
        default: return -1;
    }
}
static const int g_borders[] = {cv::BORDER_CONSTANT,cv::BORDER_REPLICATE,cv::BORDER_REFLECT,cv::BORDER_WRAP,cv::BORDER_REFLECT_101};
SCENARIO("shift",1200,25000) {
    auto& r=c.rng;
    const int rows=(int)r.range(1,12),cols=(int)r.range(1,12);
    const bool sub=r.chance(60);
    int depth=(int)r.pick({CV_8U,CV_16U,CV_16S,CV_32F,CV_64F}); if(!sub && r.chance(20)) depth=(int)r.pick({CV_8S,CV_32S});
    const int ch=(int)r.range(1,4);
    cv::Mat parent; const bool view_=r.chance(40);
    const cv::Mat in = randMat(r,{rows,cols},CV_MAKETYPE(depth,ch),view_,parent,r.chance(70)?0:1);
    float dx,dy;
    if(sub) {dx=(float)r.real(-cols,cols)*0.999f; dy=(float)r.real(-rows,rows)*0.999f; if(r.chance(25)) dx=std::trunc(dx); if(r.chance(25)) dy=std::trunc(dy);}
    else {dx=(float)r.range(-(cols-1),cols-1); dy=(float)r.range(-(rows-1),rows-1);}
    const int b=g_borders[r.below(5)]; const cv::Scalar fill((double)r.below(100),(double)r.below(100),(double)r.below(100),(double)r.below(100));
    c.desc(vh::str(shape(in)," delta ",dx,",",dy," border ",b));
    const auto before=bytes(view_?parent:in);
    const cv::Mat ref=in.clone();
    cv::Mat out; const bool inplace=r.chance(20);
    if(inplace) {cv::Mat io=in.clone(); lv::shift(io,io,cv::Point2f(dx,dy),b,fill); out=io;}
    else {if(r.chance(40)) out=cv::Mat(3,3,CV_8UC1,cv::Scalar(1)); lv::shift(in,out,cv::Point2f(dx,dy),b|(view_?cv::BORDER_ISOLATED:0),fill); c.check(bytes(view_?parent:in)==before,"shift-input","shift modified its input");}
    const bool frac = dx!=std::floor(dx)||dy!=std::floor(dy);
    c.check(out.rows==rows&&out.cols==cols&&out.channels()==ch,"shift-shape","shifted matrix has another size");
    c.check(out.depth()==(frac&&depth<CV_32F?CV_32F:depth),"shift-type",vh::str("output depth ",out.depth()));
    const auto at=[&](int y, int x, int k)->double {const int yy=bidx(y,rows,b),xx=bidx(x,cols,b); return yy<0||xx<0?fill[k]:getv(ref,yy,xx,k);};
    double scale=1; for(int y=0;y<rows;++y) for(int x=0;x<cols;++x) for(int k=0;k<ch;++k) scale=std::max(scale,std::abs(getv(ref,y,x,k)));
    for(int k=0; k<4; ++k) scale=std::max(scale,fill[k]);
    std::string zerotap;
    for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) for(int k=0; k<ch; ++k) {
        const double sx=x-(double)dx,sy=y-(double)dy; const int x0=(int)std::floor(sx),y0=(int)std::floor(sy); const double ax=sx-x0,ay=sy-y0;
        double e = (1-ay)*((1-ax)*at(y0,x0,k)+(ax>0?ax*at(y0,x0+1,k):0))+(ay>0?ay*((1-ax)*at(y0+1,x0,k)+(ax>0?ax*at(y0+1,x0+1,k):0)):0);
        const double g=getv(out,y,x,k);
        if(frac && std::abs(g-e)>2e-5*scale) {
            // known finding: the taps one past the padded area are zero, whatever fill was asked for
            const int mx=cols-1+std::max(-(int)std::ceil(dx),0),my=rows-1+std::max(-(int)std::ceil(dy),0);
            const auto zat=[&](int yy, int xx)->double {return (yy>my||xx>mx)?0.0:at(yy,xx,k);};
            const double z=(1-ay)*((1-ax)*at(y0,x0,k)+(ax>0?ax*zat(y0,x0+1):0))+(ay>0?ay*((1-ax)*zat(y0+1,x0)+(ax>0?ax*zat(y0+1,x0+1):0)):0);
            if((y0+1>my||x0+1>mx) && std::abs(g-z)<=2e-5*scale) {zerotap=vh::str("output (",y,",",x,") channel ",k," is ",g," instead of ",e); continue;}
        }
        c.checkf(frac?std::abs(g-e)<=2e-5*scale:g==e,"shift-value",[&]{return vh::str("output (",y,",",x,") channel ",k," is ",g," instead of ",e);});
    }
    c.nontrivial(c.desc_);
    if(!zerotap.empty()) c.finding("shift-edge-zero-tap",zerotap);
}
SCENARIO("shift_refused",100,1000) {
    auto& r=c.rng; const int rows=(int)r.range(1,8),cols=(int)r.range(1,8); cv::Mat in(rows,cols,CV_8UC1,cv::Scalar(1)),out;
    float dx=0,dy=0; if(r.chance(50)) dx=(r.chance(50)?1.f:-1.f)*(cols+(float)r.real(0,5)); else dy=(r.chance(50)?1.f:-1.f)*(rows+(float)r.real(0,5));
    c.desc(vh::str(shape(in)," ",dx," ",dy));
    c.check(throws([&]{lv::shift(in,out,cv::Point2f(dx,dy));}),"shift-too-big","shift by more than the matrix size raised no error");
    c.nontrivial(c.desc_);
}
template<typename T> static void eqCase(vh::Case& c, int ch) {
    auto& r=c.rng;
    const auto sz=randDims(r,4,7); cv::Mat pa,pb;
    const int type=CV_MAKETYPE(cv::DataType<T>::depth,ch);
    const cv::Mat a=randMat(r,sz,type,r.chance(50),pa,(int)r.below(2));
    cv::Mat b=randMat(r,sz,type,r.chance(50),pb,0); a.copyTo(b);
    c.desc(vh::str(shape(a)," vs ",shape(b)));
    const double eps=(double)r.below(5);
    const auto before=bytes(pa.empty()?a:pa);
    const bool exactT = ch==1;
    if(exactT) c.check(lv::isEqual<T>(a,b),"isEqual-same","equal matrices reported different");
    c.check(lv::isNearlyEqual<T>(a,b,eps),"isNearlyEqual-same","equal matrices reported different");
    c.check(lv::isNearlyEqual<T>(a,b,0),"isNearlyEqual-same0","equal matrices reported different with a null tolerance");
    // change exactly one component, anywhere
    cv::Mat bb=b; std::vector<int> idx; for(int s : sz) idx.push_back((int)r.below((uint64_t)s));
    uint8_t* p=bb.data; for(size_t d=0; d<idx.size(); ++d) p+=bb.step[(int)d]*idx[d];
    T* q=(T*)p+r.below((uint64_t)ch); const T old=*q; const int dlt=1+(int)r.below(9);
    const T nv = (double)old+dlt<=(double)std::numeric_limits<T>::max()?(T)(old+dlt):(T)(old-dlt); *q=nv;
    const double diff=std::abs((double)nv-(double)old);
    if(exactT) c.check(lv::isEqual<T>(a,b)==(diff==0),"isEqual-diff","matrices with one different element reported equal");
    c.check(lv::isNearlyEqual<T>(a,b,eps)==(diff<=eps),"isNearlyEqual-diff",vh::str("difference of ",diff," with tolerance ",eps," judged wrongly"));
    c.check(bytes(pa.empty()?a:pa)==before,"compare-input","comparison modified its input");
    *q=old;
    // other shapes and types are different
    auto sz2=sz; sz2[r.below(sz2.size())]++; cv::Mat d((int)sz2.size(),sz2.data(),type); d=cv::Mat((int)sz2.size(),sz2.data(),type);
    if(exactT) c.check(!lv::isEqual<T>(a,d) && !lv::isEqual<T>(d,a),"isEqual-shape","matrices of different sizes reported equal");
    c.check(!lv::isNearlyEqual<T>(a,d,1e9),"isNearlyEqual-shape","matrices of different sizes reported equal");
    c.check(lv::isEqual<T>(cv::Mat(),cv::Mat())&&!lv::isEqual<T>(a,cv::Mat())&&!lv::isEqual<T>(cv::Mat(),a),"isEqual-empty","empty matrix comparison");
    // basic view maps every component
    const cv::Mat_<T> bm=lv::getBasicMat<T>(b);
    c.check((size_t)bm.total()==b.total()*ch && bm.dims==b.dims+(ch>1?1:0),"basic-shape",vh::str("basic view of ",shape(b)," has shape ",shape(bm)));
    c.check(bytes(bm)==bytes(b),"basic-values","basic view of a matrix holds other values");
    // unique values
    if(ch==1) {std::vector<T> u=lv::unique(cv::Mat_<T>(b)); auto by=bytes(b); std::set<T> s; for(size_t i=0; i<by.size(); i+=sizeof(T)) {T v; memcpy(&v,&by[i],sizeof(T)); s.insert(v);} c.check(u==std::vector<T>(s.begin(),s.end()),"unique","wrong list of unique values");}
    c.nontrivial(shape(a)+shape(b)+vh::str(vh::hbytes(before.data(),before.size())));
}
SCENARIO("equality",800,16000) {
    const int ch=(int)c.rng.range(1,4);
    switch(c.rng.below(7)) {case 0: eqCase<uint8_t>(c,ch); break; case 1: eqCase<int8_t>(c,ch); break; case 2: eqCase<uint16_t>(c,ch); break; case 3: eqCase<int16_t>(c,ch); break; case 4: eqCase<int32_t>(c,ch); break; case 5: eqCase<float>(c,ch); break; default: eqCase<double>(c,ch);}
}
template<typename T> static void subpix(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(1,9),cols=(int)r.range(1,9); const int b=g_borders[1+r.below(4)];
    cv::Mat p1,p3; const cv::Mat m1=randMat(r,{rows,cols},CV_MAKETYPE(cv::DataType<T>::depth,1),r.chance(50),p1,0), m3=randMat(r,{rows,cols},CV_MAKETYPE(cv::DataType<T>::depth,3),r.chance(50),p3,0);
    c.desc(vh::str(shape(m1)," ",shape(m3)," border ",b));
    for(int k=0; k<12; ++k) {
        float x=(float)r.real(-4,cols+3),y=(float)r.real(-4,rows+3); if(r.chance(30)) x=std::floor(x); if(r.chance(30)) y=std::floor(y);
        const int x0=(int)std::floor((double)x),y0=(int)std::floor((double)y); const double ax=(double)x-x0,ay=(double)y-y0;
        const auto ex=[&](const cv::Mat& m, int ch) {const auto g=[&](int yy,int xx){return getv(m,bidx(yy,rows,b),bidx(xx,cols,b),ch);}; return (1-ay)*((1-ax)*g(y0,x0)+ax*g(y0,x0+1))+ay*((1-ax)*g(y0+1,x0)+ax*g(y0+1,x0+1));};
        const double tolf = std::is_floating_point<T>::value?0.01:0.05;
        const auto chk=[&](double got, double e, bool rounded, const char* what) {c.checkf(std::abs(got-e)<=(rounded?0.5+tolf:tolf),"subpix",[&]{return vh::str(what," value at (",x,",",y,") is ",got," instead of ",e);});};
        const bool rnd=!std::is_floating_point<T>::value;
        const double e1=ex(m1,0);
        chk((double)lv::getSubPix<T>(cv::Mat_<T>(m1),x,y,b),e1,rnd,"typed 1ch");
        chk((double)lv::getSubPix<T,float>(cv::Mat_<T>(m1),x,y,b),e1,false,"typed 1ch float");
        chk((double)lv::getSubPix<T,float>(m1,x,y,b),e1,false,"untyped 1ch float");
        const cv::Vec<T,3> v=lv::getSubPix<T,3>(cv::Mat_<cv::Vec<T,3>>(m3),x,y,b); const cv::Vec3f vf=lv::getSubPix<T,3,float>(cv::Mat_<cv::Vec<T,3>>(m3),x,y,b);
        for(int ch=0; ch<3; ++ch) {const double e=ex(m3,ch); chk((double)v[ch],e,rnd,"typed 3ch"); chk((double)vf[ch],e,false,"typed 3ch float");}
        c.nontrivial(vh::str(x,y,shape(m1),b));
    }
}
SCENARIO("subpix",600,12000) { switch(c.rng.below(3)) {case 0: subpix<uint8_t>(c); break; case 1: subpix<int16_t>(c); break; default: subpix<float>(c);} }
SCENARIO("keypoints",500,10000) {
    auto& r=c.rng; const int rows=(int)r.range(1,10),cols=(int)r.range(1,10); cv::Mat parent; cv::Mat roi=randMat(r,{rows,cols},CV_8UC1,r.chance(60),parent,1);
    std::vector<cv::KeyPoint> v; const int n=(int)r.below(30);
    for(int i=0; i<n; ++i) {float x=(float)r.real(-2,cols+2),y=(float)r.real(-2,rows+2); if(r.chance(40)) {x=std::floor(x);y=std::floor(y);} if(r.chance(15)) x=std::nextafter((float)cols,0.f); if(r.chance(15)) y=std::nextafter((float)rows,0.f); v.emplace_back(x,y,(float)r.range(1,9),(float)i);}
    c.desc(vh::str(shape(roi)," ",n," keypoints"));
    std::vector<cv::KeyPoint> w=v; lv::validateKeyPoints(roi,w);
    size_t j=0;
    for(auto& k : v) {
        const bool kept = j<w.size() && w[j].angle==k.angle && w[j].pt==k.pt && w[j].size==k.size;
        const bool inside = k.pt.x>=0 && k.pt.x<cols && k.pt.y>=0 && k.pt.y<rows;
        int non=0,nul=0;
        if(inside) for(int yy : {(int)std::floor(k.pt.y),(int)std::ceil(k.pt.y)}) for(int xx : {(int)std::floor(k.pt.x),(int)std::ceil(k.pt.x)}) if(yy<rows&&xx<cols) (roi.at<uint8_t>(yy,xx)?non:nul)++;
        if(!inside || non==0) c.check(!kept,"kp-kept",vh::str("keypoint at (",k.pt.x,",",k.pt.y,") outside the region was kept"));
        else if(nul==0) c.check(kept,"kp-dropped",vh::str("keypoint at (",k.pt.x,",",k.pt.y,") inside the region was dropped"));
        if(kept) ++j;
    }
    c.check(j==w.size(),"kp-order","keypoints were reordered or invented");
    std::vector<cv::KeyPoint> u=v; lv::validateKeyPoints(cv::Mat(),u); c.check(u.size()==v.size(),"kp-empty-roi","an empty region must keep everything");
    c.nontrivial(vh::str(c.idx));
}
SCENARIO("copy_valid",1200,20000) {
    auto& r=c.rng; const int ir=(int)r.range(1,9),ic=(int)r.range(1,9),orr=(int)r.range(1,9),oc=(int)r.range(1,9);
    cv::Mat pi,po,pm; const int type=CV_MAKETYPE((int)r.pick({CV_8U,CV_32F}),(int)r.range(1,3));
    const cv::Mat in=randMat(r,{ir,ic},type,r.chance(40),pi,0); cv::Mat out=randMat(r,{orr,oc},type,r.chance(40),po,0);
    cv::Mat mask; if(r.chance(40)) mask=randMat(r,{ir,ic},CV_8UC1,r.chance(40),pm,1);
    const int w=(int)r.below((uint64_t)ic+1),h=(int)r.below((uint64_t)ir+1),x=(int)r.below((uint64_t)(ic-w)+1),y=(int)r.below((uint64_t)(ir-h)+1);
    const cv::Rect iroi(x,y,w,h),oroi((int)r.range(-10,10),(int)r.range(-10,10),w,h);
    c.desc(vh::str(shape(in)," roi ",x,",",y," ",w,"x",h," to ",shape(out)," at ",oroi.x,",",oroi.y,mask.empty()?"":" masked"));
    const cv::Mat before=out.clone(); const auto ib=bytes(pi.empty()?in:pi); cv::Mat pob=po.clone();
    cv::Rect valid(-1,-1,-1,-1); const int n=lv::copyValidPixelsTo(in,iroi,out,oroi,&valid,cv::Mat_<uchar>(mask));
    c.check(bytes(pi.empty()?in:pi)==ib,"copy-input","input was modified");
    int cnt=0; cv::Mat expect=before.clone();
    for(int b=0; b<h; ++b) for(int a=0; a<w; ++a) {const int oy=oroi.y+b,ox=oroi.x+a; if(oy<0||ox<0||oy>=orr||ox>=oc) continue; if(!mask.empty()&&!mask.at<uint8_t>(y+b,x+a)) continue; ++cnt; memcpy(expect.ptr(oy,ox),in.ptr(y+b,x+a),in.elemSize());}
    c.check(sameBits(expect,out),"copy-values","output pixels differ from the definition");
    c.check(n==cnt,"copy-count",vh::str("returned ",n," for ",cnt," copied pixels"));
    const cv::Rect ev=oroi & cv::Rect(0,0,oc,orr);
    c.check((ev.area()==0&&valid.area()==0)||ev==valid,"copy-roi","wrong valid output region");
    if(!po.empty()) {out.setTo(cv::Scalar::all(0)); cv::Mat v2=pob(cv::Rect(int((out.data-po.data)%(long)po.step[0]/(long)po.elemSize()),int((out.data-po.data)/(long)po.step[0]),oc,orr)); v2.setTo(cv::Scalar::all(0)); c.check(bytes(pob)==bytes(po),"copy-outside","pixels outside the output view were modified");}
    c.nontrivial(c.desc_);
}
SCENARIO("reshape_concat",600,12000) {
    auto& r=c.rng;
    { // squeeze + submat
        auto sz=randDims(r,5,5); for(auto& s : sz) if(r.chance(40)) s=1;
        cv::Mat parent; const cv::Mat m=randMat(r,sz,CV_MAKETYPE((int)r.below(7),(int)r.range(1,3)),r.chance(50),parent,0);
        c.desc("squeeze "+shape(m));
        cv::Mat q; if(r.chance(40)) q=cv::Mat(2,2,CV_8UC1,cv::Scalar(0)); lv::squeeze(m,q);
        std::vector<int> es; if(m.dims<=2) es=sz; else {for(int s : sz) if(s>1) es.push_back(s); if(es.empty()) es={1,1}; else if(es.size()==1) es={1,es[0]};}
        bool ok=q.dims==(int)es.size()&&q.type()==m.type(); for(size_t i=0; ok&&i<es.size(); ++i) ok=q.size[(int)i]==es[i];
        c.check(ok,"squeeze-shape",vh::str("squeezed ",shape(m)," to ",shape(q)));
        c.check(bytes(q)==bytes(m),"squeeze-values",vh::str("squeezing ",shape(m)," changed its values"));
        const int d=(int)r.below((uint64_t)m.dims),e=(int)r.below((uint64_t)m.size[d]);
        const cv::Mat s1=lv::getSubMat(m,d,e); std::vector<cv::Range> rg((size_t)m.dims,cv::Range::all()); rg[(size_t)d]=cv::Range(e,e+1);
        c.check(sameBits(s1,m(rg.data())),"submat","wrong sub-matrix");
        const cv::Mat s2=lv::getSubMat(m,d,cv::Range(e,m.size[d])); rg[(size_t)d]=cv::Range(e,m.size[d]); c.check(sameBits(s2,m(rg.data())),"submat-range","wrong sub-matrix");
        c.check(throws([&]{lv::getSubMat(m,m.dims,0);})&&throws([&]{lv::getSubMat(m,d,m.size[d]);})&&throws([&]{lv::getSubMat(m,d,-1);})&&throws([&]{lv::getSubMat(m,d,cv::Range(0,m.size[d]+1));}),"submat-oob","out-of-range sub-matrix raised no error");
        c.nontrivial(shape(m));
    }
    { // concat
        const int n=(int)r.range(1,5),rows=(int)r.range(1,7),cols=(int)r.range(1,7); const int type=CV_MAKETYPE((int)r.pick({CV_8U,CV_16U,CV_32F}),(int)r.range(1,3));
        std::vector<cv::Mat> v,parents((size_t)n); bool alls=true; for(int i=0; i<n; ++i) {const bool other=i>0&&r.chance(20); alls=alls&&!other; v.push_back(randMat(r,{other?(int)r.range(1,7):rows,other?(int)r.range(1,7):cols},type,r.chance(40),parents[(size_t)i],1));}
        const bool hz=r.chance(50); const cv::Mat o=r.chance(50)?lv::concat(v,hz):(hz?lv::hconcat(v):lv::vconcat(v)); const cv::Mat o2=r.chance(50)?lv::concat<cv::INTER_NEAREST>(v,hz):(hz?lv::hconcat<cv::INTER_NEAREST>(v):lv::vconcat<cv::INTER_NEAREST>(v));
        c.desc(vh::str("concat of ",n," ",shape(v[0])));
        c.check(o.rows==(hz?rows:rows*n)&&o.cols==(hz?cols*n:cols)&&o.type()==type,"concat-shape","wrong concatenated size");
        for(int i=0; i<n; ++i) if(v[(size_t)i].size()==v[0].size()) c.check(sameBits(v[(size_t)i],o(cv::Rect(hz?cols*i:0,hz?0:rows*i,cols,rows))),"concat-values",vh::str("tile ",i," differs"));
        for(int i=0; i<n; ++i) { // tiles of other sizes are resized with the requested interpolation
            const cv::Rect t(hz?cols*i:0,hz?0:rows*i,cols,rows); cv::Mat e=v[(size_t)i],e2=e; if(e.size()!=v[0].size()) {cv::resize(v[(size_t)i],e,v[0].size(),0,0,cv::INTER_CUBIC); cv::resize(v[(size_t)i],e2,v[0].size(),0,0,cv::INTER_NEAREST); c.stat("resized_tiles");}
            c.check(sameBits(e,o(t)) && o2.size()==o.size() && sameBits(e2,o2(t)),"concat-resize",vh::str("tile ",i," of ",shape(v[(size_t)i])," differs from its resized input"));
        }
    }
}
SCENARIO("colour",1500,30000) {
    auto& r=c.rng;
    const cv::Vec3b v(r.chance(20)?0:(uint8_t)r.below(256),r.chance(20)?255:(uint8_t)r.below(256),(uint8_t)r.below(256));
    c.desc(vh::str("bgr ",(int)v[0],",",(int)v[1],",",(int)v[2]));
    const cv::Vec3f h=lv::getHSLFromBGR(v);
    const double R=v[2]/255.0,G=v[1]/255.0,B=v[0]/255.0,mx=std::max(R,std::max(G,B)),mn=std::min(R,std::min(G,B)),L=(mx+mn)/2,C=mx-mn;
    const double S=C==0?0:C/(1-std::abs(2*L-1)); double H=C==0?0:mx==R?std::fmod((G-B)/C+6,6):mx==G?(B-R)/C+2:(R-G)/C+4; H*=60;
    c.check(std::abs(h[2]-L)<1e-5&&std::abs(h[1]-S)<1e-4,"hsl-sl",vh::str("saturation/lightness ",h[1],"/",h[2]," instead of ",S,"/",L));
    c.check(h[0]>=0&&h[0]<360&&std::abs(h[0]-H)<1e-2,"hsl-hue",vh::str("hue ",h[0]," instead of ",H));
    const cv::Vec3b b=lv::getBGRFromHSL(h);
    c.check(b==v,"hsl-roundtrip",vh::str("converted back to ",(int)b[0],",",(int)b[1],",",(int)b[2]));
    c.nontrivial(c.desc_);
}
SCENARIO("packed_ycbcr",400,8000) {
    auto& r=c.rng; const int rows=(int)r.range(1,6),cols=(int)r.range(1,70); cv::Mat parent;
    cv::Mat im=image(r,rows,cols,CV_8UC3); const bool sub=r.chance(50); const cv::Mat_<cv::Vec3b> in=sub?embed(r,im,parent):im;
    c.desc(shape(in));
    cv::Mat ycc; cv::cvtColor(in,ycc,cv::COLOR_BGR2YCrCb);
    cv::Mat_<uint16_t> out; cv::Mat outp; if(r.chance(40)) {out=cv::Mat_<uint16_t>(rows,cols,uint16_t(9));} else if(r.chance(20)) {outp=cv::Mat(rows+2,cols+2,CV_16UC1,cv::Scalar(5)); out=cv::Mat_<uint16_t>(outp(cv::Rect(1,1,cols,rows)));}
    lv::cvtBGRToPackedYCbCr(in,out);
    c.check(sameBits(cv::Mat(in),im),"ycc-input","conversion modified its input");
    c.check(out.rows==rows&&out.cols==cols,"ycc-shape","wrong output size");
    for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {const cv::Vec3b v=ycc.at<cv::Vec3b>(y,x); const uint16_t e=uint16_t(v[0]|((v[1]>>4)<<8)|((v[2]>>4)<<12)); c.checkf(out(y,x)==e,"ycc-value",[&]{return vh::str("packed (",y,",",x,") is ",out(y,x)," instead of ",e);});}
    if(!outp.empty()) for(int y=0; y<rows+2; ++y) for(int x=0; x<cols+2; ++x) if(y==0||x==0||y==rows+1||x==cols+1) c.check(outp.at<uint16_t>(y,x)==5,"ycc-outside","pixels outside the output view were modified");
    // and back, from arbitrary packed values and any alignment
    cv::Mat pp; cv::Mat pk=randMat(r,{rows,cols},CV_16UC1,sub,pp,0); const cv::Mat_<cv::Vec3b> bgr=lv::cvtPackedYCbCrToBGR(cv::Mat_<uint16_t>(pk));
    cv::Mat y2(rows,cols,CV_8UC3); for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {const uint16_t p=pk.at<uint16_t>(y,x); y2.at<cv::Vec3b>(y,x)=cv::Vec3b((uint8_t)(p&255),(uint8_t)(((p>>8)&15)<<4),(uint8_t)((p>>12)<<4));}
    cv::Mat e2; cv::cvtColor(y2,e2,cv::COLOR_YCrCb2BGR);
    c.check(sameBits(cv::Mat(bgr),e2),"ycc-unpack","unpacked colours differ from the definition");
    c.nontrivial(vh::str(vh::hbytes(im.data,im.total()*3)));
}
SCENARIO("colour_maps",250,4000) {
    auto& r=c.rng; const int rows=(int)r.range(1,20),cols=(int)r.range(1,40); cv::Mat parent; const int k=r.chance(30)?(int)r.range(2,719):(int)r.range(1,20);
    cv::Mat m(rows,cols,CV_32SC1); for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) m.at<int>(y,x)=(int)r.below((uint64_t)k)*7-50;
    const bool sub=r.chance(50); const cv::Mat_<int> in=sub?embed(r,m,parent):m; c.desc(vh::str(shape(in)," up to ",k," values"));
    std::map<int,cv::Vec3b> cm; const cv::Mat o=lv::getUniqueColorMap(in,&cm);
    c.check(o.rows==rows&&o.cols==cols&&o.type()==CV_8UC3,"cmap-shape","wrong colour map size");
    std::map<int,cv::Vec3b> seen; std::map<int,int> inv; 
    for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) {const int v=m.at<int>(y,x); const cv::Vec3b p=o.at<cv::Vec3b>(y,x); auto it=seen.emplace(v,p).first; c.check(it->second==p,"cmap-consistent","equal values got different colours"); auto jt=inv.emplace(p[0]|p[1]<<8|p[2]<<16,v).first; c.checkf(jt->second==v,"cmap-unique",[&]{return vh::str("values ",v," and ",jt->second," share a colour");});}
    if(seen.size()>1) c.check(cm==seen,"cmap-map","returned value-to-colour map does not match the image");
    // flow map: same vector, same colour; zero flow is black
    cv::Mat fl=cv::Mat::zeros(rows,cols,r.chance(50)?CV_32FC2:CV_64FC2); c.check(lv::getFlowColorMap(fl).size()==fl.size()&&cv::countNonZero(lv::getFlowColorMap(fl).reshape(1))==0,"flow-zero","null flow is not black");
    { // flow map: hue from direction (half degrees), value from the magnitude scaled to 0..255, full saturation
        cv::Mat fv(rows,cols,r.chance(50)?CV_32FC2:r.chance(50)?CV_64FC2:CV_32SC2); std::vector<std::array<double,2>> f((size_t)rows*cols); const bool axes=r.chance(30);
        for(size_t i=0; i<f.size(); ++i) {const int y=(int)i/cols,x=(int)i%cols; for(int q=0; q<2; ++q) {double v=axes?(double)r.range(-2,2):r.real(-90,90); if(fv.depth()==CV_32S) {v=std::round(v); fv.at<cv::Vec2i>(y,x)[q]=(int)v;} else if(fv.depth()==CV_32F) {v=(float)v; fv.at<cv::Vec2f>(y,x)[q]=(float)v;} else fv.at<cv::Vec2d>(y,x)[q]=v; f[i][(size_t)q]=v;}}
        cv::Mat fp; const cv::Mat fin=r.chance(50)?embed(r,fv,fp):fv; const cv::Mat fo=lv::getFlowColorMap(fin); c.check(sameBits(fin,fv)&&fo.size()==fv.size()&&fo.type()==CV_8UC3,"flow-shape","flow colour map");
        double lo=1e300,hi=0; for(auto& v : f) {const double m2=std::hypot(v[0],v[1]); lo=std::min(lo,m2); hi=std::max(hi,m2);}
        for(size_t i=0; i<f.size() && hi>lo*1.001+1e-6; ++i) {
            const cv::Vec3b p=fo.at<cv::Vec3b>((int)i/cols,(int)i%cols); const int mx=std::max(p[0],std::max(p[1],p[2])),mn=std::min(p[0],std::min(p[1],p[2])); const double ev=255*(std::hypot(f[i][0],f[i][1])-lo)/(hi-lo);
            c.checkf(std::abs(mx-ev)<=1.6 && mn<=1,"flow-value",[&]{return vh::str("flow (",f[i][0],",",f[i][1],") is drawn with value ",mx,"/",mn," instead of ",ev);});
            if(mx<60) continue;
            double h=mx==p[2]?60.0*(p[1]-p[0])/(mx-mn):mx==p[1]?120+60.0*(p[0]-p[2])/(mx-mn):240+60.0*(p[2]-p[1])/(mx-mn); const double eh=std::atan2(f[i][0],f[i][1])*180/M_PI; double dh=std::fmod(h-eh,360.0); if(dh>180) dh-=360; if(dh<-180) dh+=360;
            c.checkf(std::abs(dh)<=4,"flow-hue",[&]{return vh::str("flow (",f[i][0],",",f[i][1],") is drawn with hue ",h," instead of ",eh);}); c.stat("flow_hues");
        }
    }
    c.nontrivial(vh::str(c.idx));
}
template<typename T> static void printCase(vh::Case& c) {
    auto& r=c.rng; const int rows=(int)r.range(1,6),cols=(int)r.range(1,6); cv::Mat parent; cv::Mat m=randMat(r,{rows,cols},CV_MAKETYPE(cv::DataType<T>::depth,1),r.chance(50),parent,(int)r.below(2));
    c.desc("print "+shape(m));
    const std::string s=r.chance(50)?lv::to_string(m):lv::to_string(cv::Mat_<T>(m));
    std::istringstream ss(s); std::string line; int row=0;
    while(std::getline(ss,line)) {
        if(line.compare(0,3," y=")!=0) continue;
        const size_t bar=line.find('|'); c.check(bar!=std::string::npos,"print-format","row without separator");
        c.check(atoi(line.c_str()+3)==row,"print-row",vh::str("row label '",line.substr(0,bar),"' for row ",row));
        std::istringstream ls(line.substr(bar+1)); double v; int col=0;
        while(ls >> v) {c.check(col<cols,"print-cols","too many columns printed"); const double e=(double)m.at<T>(row,col); c.checkf(std::abs(v-e)<=(std::is_floating_point<T>::value?6e-5+1e-6*std::abs(e):0),"print-value",[&]{return vh::str("element (",row,",",col,") printed as ",v," instead of ",e);}); ++col;}
        c.check(col==cols,"print-cols",vh::str(col," of ",cols," columns printed: '",line,"'")); ++row;
    }
    c.check(row==rows,"print-rows","missing rows");
    c.nontrivial(s);
}
SCENARIO("print",400,6000) { switch(c.rng.below(7)) {case 0: printCase<uint8_t>(c); break; case 1: printCase<int8_t>(c); break; case 2: printCase<uint16_t>(c); break; case 3: printCase<int16_t>(c); break; case 4: printCase<int32_t>(c); break; case 5: printCase<float>(c); break; default: printCase<double>(c);} }
SCENARIO("aligned_alloc",400,6000) {
    auto& r=c.rng; const auto sz=randDims(r,4,20); const int type=CV_MAKETYPE((int)r.below(7),(int)r.range(1,5)); const bool b32=r.chance(50);
    cv::Mat m; m.allocator=b32?lv::getMatAllocator32a():lv::getMatAllocator16a(); m.create((int)sz.size(),sz.data(),type); c.desc(shape(m));
    const size_t al=b32?32:16;
    c.check(m.step[m.dims-1]==m.elemSize(),"alloc-elem","element step is not the element size");
    std::vector<int> idx(sz.size(),0); bool more=true; size_t nrow=0;
    while(more) {uint8_t* p=m.data; for(size_t d=0; d+1<idx.size(); ++d) p+=m.step[(int)d]*idx[d]; c.check((size_t)p%al==0,"alloc-align",vh::str("row ",nrow," is not ",al,"-byte aligned")); memset(p,(int)(nrow&255),m.elemSize()*(size_t)sz.back()); ++nrow;
        more=false; for(int d=(int)idx.size()-2; d>=0; --d) {if(++idx[(size_t)d]<sz[(size_t)d]) {more=true; break;} idx[(size_t)d]=0;}}
    // rows must not overlap
    std::fill(idx.begin(),idx.end(),0); more=true; nrow=0;
    while(more) {uint8_t* p=m.data; for(size_t d=0; d+1<idx.size(); ++d) p+=m.step[(int)d]*idx[d]; c.check(p[0]==(nrow&255)&&p[m.elemSize()*(size_t)sz.back()-1]==(nrow&255),"alloc-overlap","rows overlap"); ++nrow; more=false; for(int d=(int)idx.size()-2; d>=0; --d) {if(++idx[(size_t)d]<sz[(size_t)d]) {more=true; break;} idx[(size_t)d]=0;}}
    cv::Mat n=m; m.release(); c.check(bytes(n).size()==n.total()*n.elemSize(),"alloc-share","shared matrix lost its data");
    c.nontrivial(shape(n)+(b32?"32":"16"));
}
SCENARIO("matinfo",400,6000) {
    auto& r=c.rng; const auto sa=randDims(r,5,4),sb=r.chance(50)?sa:randDims(r,5,4); const int ta=CV_MAKETYPE((int)r.below(7),(int)r.range(1,4)),tb=r.chance(50)?ta:CV_MAKETYPE((int)r.below(7),(int)r.range(1,4));
    cv::Mat a((int)sa.size(),sa.data(),ta),b((int)sb.size(),sb.data(),tb); const lv::MatInfo ia(a),ib(b); c.desc(shape(a)+" "+shape(b));
    c.check((ia==ib)==(sa==sb&&ta==tb)&&(ia!=ib)!=(ia==ib),"info-equal","wrong comparison of matrix infos");
    c.check((ia.size==ib.size)==(sa==sb),"size-equal","wrong comparison of matrix sizes");
    size_t tot=1; for(int s : sa) tot*=(size_t)s;
    c.check(ia.size.total()==tot&&ia.size.dims()==sa.size()&&!ia.size.empty(),"size-total","wrong element count");
    for(size_t d=0; d<sa.size(); ++d) c.check(ia.size[d]==(size_t)sa[d],"size-dim","wrong dimension size");
    c.check(ia.type()==ta&&(size_t)ia.type.elemSize()==a.elemSize()&&ia.type.channels()==a.channels()&&ia.type.depth()==a.depth(),"type","wrong type info");
    c.check((ia.size==a.size)&&((ia.size==b.size)==(sa==sb)),"size-cv","wrong comparison with an OpenCV size");
    const lv::MatSize_<int> si(ia.size); c.check(si.total()==tot&&si==ia.size,"size-convert","size changed when converted");
    cv::MatSize ms=(cv::MatSize)ia.size; cv::Mat z(ms.dims(),ms.p,ta); c.check(sameShape(z,a),"size-alloc","matrix allocated from a size object has another shape");
    if(sa.size()==2) c.check(ia.size.transpose()==lv::MatSize(sa[1],sa[0])&&(cv::Size)ia.size==cv::Size(sa[1],sa[0]),"size-transpose","wrong transposed size"); else c.check(throws([&]{ia.size.transpose();}),"size-transpose-refused","transposing a non-2d size raised no error");
    c.nontrivial(c.desc_);
}
template<typename T, int D> void typeCompat(vh::Case& c, const lv::MatType& t, int type) {
    const int d=CV_MAT_DEPTH(type),ch=CV_MAT_CN(type);
    c.check(t.isTypeCompat<T>()==(d==D),"type-compat",vh::str("type ",type," compared with depth ",D));
    c.check((t.isTypeCompat<T,true>()==(d==D&&ch==1)),"type-compat-ch1",vh::str("type ",type," compared with depth ",D));
    c.check((t.isTypeCompat<cv::Vec<T,2>,true>()==(d==D&&ch==2)),"type-compat-ch2",vh::str("type ",type," compared with depth ",D));
    c.check((t.isTypeCompat<cv::Vec<T,3>,true>()==(d==D&&ch==3)),"type-compat-ch3",vh::str("type ",type," compared with depth ",D));
    c.check((t.isTypeCompat<cv::Vec<T,4>,true>()==(d==D&&ch==4)),"type-compat-ch4",vh::str("type ",type," compared with depth ",D));
}
template<int T> void cvType(vh::Case& c) {
    using M=lv::MatCVType_<T>; const cv::Mat m(1,1,T);
    c.check(M::elemSize()==m.elemSize()&&M::depthBytes()==m.elemSize1()&&M::channels()==m.channels()&&M::depth()==m.depth()&&M::type()==T&&M()()==T&&sizeof(typename M::elem_type)==m.elemSize()&&sizeof(typename M::data_type)==m.elemSize1(),"type-static",vh::str("static description of type ",T));
    using R=lv::MatRawType_<typename M::data_type,M::channels()>; c.check(R::elemSize()==m.elemSize()&&R::depthBytes()==m.elemSize1()&&R::channels()==m.channels()&&R::depth()==m.depth()&&R::type()==T&&sizeof(typename R::elem_type)==m.elemSize(),"type-static-raw",vh::str("static description of raw type ",T));
}
SCENARIO("matsize",400,6000) { // size and type descriptors, sparse/dense access helpers
    auto& r=c.rng; std::vector<int> v((size_t)r.below(6)); for(auto& s : v) s=r.chance(10)?0:(int)r.range(1,9);
    std::string d="sizes"; for(int s : v) d+=vh::str(" ",s); c.desc(d);
    const lv::MatSize s(v); const lv::MatSize_<int> si((int)v.size(),(const int*)v.data()); const lv::MatSize_<short> ss=s; size_t tot=v.empty()?0:1; for(int k : v) tot*=(size_t)k;
    const auto same=[&](const std::vector<int>& e, const auto& x) {if((size_t)x.dims()!=e.size()) return false; for(size_t i=0; i<e.size(); ++i) if((int)x[i]!=e[i]||(int)x(i)!=e[i]||(int)x.size(i)!=e[i]||x.sizes()[i]!=e[i]) return false; return true;};
    c.check(same(v,s)&&same(v,si)&&same(v,ss),"size-values","stored sizes differ");
    c.check(s.total()==tot&&si.total()==tot&&ss.total()==tot&&s.empty()==(tot==0),"size-count",vh::str("total ",s.total()));
    c.check(s==si&&si==s&&s==ss&&!(s!=si)&&!(ss!=si),"size-same","equal sizes of different integers differ");
    std::vector<int> w=v; bool differs=false; if(!w.empty()&&r.chance(70)) {const size_t k=r.below(w.size()); w[k]=(int)r.range(1,9);} else if(r.chance(50)) w.push_back(1); const lv::MatSize_<int> sw(w);
    size_t tw=w.empty()?0:1; for(int k : w) tw*=(size_t)k; differs=w!=v&&!(tot==0&&tw==0);
    c.check((s==sw)==!differs&&(sw==s)==!differs&&(s!=sw)==differs,"size-differ",vh::str("comparison with ",sw.str()));
    const double f=r.chance(30)?1.0:r.real(0,3); auto sc=s*f; auto sc2=si; sc2*=f; std::vector<int> e=v; for(auto& k : e) k=(int)(k*f);
    c.check(same(e,sc)&&same(e,sc2)&&same(v,s)&&same(v,si),"size-scale",vh::str("scaled by ",f," gives ",sc.str()));
    lv::MatSize cp; c.check(cp.dims()==0&&cp.total()==0&&cp.empty(),"size-default","default size is not empty"); cp=si; if(!v.empty()) {cp[r.below(v.size())]=77; c.check(same(v,si)&&!same(v,cp),"size-copy","a copy shares its sizes");}
    cp=lv::MatSize_<int>(w); c.check(same(w,cp),"size-assign","assigned sizes differ");
    if(v.size()==2) {
        c.check(s==cv::Size(v[1],v[0])&&(cv::Size)s==cv::Size(v[1],v[0])&&s()==cv::Size(v[1],v[0])&&same(v,lv::MatSize(cv::Size(v[1],v[0])))&&same(v,lv::MatSize(v[0],v[1]))&&same(v,lv::MatSize(std::array<int,2>{v[0],v[1]})),"size-2d","conversion of a 2d size");
        c.check((s!=cv::Size(v[1]+1,v[0]))&&(s!=cv::Size(v[1],v[0]+1)),"size-2d-differ","different 2d sizes are equal");
    }
    if(v.size()>2) c.check(throws([&]{(void)(cv::Size)s;})&&!(s==cv::Size(v[1],v[0])),"size-nd","a size with more dimensions was converted to a 2d size");
    if(v.size()>=2&&tot>0) { // against the size of a matrix
        const cv::Mat mv((int)v.size(),v.data(),CV_8UC1); c.check(s==mv.size&&si==mv.size&&ss==mv.size&&!(s!=mv.size)&&!(ss!=mv.size)&&same(v,lv::MatSize(mv.size)),"size-mat","size of a matrix differs");
        if(w.size()>=2&&tw>0) {const cv::Mat mw((int)w.size(),w.data(),CV_8UC1); c.check((s==mw.size)==!differs&&(s!=mw.size)==differs&&(ss==mw.size)==!differs,"size-mat-differ",vh::str("comparison with a matrix of size ",sw.str()));}
        const cv::MatSize back=s; bool ok=back.p[-1]==(int)v.size(); for(size_t i=0; ok&&i<v.size(); ++i) ok=back.p[i]==v[i]; c.check(ok,"size-mat-convert","conversion to an OpenCV size");
        const lv::MatInfo a(mv),b(s,CV_8UC1),t2(s,CV_8UC2),z(sw,CV_8UC1); c.check(a==b&&!(a!=b)&&a!=t2&&!(a==t2)&&(a==z)==!differs&&(a!=z)==differs&&b.size==s&&t2.type()==CV_8UC2,"info","comparison of matrix descriptions");
    }
    cvType<CV_8UC1>(c); cvType<CV_8SC2>(c); cvType<CV_16UC3>(c); cvType<CV_16SC4>(c); cvType<CV_32SC1>(c); cvType<CV_32FC3>(c); cvType<CV_64FC2>(c); cvType<CV_64FC1>(c);
    std::vector<int> neg=v; neg.push_back(-1-(int)r.below(5)); c.check(throws([&]{lv::MatSize x(neg);})&&throws([&]{lv::MatSize x(cv::Size(-1,3));}),"size-negative","negative sizes accepted");
    const int type=CV_MAKETYPE((int)r.below(7),(int)r.range(1,4)); const lv::MatType t(type);
    c.check(t()==type&&t==lv::MatType(type)&&(t!=lv::MatType((type+1)%CV_MAKETYPE(7,1)))==(type!=(type+1)%CV_MAKETYPE(7,1))&&(size_t)t.elemSize()==(size_t)CV_ELEM_SIZE(type)&&(size_t)t.depthBytes()==(size_t)CV_ELEM_SIZE1(type)&&t.channels()==CV_MAT_CN(type)&&t.depth()==CV_MAT_DEPTH(type),"type-info",vh::str("type ",type));
    typeCompat<uchar,CV_8U>(c,t,type); typeCompat<schar,CV_8S>(c,t,type); typeCompat<ushort,CV_16U>(c,t,type); typeCompat<short,CV_16S>(c,t,type); typeCompat<int,CV_32S>(c,t,type); typeCompat<float,CV_32F>(c,t,type); typeCompat<double,CV_64F>(c,t,type);
    { // same accesses on dense and sparse matrices
        const std::vector<int> q={(int)r.range(1,5),(int)r.range(1,5),(int)r.range(1,5)};
        cv::Mat_<float> m; cv::SparseMat_<float> sp; lv::allocMat(m,q,CV_32FC1); lv::allocMat(sp,q,CV_32FC1);
        c.check(throws([&]{cv::Mat_<float> x; lv::allocMat(x,q,CV_32SC1);}),"alloc-type","allocation with another type accepted");
        lv::zeroMat(m); lv::zeroMat(sp); std::map<std::array<int,3>,float> ref;
        for(size_t k=r.below(20); k>0; --k) {const std::array<int,3> i={(int)r.below((uint64_t)q[0]),(int)r.below((uint64_t)q[1]),(int)r.below((uint64_t)q[2])}; const float x=(float)r.range(1,99); lv::getElem(m,i.data())+=x; lv::getElem(sp,i.data())+=x; ref[i]+=x;}
        c.check(lv::getElemCount(m)==(size_t)q[0]*q[1]*q[2]&&lv::getElemCount(sp)==ref.size(),"elem-count",vh::str(lv::getElemCount(sp)," of ",ref.size()," stored elements"));
        std::array<int,3> tmp; size_t n=0; bool ok=true;
        for(auto it=m.begin(); it!=m.end(); ++it,++n) {const int* i=lv::getIterPos(it,tmp); const auto f2=ref.find({i[0],i[1],i[2]}); ok=ok&&*it==(f2==ref.end()?0.f:f2->second);}
        c.check(ok&&n==m.total(),"iter-dense","element positions of a dense matrix"); n=0;
        for(auto it=sp.begin(); it!=sp.end(); ++it,++n) {const int* i=lv::getIterPos(it,tmp); const auto f2=ref.find({i[0],i[1],i[2]}); ok=ok&&f2!=ref.end()&&*it==f2->second;}
        c.check(ok&&n==ref.size(),"iter-sparse","element positions of a sparse matrix");
        lv::zeroMat(m); lv::zeroMat(sp); c.check(cv::countNonZero(m.reshape(1,1))==0&&lv::getElemCount(sp)==0,"zero","elements left");
    }
    c.nontrivial(vh::str(d,"/",w.size(),"/",f,"/",type));
}
SCENARIO("logpolar",500,8000) {
    auto& r=c.rng; const bool ln=r.chance(50); const int n=2*(int)r.range(ln?0:2,14)+1,nr=(int)r.range(1,8),na=(int)r.range(1,r.chance(10)?400:36); const float off=ln&&r.chance(40)?(float)r.real(0,3):0.f;
    c.desc(vh::str("mask ",n," radial ",nr," angular ",na,ln?" lienhart off ":" chatfield ",off));
    cv::Mat_<int> m; if(r.chance(50)) {const int o=r.chance(50)?n:(int)r.range(1,9); m.create(o,o); m=(int)r.range(0,9);} int f=-5,l=-5; lv::getLogPolarMask(n,nr,na,m,ln,off,&f,&l);
    c.check(m.rows==n&&m.cols==n,"lp-size","wrong mask size");
    const int ctr=n/2; int ef=n*n-1,el=0,used=0; std::vector<std::pair<int,int>> byDist; // (squared distance, radial bin)
    for(int y=0; y<n; ++y) for(int x=0; x<n; ++x) {
        const int v=m(y,x); c.checkf(v>=-1&&v<nr*na,"lp-range",[&]{return vh::str("bin ",v," at (",y,",",x,") with ",nr*na," bins");});
        const int d2=(y-ctr)*(y-ctr)+(x-ctr)*(x-ctr); const double d=std::sqrt((double)d2);
        if(d2==0) {c.check(v==-1,"lp-centre","centre is assigned to a bin"); continue;}
        if(d>ctr+off+1e-3) c.check(v==-1,"lp-outside",vh::str("pixel at distance ",d," is assigned"));
        if(d<ctr-1e-3) c.check(v>=0,"lp-inside",vh::str("pixel at distance ",d," of radius ",ctr," is not assigned"));
        if(v<0) continue;
        ++used; ef=std::min(ef,y*n+x); el=std::max(el,y*n+x); byDist.emplace_back(d2,nr-1-v%nr);
        // angular bin, by angle and with tolerance at bin limits
        const double two=2*M_PI; double ang=ln?std::atan2((double)(ctr-x),(double)(ctr-y))+M_PI:std::atan2((double)(y-ctr),(double)(x-ctr)); double pos=ang/two*na; if(!ln) pos+=0.5; 
        const int b=v/nr; double dd=pos-b-0.5; dd-=std::round(dd/na)*na; const double slack=ln?1e-3:(1.0/360+ (360%na?1.5*na/360.0:1.0*na/360.0));
        c.checkf(std::abs(dd)<=0.5+slack+1e-3,"lp-angle",[&]{return vh::str("pixel (",y,",",x,") is in angular bin ",b," instead of about ",pos);});
    }
    std::sort(byDist.begin(),byDist.end()); for(size_t i=1; i<byDist.size(); ++i) c.check(byDist[i].second>=byDist[i-1].second,"lp-radial","radial bin decreases with distance");
    if(used) c.check(f==ef&&l==el,"lp-first-last","first/last assigned indices are wrong");
    c.nontrivial(c.desc_);
}
VH_MAIN
