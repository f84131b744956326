// C17: background subtraction (ViBe, PBAS, LOBSTER, SuBSENSE, PAWCS).
// Oracles never look at the random draws: they bound what the model may hold (values seen in the neighbourhood)
// and derive which pixels must be, or must not be, foreground.
#include "vh.hpp"
#include "cvgen.hpp"
#include "litiv/video/BackgroundSubtractorViBe.hpp"
#include "litiv/video/BackgroundSubtractorPBAS.hpp"
#include "litiv/video/BackgroundSubtractorLOBSTER.hpp"
#include "litiv/video/BackgroundSubtractorSuBSENSE.hpp"
#include "litiv/video/BackgroundSubtractorPAWCS.hpp"
#include <opencv2/imgproc.hpp>
#include <bitset>
#include <memory>

namespace {
    enum Kind {VIBE, PBAS, LOB, SUB, PAW, KINDS};
    const char* const kname[] = {"ViBe","PBAS","LOBSTER","SuBSENSE","PAWCS"};
    struct Cfg {
        Kind k; int ch; size_t T=0,D=0,N=0,R=0; bool defaults=true; size_t M=0;
        std::string str() const {return vh::str(kname[k],ch,"ch T=",T," D=",D," N=",N," req=",R,defaults?" (defaults)":"");}
    };
    struct Algo {
        Cfg cfg;
        std::unique_ptr<cv::BackgroundSubtractor> p;
        IIBackgroundSubtractor* ii = nullptr;
        explicit Algo(const Cfg& c) : cfg(c) {
            switch(c.k) {
                case VIBE: if(c.ch==1) p.reset(new BackgroundSubtractorViBe_1ch(c.T,c.N,c.R)); else p.reset(new BackgroundSubtractorViBe_3ch(c.T,c.N,c.R)); break;
                case PBAS: if(c.ch==1) p.reset(new BackgroundSubtractorPBAS_1ch(c.T,16.f,c.N,c.R)); else p.reset(new BackgroundSubtractorPBAS_3ch(c.T,16.f,c.N,c.R)); break;
                case LOB: {auto* a = new BackgroundSubtractorLOBSTER(c.D,c.T,c.N,c.R); p.reset(a); ii=a;} break;
                case SUB: {auto* a = c.M?new BackgroundSubtractorSuBSENSE(c.D,c.T,c.N,c.R,c.M):new BackgroundSubtractorSuBSENSE(c.D,c.T,c.N,c.R); p.reset(a); ii=a;} break;
                case PAW: {auto* a = c.M?new BackgroundSubtractorPAWCS(c.D,c.T,c.N,c.M):new BackgroundSubtractorPAWCS(c.D,c.T,c.N); p.reset(a); ii=a;} break;
                default: break;
            }
        }
        bool hasROI() const {return ii!=nullptr;}
        void init(const cv::Mat& img, const cv::Mat& roi=cv::Mat()) {
            if(ii) ii->initialize(img,roi);
            else if(cfg.k==VIBE) dynamic_cast<BackgroundSubtractorViBe&>(*p).initialize(img);
            else dynamic_cast<BackgroundSubtractorPBAS&>(*p).initialize(img);
        }
        /// lr<0: the algorithm's default
        void apply(const cv::Mat& img, cv::Mat& mask, double lr=-1) {
            if(lr>0) {p->apply(img,mask,lr); return;}
            switch(cfg.k) {
                case VIBE: p->apply(img,mask,16); break;
                case PBAS: p->apply(img,mask,-1); break;
                case LOB: p->apply(img,mask,16); break;
                default: p->apply(img,mask,0); break;
            }
        }
        cv::Mat bg() const {cv::Mat m; p->getBackgroundImage(m); return m;}
        void refresh(vh::Rng& r) {
            const float f = r.chance(0.3)?1.f:(float)r.real(0.05,1.0);
            const bool fg = r.chance(0.5);
            if(auto* a = dynamic_cast<BackgroundSubtractorLOBSTER*>(p.get())) a->refreshModel(f,fg);
            else if(auto* a = dynamic_cast<BackgroundSubtractorSuBSENSE*>(p.get())) a->refreshModel(f,fg);
            else if(auto* a = dynamic_cast<BackgroundSubtractorPAWCS*>(p.get())) a->refreshModel((size_t)r.range(1,5),(float)r.real(0,1),fg);
        }
    };
    Cfg defCfg(Kind k, int ch) {
        Cfg c; c.k=k; c.ch=ch;
        switch(k) {
            case VIBE: c.T=20; c.N=20; c.R=2; break;
            case PBAS: c.T=30; c.N=35; c.R=2; break;
            case LOB: c.T=30; c.D=4; c.N=35; c.R=2; break;
            case SUB: c.T=30; c.D=3; c.N=50; c.R=2; break;
            case PAW: c.T=20; c.D=2; c.N=50; break;
            default: break;
        }
        return c;
    }
    Cfg randCfg(vh::Rng& r, Kind k, int ch, double pdef=0.4) {
        Cfg c = defCfg(k,ch);
        if(r.chance(pdef)) return c;
        c.defaults = false;
        c.T = (size_t)r.range(5,45); c.D = (size_t)r.range(1,6);
        c.N = k==PAW?(size_t)r.range(2,30):(size_t)r.range(2,30);
        c.R = (size_t)r.range(1,(int)std::min<size_t>(c.N,5));
        return c;
    }
    Kind pickKind(vh::Rng& r) {return (Kind)r.below(KINDS);}
    int minSide(Kind k) {return k==VIBE||k==PBAS?1:k==PAW?8:5;}
    typedef std::array<uchar,3> Col;
    /// frame given as palette indices
    struct Scene {
        int w,h,ch; std::vector<Col> pal;
        cv::Mat_<uchar> idx;
        cv::Mat img() const {
            cv::Mat m(h,w,ch==1?CV_8UC1:CV_8UC3);
            for(int y=0; y<h; ++y) for(int x=0; x<w; ++x) for(int c=0; c<ch; ++c) m.ptr<uchar>(y)[x*ch+c] = pal[idx(y,x)][c];
            return m;
        }
    };
    std::vector<Col> randPal(vh::Rng& r, int ch, int n) {
        std::vector<Col> v;
        for(int i=0; i<n; ++i) {
            Col c;
            if(i && r.chance(0.45)) { // close to an existing colour: near the thresholds
                c = v[r.below(v.size())];
                for(int k=0; k<3; ++k) c[k] = cv::saturate_cast<uchar>((int)c[k]+r.range(-25,25));
            }
            else for(int k=0; k<3; ++k) c[k] = r.chance(0.15)?(r.chance(0.5)?0:255):(uchar)r.below(256);
            if(ch==1) c[1]=c[2]=c[0];
            v.push_back(c);
        }
        return v;
    }
    void baseScene(Scene& s, vh::Rng& r) {
        s.idx.create(s.h,s.w); s.idx = (uchar)r.below(std::min<size_t>(3,s.pal.size()));
        const int nb = r.range(0,3);
        for(int i=0; i<nb; ++i) {
            const int x0=r.below(s.w),y0=r.below(s.h),x1=x0+r.below(s.w)+1,y1=y0+r.below(s.h)+1;
            const uchar v=(uchar)r.below(s.pal.size());
            for(int y=y0; y<std::min(y1,s.h); ++y) for(int x=x0; x<std::min(x1,s.w); ++x) s.idx(y,x)=v;
        }
    }
    void mutate(Scene& s, const cv::Mat_<uchar>& base, vh::Rng& r) {
        base.copyTo(s.idx);
        const int ops = r.range(0,3);
        for(int i=0; i<ops; ++i) switch(r.below(4)) {
            case 0: case 1: {
                const int x0=r.below(s.w),y0=r.below(s.h),x1=x0+r.range(1,std::max(1,s.w*2/3)),y1=y0+r.range(1,std::max(1,s.h*2/3));
                const uchar v=(uchar)r.below(s.pal.size());
                for(int y=y0; y<std::min(y1,s.h); ++y) for(int x=x0; x<std::min(x1,s.w); ++x) s.idx(y,x)=v;
                break;
            }
            case 2: {const int n=r.below(6); for(int k=0; k<n; ++k) s.idx((int)r.below(s.h),(int)r.below(s.w))=(uchar)r.below(s.pal.size()); break;}
            default: if(r.chance(0.25)) s.idx = (uchar)r.below(s.pal.size()); break;
        }
    }
    bool binary(const cv::Mat& m) {
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) {const uchar v=m.ptr<uchar>(y)[x]; if(v!=0 && v!=255) return false;}
        return true;
    }
    void checkMask(vh::Case& c, const Cfg& cfg, const cv::Mat& mask, const cv::Mat& frame) {
        c.ck(mask.type()==CV_8UC1 && mask.size()==frame.size(),"mask-shape",cfg.str()," mask ",cg::shape(mask)," for frame ",cg::shape(frame));
        c.ck(binary(mask),"mask-values",cfg.str()," mask holds values other than 0 and 255");
    }
    cv::Mat fillHoles(const cv::Mat& m) { // own implementation: 4-connected background reachable from (0,0)
        cv::Mat r(m.size(),CV_8UC1,cv::Scalar(255));
        std::vector<cv::Point> st;
        if(m.at<uchar>(0,0)) { // the flood then covers the foreground component holding (0,0)
            // flooded with its own value: everything else that is 0 becomes a "hole"
            for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) r.at<uchar>(y,x) = m.at<uchar>(y,x)?0:255;
            return r;
        }
        st.push_back({0,0}); cv::Mat seen(m.size(),CV_8UC1,cv::Scalar(0)); seen.at<uchar>(0,0)=1;
        while(!st.empty()) {
            const cv::Point p=st.back(); st.pop_back(); r.at<uchar>(p)=0;
            const cv::Point d[]={{1,0},{-1,0},{0,1},{0,-1}};
            for(const auto& q : d) {
                const cv::Point n=p+q;
                if(n.x<0||n.y<0||n.x>=m.cols||n.y>=m.rows||seen.at<uchar>(n)||m.at<uchar>(n)) continue;
                seen.at<uchar>(n)=1; st.push_back(n);
            }
        }
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) if(m.at<uchar>(y,x)) r.at<uchar>(y,x)=0;
        return r;
    }
    /// majority filter, borders replicated (what a median does to a binary mask)
    cv::Mat majority(const cv::Mat& m, int k) {
        cv::Mat r(m.size(),CV_8UC1); const int h=k/2;
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) {
            int n=0;
            for(int j=-h; j<=h; ++j) for(int i=-h; i<=h; ++i) n += m.at<uchar>(std::min(std::max(y+j,0),m.rows-1),std::min(std::max(x+i,0),m.cols-1))!=0;
            r.at<uchar>(y,x) = n>k*k/2?255:0;
        }
        return r;
    }
    cv::Mat postproc(Kind k, const cv::Mat& raw) {
        if(k==VIBE) return raw;
        if(k==PBAS || k==LOB) return majority(raw,9);
        cv::Mat pre,out;
        cv::morphologyEx(raw,pre,cv::MORPH_CLOSE,cv::getStructuringElement(cv::MORPH_RECT,cv::Size(3,3)));
        cv::Mat holes = fillHoles(pre);
        cv::erode(pre,pre,cv::Mat(),cv::Point(-1,-1),3);
        out = raw | holes | pre;
        return majority(out,9);
    }
    double cdist(const Col& a, const Col& b) {double s=0; for(int i=0; i<3; ++i) s += ((double)a[i]-b[i])*((double)a[i]-b[i]); return std::sqrt(s);}
    enum {NO=0, YES=1, MAYBE=2};
    /// whether a model value 'b' may / must not match the input 'a' on colour alone, t = 1-based frame number
    int matches(const Cfg& g, const Col& a, const Col& b, int t) {
        const int d0 = std::abs((int)a[0]-(int)b[0]);
        switch(g.k) {
            case VIBE:
                if(g.ch==1) return d0<(int)g.T?YES:NO;
                else {const double d=cdist(a,b); return d<g.T*3.0-1e-2?YES:d>g.T*3.0+1e-2?NO:MAYBE;}
            case PBAS: {
                const double thr = g.T*std::pow(1.05,t-1)+1e-2, d = std::min(255.0,g.ch==1?(double)d0:cdist(a,b));
                return d>thr?NO:MAYBE;
            }
            case LOB:
                if(g.ch==1) return d0>(int)g.T/2?NO:MAYBE;
                else {
                    int tot=0; for(int c=0; c<3; ++c) {const int d=std::abs((int)a[c]-(int)b[c]); if(d>(int)(g.T*3)/2) return NO; tot+=d;}
                    return tot>(int)g.T*3?NO:MAYBE;
                }
            case SUB: {
                double R=1,v=10; for(int i=1; i<t; ++i) {R += 0.01*v; v += 1;}
                R += 1e-3;
                if(g.ch==1) return d0>(int)(R*g.T)/2?NO:MAYBE;
                else {
                    const int ct=(int)(R*g.T); int tot=0;
                    for(int c=0; c<3; ++c) {const int d=std::abs((int)a[c]-(int)b[c]); if(d>ct*3/2) return NO; tot+=d;}
                    return tot>ct*3?NO:MAYBE;
                }
            }
            default: return MAYBE;
        }
    }
}

// every verdict and every reconstructed background value lies within what the observed history allows
SCENARIO("envelope",420,6000) {
    auto& r = c.rng;
    const Kind k = (Kind)r.below(4); // PAWCS draws colours of its own: see the other scenarios
    const int ch = r.chance(0.5)?1:3;
    const Cfg g = randCfg(r,k,ch);
    Scene s; s.ch=ch; const int ms=minSide(k);
    s.w = r.range(ms,r.chance(0.3)?40:24); s.h = r.range(ms,r.chance(0.3)?40:24);
    s.pal = randPal(r,ch,r.range(2,12));
    baseScene(s,r);
    const cv::Mat_<uchar> base = s.idx.clone();
    const double lr = (k==PBAS||k==SUB)?(r.chance(0.5)?-1:r.chance(0.5)?1:r.real(0.5,8)):r.chance(0.4)?1:r.real(0.5,20);
    const int nf = r.range(2,c.thorough()?14:9);
    c.desc(vh::str(g.str()," ",s.w,"x",s.h," lr=",lr," frames=",nf," pal=",s.pal.size()));
    Algo a(g);
    srand((unsigned)r.u32());
    const int bord = a.hasROI()?2:0;
    auto inside = [&](int y, int x){return y>=bord && x>=bord && y<s.h-bord && x<s.w-bord;};
    const cv::Mat init = s.img();
    a.init(init);
    std::vector<std::bitset<16>> S(s.w*s.h);
    for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) {
        if(!inside(y,x)) continue;
        for(int j=-3; j<=3; ++j) for(int i=-3; i<=3; ++i) { // the sampled position is clamped to the usable area
            const int yy=std::min(std::max(y+j,bord),s.h-bord-1), xx=std::min(std::max(x+i,bord),s.w-bord-1);
            S[y*s.w+x].set(s.idx(yy,xx));
        }
    }
    // pixels whose whole neighbourhood has always shown one value (descriptors and gradients included)
    cv::Mat_<uchar> flat(s.h,s.w,(uchar)1);
    auto updFlat = [&](){
        const int rad = 7;
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(flat(y,x)) {
            // LOBSTER's first descriptors close to the image border are computed over zeroed border pixels
            if(k==LOB && (x<7||y<7||x>=s.w-7||y>=s.h-7)) {flat(y,x)=0; continue;}
            for(int j=-rad; j<=rad && flat(y,x); ++j) for(int i=-rad; i<=rad; ++i) {
                const int yy=y+j,xx=x+i; if(yy<0||xx<0||yy>=s.h||xx>=s.w) continue;
                if(s.idx(yy,xx)!=base(y,x)) {flat(y,x)=0; break;}
            }
        }
    };
    updFlat();
    auto bgCheck = [&](const char* when){
        const cv::Mat b = a.bg();
        c.ck(b.type()==init.type() && b.size()==init.size(),"bg-shape",g.str()," background image ",cg::shape(b)," for frames ",cg::shape(init));
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(inside(y,x)) for(int q=0; q<ch; ++q) {
            int lo=255,hi=0; for(size_t i=0; i<s.pal.size(); ++i) if(S[y*s.w+x][i]) {lo=std::min<int>(lo,s.pal[i][q]); hi=std::max<int>(hi,s.pal[i][q]);}
            const int v = b.ptr<uchar>(y)[x*ch+q];
            c.ck(v>=lo-1 && v<=hi+1,"bg-range",g.str()," ",when,": background value ",v," at ",x,",",y," outside what was seen there [",lo,",",hi,"]");
        }
    };
    bgCheck("after initialization");
    size_t nYes=0,nNo=0;
    for(int t=1; t<=nf; ++t) {
        mutate(s,base,r);
        const cv::Mat f = s.img(), fc = f.clone(); cv::Mat mask;
        a.apply(f,mask,lr);
        checkMask(c,g,mask,f);
        c.ck(cg::sameBits(f,fc),"input-modified",g.str()," frame ",t," modified by apply");
        cv::Mat low(s.h,s.w,CV_8UC1,cv::Scalar(0)), high(s.h,s.w,CV_8UC1,cv::Scalar(0));
        cv::Mat_<uchar> f2 = flat.clone(); updFlat();
        // pixels are judged one after the other and background pixels update their neighbours' models as they go:
        // values of this frame may already be there (fixed point over the pixels that may be background)
        std::vector<std::bitset<16>> Sn; std::vector<int> seeded;
        auto judge = [&](bool& changed){
            changed=false;
            for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) {
                if(!inside(y,x)) continue;
                bool any=false, all=true;
                const auto& sp = Sn[y*s.w+x];
                for(size_t i=0; i<s.pal.size(); ++i) if(sp[i]) {
                    const int m = matches(g,s.pal[s.idx(y,x)],s.pal[i],t);
                    if(m!=NO) any=true;
                    if(m!=YES) all=false;
                }
                if(k==PBAS && seeded[y*s.w+x]>=(int)g.R) any=true;
                const uchar l = any?0:255;
                if(l!=low.at<uchar>(y,x)) {low.at<uchar>(y,x)=l; changed=true;}
                high.at<uchar>(y,x) = all || flat(y,x)?0:255;
            }
        };
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(inside(y,x)) low.at<uchar>(y,x)=255;
        for(bool changed=true; changed; ) {
            Sn=S; seeded.assign(s.w*s.h,0);
            for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(inside(y,x)) {
                if(k==VIBE?mask.at<uchar>(y,x)!=0:low.at<uchar>(y,x)!=0) continue;
                const int rad = k==SUB?2:1;
                for(int j=-rad; j<=rad; ++j) for(int i=-rad; i<=rad; ++i) {
                    const int yy=std::min(std::max(y+j,bord),s.h-bord-1), xx=std::min(std::max(x+i,bord),s.w-bord-1);
                    if(yy==y && xx==x) continue;
                    if(k==PBAS) ++seeded[yy*s.w+xx]; else Sn[yy*s.w+xx].set(s.idx(y,x));
                }
            }
            judge(changed);
        }
        const cv::Mat lo = postproc(k,low), hi = postproc(k,high);
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) {
            const bool fg = mask.at<uchar>(y,x)!=0;
            if(lo.at<uchar>(y,x)) ++nYes;
            if(!hi.at<uchar>(y,x)) ++nNo;
            c.ck(fg || !lo.at<uchar>(y,x),"missed-fg",g.str()," frame ",t,": pixel ",x,",",y," shows a value no model sample can match, but is background");
            c.ck(!fg || hi.at<uchar>(y,x),"false-fg",g.str()," frame ",t,": pixel ",x,",",y," can only be matched by the model, but is foreground");
        }
        // what the model may have taken from this frame
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(inside(y,x)) {
            const bool mayBG = k==VIBE?!mask.at<uchar>(y,x):!low.at<uchar>(y,x);
            if(k==PBAS) {S[y*s.w+x].set(s.idx(y,x)); continue;} // neighbours absorb their own value
            if(!mayBG) continue;
            const int rad = k==SUB?2:1;
            for(int j=-rad; j<=rad; ++j) for(int i=-rad; i<=rad; ++i) {
                const int yy=std::min(std::max(y+j,bord),s.h-bord-1), xx=std::min(std::max(x+i,bord),s.w-bord-1);
                S[yy*s.w+xx].set(s.idx(y,x));
            }
        }
        if(t==nf || r.chance(0.3)) bgCheck("after a frame");
    }
    if(nYes && nNo) c.nontrivial(vh::mix(vh::mix(nYes,nNo),vh::mix((uint64_t)k*2+(ch==3),g.T)));
    c.stat(vh::str("envelope.",kname[k],".must_fg"),nYes); c.stat(vh::str("envelope.",kname[k],".must_bg"),nNo);
}

namespace {
    const int LX[16]={-2,2,0,0,-2,2,2,-2,0,-1,0,1,-1,1,1,-1}, LY[16]={0,0,-2,2,2,-2,2,-2,1,0,-1,0,-1,1,-1,1};
    /// relative threshold of the local binary similarity patterns (see BackgroundSubtractorLBSP.hpp: documented defaults)
    int lbspThr(int ch, int ref) {
        const float f = (float)ref*BGSLBSP_DEFAULT_LBSP_REL_SIMILARITY_THRESHOLD+BGSLBSP_DEFAULT_LBSP_OFFSET_SIMILARITY_THRESHOLD;
        return std::min(255,(int)std::lrint(ch==1?f/3:f));
    }
    ushort lbspDesc(const cv::Mat& im, int x, int y, int q, int ref) {
        ushort d=0; const int ch=im.channels(), thr=lbspThr(ch,ref);
        for(int n=0; n<16; ++n) if(std::abs((int)im.ptr<uchar>(y+LY[n])[(x+LX[n])*ch+q]-ref)>thr) d=(ushort)(d|(1u<<n));
        return d;
    }
    /// verdict on one pixel of a frame by a model whose every sample is the colour u of a flat patch
    int flatVerdict(const Cfg& g, const cv::Mat& f, const cv::Mat& grad, int x, int y, const Col& u) {
        const int ch=g.ch; const uchar* p=f.ptr<uchar>(y)+x*ch; Col v; for(int q=0; q<3; ++q) v[q]=p[ch==1?0:q];
        auto pop = [](ushort d){return (size_t)__builtin_popcount(d);};
        switch(g.k) {
            case VIBE: return matches(g,v,u,1);
            case PBAS: {
                double gd=0; for(int q=0; q<ch; ++q) {const double e=grad.ptr<uchar>(y)[x*ch+q]; gd+=e*e;}
                const double d = std::min(255.0,10.0/20*std::sqrt(gd)+(ch==1?std::abs((double)v[0]-u[0]):cdist(v,u)));
                return d<g.T-1e-2||(ch==1&&d<=(double)g.T)?YES:d>g.T+1e-2||ch==1?NO:MAYBE;
            }
            case LOB: {
                size_t tc=0,td=0;
                for(int q=0; q<ch; ++q) {
                    const size_t cd=(size_t)std::abs((int)v[q]-(int)u[q]), dd=pop(lbspDesc(f,x,y,q,u[q]));
                    if(ch==1) return cd<=g.T/2&&dd<=g.D?YES:NO;
                    if(cd>g.T*3/2||dd>g.D*3/2) return NO;
                    tc+=cd; td+=dd;
                }
                return tc<=g.T*3&&td<=g.D*3?YES:NO;
            }
            case SUB: {
                const size_t T=g.T-g.T/5, D=2+g.D; size_t tc=0,td=0;
                for(int q=0; q<ch; ++q) {
                    const size_t cd=(size_t)std::abs((int)v[q]-(int)u[q]);
                    const size_t dd=(pop(lbspDesc(f,x,y,q,u[q]))+pop(lbspDesc(f,x,y,q,v[q])))/2;
                    const size_t sd=std::min<size_t>(255,(ch==1?dd/4:dd/2)*15+cd);
                    if(ch==1) return cd<=T/2&&dd<=D&&sd<=T/2?YES:NO;
                    if(cd>T*3/2||sd>T*3/2) return NO;
                    tc+=sd; td+=dd;
                }
                return tc<=T*3&&td<=D*3?YES:NO;
            }
            default: return MAYBE;
        }
    }
}
// a model built on a uniform image and never updated: the verdict of every pixel follows from the thresholds
SCENARIO("exact",400,6000) {
    auto& r = c.rng;
    const Kind k = (Kind)r.below(4); const int ch = r.chance(0.5)?1:3;
    Cfg g = randCfg(r,k,ch,0.3); if(r.chance(0.5)) {g.T=(size_t)r.range(10,60); g.D=(size_t)r.range(0,8); g.defaults=false;}
    const int W=r.range(15,30), H=r.range(15,30); Col u; for(int q=0; q<3; ++q) u[q]=(uchar)r.below(256); if(ch==1) u[1]=u[2]=u[0];
    cv::Mat img(H,W,CV_8UC(ch)); for(int y=0; y<H; ++y) for(int x=0; x<W; ++x) for(int q=0; q<ch; ++q) img.ptr<uchar>(y)[x*ch+q]=u[q];
    c.desc(vh::str(g.str()," ",W,"x",H," uniform ",(int)u[0],",",(int)u[1],",",(int)u[2]));
    Algo a(g); srand((unsigned)r.u32()); a.init(img);
    const int nf = k==PBAS||k==SUB?1:r.range(1,3);
    const double lr = k==LOB||k==SUB?std::numeric_limits<double>::infinity():1099511627776.0;
    size_t nfg=0,nbg=0;
    for(int t=0; t<nf; ++t) {
        cv::Mat f = img.clone();
        // blocks around the thresholds, plus isolated pixels and stripes that only change the descriptors
        const int nb=r.range(1,4); 
        for(int b=0; b<nb; ++b) {
            const int bw=r.range(1,W), bh=r.range(1,H), x0=(int)r.below(W), y0=(int)r.below(H), mode=(int)r.below(4); int d[3];
            const int scale = k==LOB||k==SUB?(int)g.T*(ch==1?1:3)/2:(int)g.T*(k==VIBE&&ch==3?3:1);
            for(int q=0; q<3; ++q) d[q] = r.chance(0.2)?0:(r.chance(0.5)?1:-1)*(r.chance(0.5)?scale+r.range(-2,2):(int)r.below(scale+20));
            if((k==LOB||k==SUB) && r.chance(0.35)) { // values between the descriptor thresholds of both colours: it matters which of them a descriptor is relative to
                for(int q=0; q<3; ++q) d[q]=0;
                const int q=(int)r.below(ch); std::vector<int> o; for(int e=-255; e<=255; ++e) {const int v=(int)u[q]+e; if(v>=0 && v<=255 && (std::abs(e)>lbspThr(ch,u[q]))!=(std::abs(e)>lbspThr(ch,v))) o.push_back(e);}
                if(!o.empty()) d[q]=o[r.below(o.size())];
            }
            for(int y=y0; y<std::min(H,y0+bh); ++y) for(int x=x0; x<std::min(W,x0+bw); ++x) {
                if(mode==1 && ((x+y)&1)) continue; 
                if(mode==2 && (x%3)) continue;
                if(mode==3 && !r.chance(0.4)) continue;
                for(int q=0; q<ch; ++q) f.ptr<uchar>(y)[x*ch+q] = cv::saturate_cast<uchar>((int)u[q]+d[q]);
            }
        }
        cv::Mat gr;
        if(k==PBAS) {
            cv::Mat b,gx,gy,ax,ay; cv::GaussianBlur(f,b,cv::Size(3,3),0,0); cv::Scharr(b,gx,CV_16S,1,0); cv::Scharr(b,gy,CV_16S,0,1);
            cv::convertScaleAbs(gx,ax); cv::convertScaleAbs(gy,ay); cv::addWeighted(ax,0.5,ay,0.5,0,gr);
        }
        cv::Mat m; a.apply(f,m,lr); checkMask(c,g,m,f);
        const int bord = a.hasROI()?2:0;
        cv::Mat low(H,W,CV_8UC1,cv::Scalar(0)), high(H,W,CV_8UC1,cv::Scalar(0));
        for(int y=bord; y<H-bord; ++y) for(int x=bord; x<W-bord; ++x) {
            const int v = flatVerdict(g,f,gr,x,y,u);
            // initial descriptors next to the border were computed over the zeroed border
            const bool unsure = k==LOB && (x<7||y<7||x>=W-7||y>=H-7);
            if(v==NO) ++nfg; else if(v==YES) ++nbg;
            const bool colOnly = unsure && v==NO; // may only be certain on colour
            low.at<uchar>(y,x) = unsure?(colOnly&&matches(g,{{f.ptr<uchar>(y)[x*ch],f.ptr<uchar>(y)[x*ch+(ch==3)],f.ptr<uchar>(y)[x*ch+(ch==3)*2]}},u,1)==NO?255:0):v==NO?255:0;
            high.at<uchar>(y,x) = unsure?255:v==YES?0:255;
        }
        const cv::Mat lo=postproc(k,low), hi=postproc(k,high);
        for(int y=0; y<H; ++y) for(int x=0; x<W; ++x) {
            const bool fg = m.at<uchar>(y,x)!=0;
            c.ck(fg || !lo.at<uchar>(y,x),"exact-missed",g.str()," frame ",t,": pixel ",x,",",y," is beyond the thresholds of every model sample, but is background");
            c.ck(!fg || hi.at<uchar>(y,x),"exact-false",g.str()," frame ",t,": pixel ",x,",",y," is within the thresholds of every model sample, but is foreground");
        }
    }
    if(nfg && nbg) c.nontrivial(vh::mix(vh::mix(nfg,nbg),vh::mix((uint64_t)k*2+(ch==3),g.T)));
    c.stat(vh::str("exact.",kname[k],ch,".beyond"),nfg); c.stat(vh::str("exact.",kname[k],ch,".within"),nbg);
}

// with a single sample per pixel, colour and descriptor of the model always stem from one same place of one same frame
SCENARIO("pairs",200,3000) {
    auto& r = c.rng;
    const Kind k = r.chance(0.6)?LOB:SUB; const int ch = r.chance(0.5)?1:3;
    Cfg g = defCfg(k,ch); g.defaults=false; g.N=1; g.R=1; g.T=(size_t)r.range(20,80); g.D=(size_t)r.range(2,16);
    const int W=r.range(19,26), H=r.range(19,26); const int step=r.range(2,60);
    auto noise = [&](){cv::Mat m(H,W,CV_8UC(ch)); const int b=(int)r.below(200); for(int y=0; y<H; ++y) for(int x=0; x<W*ch; ++x) m.ptr<uchar>(y)[x]=cv::saturate_cast<uchar>(b+(int)r.below(step)); return m;};
    c.desc(vh::str(g.str()," ",W,"x",H," spread ",step));
    Algo a(g); srand((unsigned)r.u32());
    struct Px {std::array<uchar,3> c; std::array<ushort,3> d; bool operator==(const Px& o) const {return c==o.c&&d==o.d;}};
    auto at = [&](const cv::Mat& f, int x, int y){Px p{{{0,0,0}},{{0,0,0}}}; for(int q=0; q<ch; ++q) {p.c[q]=f.ptr<uchar>(y)[x*ch+q]; p.d[q]=lbspDesc(f,x,y,q,p.c[q]);} return p;};
    auto model = [&](std::vector<Px>& out){
        const cv::Mat b=a.bg(); cv::Mat d; dynamic_cast<IBackgroundSubtractorLBSP&>(*a.p).getBackgroundDescriptorsImage(d);
        c.ck(b.size()==cv::Size(W,H)&&b.type()==CV_8UC(ch)&&d.size()==cv::Size(W,H)&&d.type()==CV_16UC(ch),"model-shape",g.str()," background ",cg::shape(b)," descriptors ",cg::shape(d));
        out.assign(W*H,Px{{{0,0,0}},{{0,0,0}}});
        for(int y=0; y<H; ++y) for(int x=0; x<W; ++x) for(int q=0; q<ch; ++q) {out[y*W+x].c[q]=b.ptr<uchar>(y)[x*ch+q]; out[y*W+x].d[q]=d.ptr<ushort>(y)[x*ch+q];}
    };
    const int far=8; // everything sampled from here lies clear of the (zeroed) border
    auto fromAround = [&](const cv::Mat& f, const cv::Mat& ok, int x, int y, const Px& p, int rad){
        for(int j=-rad; j<=rad; ++j) for(int i=-rad; i<=rad; ++i) if((ok.empty()||!ok.at<uchar>(y+j,x+i)) && at(f,x+i,y+j)==p) return true;
        return false;
    };
    cv::Mat f = noise(); std::vector<Px> cur,nxt; a.init(f); model(cur);
    for(int y=far; y<H-far; ++y) for(int x=far; x<W-far; ++x)
        c.ck(fromAround(f,cv::Mat(),x,y,cur[y*W+x],3),"pair-init",g.str()," model of ",x,",",y," after initialization is no sample of its neighbourhood");
    const int nf = k==SUB?1:r.range(1,4); size_t changed=0,kept=0;
    for(int t=0; t<nf; ++t) {
        cv::Mat n; if(r.chance(0.7)) {n=f.clone(); const int e=r.range(0,(int)g.T); for(int y=0; y<H; ++y) for(int x=0; x<W*ch; ++x) if(r.chance(0.3)) n.ptr<uchar>(y)[x]=cv::saturate_cast<uchar>((int)n.ptr<uchar>(y)[x]+r.range(-e,e));} else n=noise();
        if(r.chance(0.5)) n(cv::Rect(4,4,W/2,H-8)) = cv::Scalar::all((int)r.below(256));
        cv::Mat m; a.apply(n,m,1); checkMask(c,g,m,n); model(nxt);
        for(int y=far; y<H-far; ++y) for(int x=far; x<W-far; ++x) {
            if(nxt[y*W+x]==cur[y*W+x]) {++kept; continue;}
            ++changed;
            c.ck(fromAround(n,cv::Mat(),x,y,nxt[y*W+x],k==SUB?2:1),"pair-update",g.str()," frame ",t,": model of ",x,",",y," is neither what it was nor a sample of the frame around it");
        }
        std::swap(cur,nxt); f=n;
        if(r.chance(0.5)) {
            const bool force=r.chance(0.5);
            if(k==LOB) dynamic_cast<BackgroundSubtractorLOBSTER&>(*a.p).refreshModel(1.f,force); else dynamic_cast<BackgroundSubtractorSuBSENSE&>(*a.p).refreshModel(1.f,force);
            model(nxt);
            for(int y=far; y<H-far; ++y) for(int x=far; x<W-far; ++x) {
                const bool same = nxt[y*W+x]==cur[y*W+x];
                if(!force && m.at<uchar>(y,x)) c.ck(same,"refresh-fg",g.str()," refreshing the background changed the model of the foreground pixel ",x,",",y);
                else {
                    const bool from = fromAround(f,force?cv::Mat():m,x,y,nxt[y*W+x],3);
                    c.ck(from||(!force&&same),"refresh-sample",g.str()," refreshed model of ",x,",",y," is no ",force?"":"background ","sample of the last frame around it");
                    if(!same) ++changed;
                }
            }
            std::swap(cur,nxt);
        }
    }
    if(changed && kept) c.nontrivial(vh::mix(changed,kept)); c.stat("pairs.changed",changed); c.stat("pairs.kept",kept);
}

// gray frames given to the colour variants are colour frames with equal channels
SCENARIO("gray-in-colour",40,400) {
    auto& r = c.rng; const Kind k = r.chance(0.5)?VIBE:PBAS; const Cfg g = randCfg(r,k,3);
    Scene s; s.ch=1; s.w=r.range(3,24); s.h=r.range(3,24); s.pal=randPal(r,1,r.range(3,12)); baseScene(s,r); const cv::Mat_<uchar> base=s.idx.clone();
    c.desc(vh::str(g.str()," gray ",s.w,"x",s.h));
    std::vector<cv::Mat> fr; const int nf=r.range(1,6); fr.push_back(s.img()); for(int i=0; i<nf; ++i) {mutate(s,base,r); fr.push_back(s.img());}
    const unsigned seed=(unsigned)r.u32(), mix=r.u32(); size_t fg=0;
    auto run = [&](bool gray){
        Algo a(g); srand(seed); std::vector<std::vector<uchar>> out;
        for(size_t i=0; i<fr.size(); ++i) {
            cv::Mat f=fr[i].clone(), m; if(!(gray && ((mix>>i)&1))) {cv::Mat b(s.h,s.w,CV_8UC3); for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) b.at<cv::Vec3b>(y,x)=cv::Vec3b::all(f.at<uchar>(y,x)); f=b;}
            if(!i) a.init(f); else {a.apply(f,m); checkMask(c,g,m,f); out.push_back(cg::bytes(m)); fg+=cv::countNonZero(m);}
            out.push_back(cg::bytes(a.bg()));
        }
        return out;
    };
    const auto o1=run(true), o2=run(false);
    for(size_t i=0; i<o1.size(); ++i) c.ck(o1[i]==o2[i],"gray-differs",g.str()," output #",i," differs between gray frames and colour frames of the same values");
    if(fg) c.nontrivial(vh::mix(fg,seed));
}

// a still, uniform scene is background; a new large object is foreground at once; the scene is background again when it leaves
SCENARIO("steady",120,1500) {
    auto& r = c.rng;
    const Kind k = pickKind(r); const int ch = r.chance(0.5)?1:3;
    const Cfg g = defCfg(k,ch);
    Scene s; s.ch=ch; s.w=r.range(30,44); s.h=r.range(30,44);
    Col bgc,fgc; for(int q=0; q<3; ++q) {bgc[q]=(uchar)r.range(30,110); fgc[q]=(uchar)(bgc[q]+r.range(130,140));}
    if(r.chance(0.5)) std::swap(bgc,fgc);
    if(ch==1) {bgc[1]=bgc[2]=bgc[0]; fgc[1]=fgc[2]=fgc[0];}
    s.pal={bgc,fgc}; s.idx.create(s.h,s.w); s.idx=(uchar)0;
    const int warm = r.range(1,c.thorough()?60:20), stay = r.range(1,4), bx=r.range(13,16), by=r.range(13,16), x0=r.range(4,s.w-bx-4), y0=r.range(4,s.h-by-4);
    c.desc(vh::str(g.str()," ",s.w,"x",s.h," bg=",(int)bgc[0]," fg=",(int)fgc[0]," warm=",warm," stay=",stay," box ",x0,",",y0,"+",bx,"x",by));
    Algo a(g); srand((unsigned)r.u32());
    a.init(s.img());
    cv::Mat m;
    const int tol = k==PAW?48:0;
    auto bgIs = [&](const char* when){
        const cv::Mat b = a.bg(); const int brd = k==PAW?2:a.hasROI()?2:0;
        for(int y=brd; y<s.h-brd; ++y) for(int x=brd; x<s.w-brd; ++x) for(int q=0; q<ch; ++q)
            c.ck(std::abs((int)b.ptr<uchar>(y)[x*ch+q]-(int)bgc[q])<=tol,"bg-constant",g.str()," ",when,": background ",(int)b.ptr<uchar>(y)[x*ch+q]," instead of ",(int)bgc[q]," at ",x,",",y);
    };
    bgIs("after initialization");
    const cv::Mat f0 = s.img();
    for(int i=0; i<warm; ++i) {a.apply(f0,m); checkMask(c,g,m,f0); c.ck(cv::countNonZero(m)==0,"steady-fg",g.str()," frame ",i,": ",cv::countNonZero(m)," foreground pixels in a still uniform scene");}
    bgIs("after a still scene");
    for(int y=y0; y<y0+by; ++y) for(int x=x0; x<x0+bx; ++x) s.idx(y,x)=1;
    const cv::Mat f1 = s.img();
    for(int i=0; i<stay; ++i) {
        a.apply(f1,m); checkMask(c,g,m,f1);
        for(int y=y0+4; y<y0+by-4; ++y) for(int x=x0+4; x<x0+bx-4; ++x)
            c.ck(m.at<uchar>(y,x)!=0,"object-missed",g.str()," pixel ",x,",",y," inside a new object is background ",i," frames after it came");
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(x<x0-8||y<y0-8||x>=x0+bx+8||y>=y0+by+8)
            c.ck(m.at<uchar>(y,x)==0,"object-spill",g.str()," pixel ",x,",",y," far from the object is foreground");
    }
    for(int i=0; i<3; ++i) {
        a.apply(f0,m); checkMask(c,g,m,f0);
        for(int y=y0+3; y<y0+by-3; ++y) for(int x=x0+3; x<x0+bx-3; ++x)
            c.ck(m.at<uchar>(y,x)==0,"ghost",g.str()," pixel ",x,",",y," is foreground after the object left");
    }
    c.nontrivial(vh::str(k,ch,warm,stay,x0,y0)); c.stat(vh::str("steady.",kname[k],ch),1);
}

// with a learning rate too slow to ever update, the model never changes
SCENARIO("frozen",60,600) {
    auto& r = c.rng;
    const Kind k = (Kind)r.below(3); const int ch = r.chance(0.5)?1:3;
    const Cfg g = randCfg(r,k,ch);
    Scene s; s.ch=ch; s.w=r.range(8,30); s.h=r.range(8,30); s.pal=randPal(r,ch,r.range(3,12));
    baseScene(s,r); const cv::Mat_<uchar> base = s.idx.clone();
    c.desc(vh::str(g.str()," ",s.w,"x",s.h));
    Algo a(g); srand((unsigned)r.u32()); a.init(s.img());
    const double lr = k==LOB&&r.chance(0.5)?std::numeric_limits<double>::infinity():1099511627776.0;
    const cv::Mat b0 = a.bg(); std::vector<std::pair<cv::Mat,cv::Mat>> seen; cv::Mat m; size_t fg=0;
    for(int i=0; i<12; ++i) {
        if(seen.size()>2 && r.chance(0.5)) {
            const auto& p = seen[r.below(seen.size())];
            a.apply(p.first,m,lr);
            c.ck(k==PBAS || cg::sameBits(m,p.second),"frozen-verdict",g.str()," the same frame gets another mask although learning is off");
        }
        else {
            mutate(s,base,r); const cv::Mat f = s.img(); a.apply(f,m,lr); checkMask(c,g,m,f);
            seen.emplace_back(f,m.clone()); fg += cv::countNonZero(m);
        }
        c.ck(cg::sameBits(a.bg(),b0),"frozen-model",g.str()," background image changed although learning is off (frame ",i,")");
    }
    if(fg) c.nontrivial(vh::mix(fg,(uint64_t)k)); c.stat("frozen.fg_px",fg);
}

// with the fastest learning rate the model takes over a new background completely
SCENARIO("adapt",24,160) {
    auto& r = c.rng;
    const Kind k = (Kind)r.below(4); const int ch = r.chance(0.5)?1:3;
    const Cfg g = defCfg(k,ch);
    Scene s; s.ch=ch; s.w=r.range(10,13); s.h=r.range(10,13);
    Col b,n; const int dl = r.chance(0.5)?r.range(2,3):-r.range(2,3);
    for(int q=0; q<3; ++q) {b[q]=(uchar)r.range(120,200); n[q]=(uchar)(b[q]+dl);}
    if(ch==1) {b[1]=b[2]=b[0]; n[1]=n[2]=n[0];}
    s.pal={b,n}; s.idx.create(s.h,s.w); s.idx=(uchar)0;
    c.desc(vh::str(g.str()," ",s.w,"x",s.h," ",(int)b[0],"->",(int)n[0]));
    Algo a(g); srand((unsigned)r.u32()); a.init(s.img());
    s.idx=(uchar)1; const cv::Mat f = s.img(); cv::Mat m;
    const int nf = (int)std::ceil(std::log(1e-13)/std::log(1.0-1.0/g.N));
    for(int i=0; i<nf; ++i) {a.apply(f,m,r.chance(0.5)?1:0.5); c.ck(cv::countNonZero(m)==0,"adapt-fg",g.str()," slight change marked as foreground (frame ",i,")");}
    const cv::Mat bg = a.bg(); const int brd = k==LOB?4:a.hasROI()?2:0;
    for(int y=brd; y<s.h-brd; ++y) for(int x=brd; x<s.w-brd; ++x) for(int q=0; q<ch; ++q)
        c.ck(bg.ptr<uchar>(y)[x*ch+q]==n[q],"adapt-bg",g.str()," background is ",(int)bg.ptr<uchar>(y)[x*ch+q]," and not ",(int)n[q]," after ",nf," frames of it");
    c.nontrivial(vh::str(k,ch,dl)); c.stat("adapt.frames",nf);
}

// an object initialized again behaves as a new one
SCENARIO("reinit",90,1200) {
    auto& r = c.rng;
    const Kind k = pickKind(r);
    const int ch = r.chance(0.5)?1:3;
    const Cfg g = randCfg(r,k,ch);
    auto mk_ = [&](int chn){Scene s; s.ch=chn; const int lo=std::max(12,minSide(k)); s.w=r.range(lo,28); s.h=r.range(lo,28); s.pal=randPal(r,chn,r.range(3,12)); baseScene(s,r); return s;};
    auto roiOf = [&](const Scene& s){cv::Mat q(s.h,s.w,CV_8UC1,cv::Scalar(r.chance(0.5)?255:0)); if(!q.at<uchar>(0,0)) q(cv::Rect(r.range(2,4),r.range(2,4),r.range(4,6),r.range(4,6)))=255; return q;};
    Algo used(g);
    srand((unsigned)r.u32());
    const bool sameSize = r.chance(0.6); // the common case: buffers of the former sequence could be kept as they are
    const int fw=r.range(std::max(12,minSide(k)),28), fh=r.range(std::max(12,minSide(k)),28);
    const bool turn = r.chance(0.3); // same pixel count, other shape
    auto mk = [&](int chn){Scene s=mk_(chn); if(sameSize) {s.w=fw; s.h=fh; if(turn && r.chance(0.5)) std::swap(s.w,s.h); baseScene(s,r);} return s;};
    const int rounds = r.range(1,3); cv::Mat m,m2; std::string d;
    for(int q=0; q<rounds; ++q) {
        Scene s = mk((used.hasROI()?(r.chance(0.5)?1:3):ch));
        const cv::Mat_<uchar> base=s.idx.clone();
        used.init(s.img(),r.chance(0.5)&&used.hasROI()?roiOf(s):cv::Mat());
        const int nf=r.chance(0.3)?r.range(20,60):r.range(0,6);
        for(int i=0; i<nf; ++i) {mutate(s,base,r); used.apply(s.img(),m);}
        if(used.hasROI() && r.chance(0.3)) used.refresh(r);
        d += vh::str(" [",s.w,"x",s.h,"x",s.ch," ",nf,"]");
    }
    Scene s = mk(ch); const cv::Mat_<uchar> base=s.idx.clone(); const cv::Mat img=s.img();
    const bool keep = used.hasROI() && used.ii->getROICopy().size()==cv::Size(s.w,s.h); // the region of the former sequence would be kept: name one
    const cv::Mat roi = used.hasROI()&&(keep||r.chance(0.6))?roiOf(s):cv::Mat();
    c.desc(vh::str(g.str()," history",d," then ",s.w,"x",s.h,"x",s.ch));
    const unsigned seed = (unsigned)r.u32();
    std::vector<cv::Mat> fr; const int nf=r.chance(0.3)?r.range(8,40):r.range(2,8); for(int i=0; i<nf; ++i) {mutate(s,base,r); fr.push_back(s.img());}
    auto run = [&](Algo& a){
        std::vector<std::vector<uchar>> out;
        srand(seed); a.init(img,roi); out.push_back(cg::bytes(a.bg()));
        for(auto& f : fr) {cv::Mat mm; a.apply(f,mm); out.push_back(cg::bytes(mm)); out.push_back(cg::bytes(a.bg()));}
        if(a.ii) {out.push_back(cg::bytes(a.ii->getROICopy())); cv::Mat dd; dynamic_cast<IBackgroundSubtractorLBSP&>(*a.p).getBackgroundDescriptorsImage(dd); out.push_back(cg::bytes(dd));}
        return out;
    };
    Algo fresh(g);
    const auto o1=run(used), o2=run(fresh);
    for(size_t i=0; i<o1.size(); ++i) c.ck(o1[i]==o2[i],"reinit-differs",g.str()," output #",i," of a re-initialized object differs from a new object's");
    c.nontrivial(g.str()+d); c.stat(vh::str("reinit.",kname[k]),1);
}

// the same with frames large enough for the frame-level analysis (scene changes), which small ones never trigger
SCENARIO("reinit-large",4,40) {
    auto& r = c.rng; const Kind k = c.idx%2?PAW:SUB; const int ch = r.chance(0.5)?1:3; Cfg g=defCfg(k,ch); g.defaults=false; g.M=(size_t)r.range(12,20); if(k==SUB) g.N=(size_t)r.range(4,10); const int W=320+(int)r.below(8),H=240+(int)r.below(8); const int nh=r.range(6,9),nf=r.range(3,6),jump=nh-r.range(1,4);
    c.desc(vh::str(g.str()," ",W,"x",H," history of ",nh," frames, then ",nf));
    auto frame = [&](int base, int obj){cv::Mat f(H,W,CV_8UC(ch),cv::Scalar::all(base)); for(int i=0; i<12; ++i) f(cv::Rect((int)r.below(W-40),(int)r.below(H-40),r.range(4,40),r.range(4,40)))=cv::Scalar(obj+(double)r.below(20),obj+(double)r.below(20),obj); return f;};
    Algo used(g),fresh(g); cv::Mat m; srand(3); used.init(frame(40,90)); for(int i=0; i<nh; ++i) used.apply(frame(i>=jump?230:30,120),m); // a sudden change of scene, shortly before the new start
    const cv::Mat img=frame(100,140); std::vector<cv::Mat> fr; for(int i=0; i<nf; ++i) fr.push_back(frame(i?112:100,180)); const unsigned seed=(unsigned)r.u32(); std::vector<std::vector<uchar>> o[2]; int w=0;
    for(Algo* a : {&used,&fresh}) {srand(seed); a->init(img); for(auto& f : fr) {cv::Mat mm; a->apply(f,mm); checkMask(c,g,mm,f); o[w].push_back(cg::bytes(mm)); o[w].push_back(cg::bytes(a->bg()));} o[w].push_back({(uchar)rand(),(uchar)rand()}); ++w;}
    for(size_t i=0; i<o[0].size(); ++i) c.ck(o[0][i]==o[1][i],"reinit-differs",g.str()," output #",i," of a re-initialized object differs from a new object's");
    c.nontrivial(c.desc_); c.stat(vh::str("reinit_large.",kname[k]),1);
}

// nothing is ever reported away from the region of interest, and objects inside it are still found
SCENARIO("roi",80,1000) {
    auto& r = c.rng;
    const Kind k = (Kind)(LOB+r.below(3)); const int ch = r.chance(0.5)?1:3;
    const Cfg g = defCfg(k,ch);
    Scene s; s.ch=ch; s.w=r.range(40,60); s.h=r.range(40,60);
    Col bgc,fgc; for(int q=0; q<3; ++q) {bgc[q]=(uchar)r.range(60,110); fgc[q]=(uchar)(bgc[q]+140);}
    if(ch==1) {bgc[1]=bgc[2]=bgc[0]; fgc[1]=fgc[2]=fgc[0];}
    s.pal={bgc,fgc}; const auto more=randPal(r,ch,6); s.pal.insert(s.pal.end(),more.begin(),more.end());
    s.idx.create(s.h,s.w); s.idx=(uchar)0;
    const int rw=r.range(22,28),rh=r.range(22,28); cv::Rect R(r.range(0,s.w-rw),r.range(0,s.h-rh),rw,rh);
    cv::Mat roi(s.h,s.w,CV_8UC1,cv::Scalar(0)); roi(R)=255;
    Algo a(g); srand((unsigned)r.u32());
    const int how = r.below(3);
    c.desc(vh::str(g.str()," ",s.w,"x",s.h," roi ",R.x,",",R.y,"+",R.width,"x",R.height," how=",how));
    cv::Mat roiIn = roi.clone();
    if(how==0) a.init(s.img(),roi);
    else if(how==1) {a.ii->setROI(roiIn); if(r.chance(0.5)) roiIn=cv::Scalar(0); a.init(s.img());} // what the caller does to its own matrix later on does not matter
    else {a.init(s.img()); cv::Mat m; for(int i=r.range(0,4); i>0; --i) a.apply(s.img(),m); a.ii->setROI(roiIn); if(r.chance(0.5)) roiIn=cv::Scalar(0);}
    {cv::Mat mine=a.ii->getROICopy(); const cv::Mat was=mine.clone(); mine=cv::Scalar(r.chance(0.5)?0:255); c.ck(cg::sameBits(a.ii->getROICopy(),was),"roi-shared",g.str()," writing to a copy of the ROI changed the ROI");}
    const cv::Mat got = a.ii->getROICopy();
    c.ck(got.type()==CV_8UC1 && got.size()==roi.size(),"roi-shape",g.str()," ROI copy ",cg::shape(got));
    for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) {
        const bool border = x<2||y<2||x>=s.w-2||y>=s.h-2;
        const bool inR = R.contains({x,y});
        const bool near = x>=R.x-2&&y>=R.y-2&&x<R.x+R.width+2&&y<R.y+R.height+2;
        const uchar v = got.at<uchar>(y,x);
        if(border) c.ck(v==0,"roi-border",g.str()," ROI holds image border pixel ",x,",",y);
        else if(inR) c.ck(v==255,"roi-lost",g.str()," ROI lost pixel ",x,",",y);
        else if(!near) c.ck(v==0,"roi-grown",g.str()," ROI gained pixel ",x,",",y," far from the requested region");
    }
    const cv::Mat_<uchar> base=s.idx.clone(); cv::Mat m; size_t far=0;
    // a uniform scene keeps the inside empty, an object in the middle of the region shows up, whatever happens outside
    for(int i=0; i<6; ++i) {
        base.copyTo(s.idx);
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) if(x<R.x-6||y<R.y-6||x>=R.x+R.width+6||y>=R.y+R.height+6) s.idx(y,x)=(uchar)r.below(s.pal.size());
        const bool obj = i>=2;
        const cv::Rect O(R.x+5,R.y+5,R.width-10,R.height-10);
        if(obj) s.idx(O)=(uchar)1;
        const cv::Mat f=s.img(); a.apply(f,m); checkMask(c,g,m,f);
        for(int y=0; y<s.h; ++y) for(int x=0; x<s.w; ++x) {
            if(x<R.x-12||y<R.y-12||x>=R.x+R.width+12||y>=R.y+R.height+12) {++far; c.ck(m.at<uchar>(y,x)==0,"roi-outside",g.str()," foreground at ",x,",",y," away from the region of interest");}
        }
        const cv::Rect C(R.x+R.width/2-2,R.y+R.height/2-2,5,5);
        for(int y=C.y; y<C.y+5; ++y) for(int x=C.x; x<C.x+5; ++x)
            c.ck((m.at<uchar>(y,x)!=0)==obj,obj?"roi-object-missed":"roi-false-fg",g.str()," frame ",i," pixel ",x,",",y," in the middle of the region");
    }
    if(far) c.nontrivial(vh::mix(far,(uint64_t)k*3+how)); c.stat("roi.far_px",far);
}

// a refresh replaces the requested share of the samples of every pixel, wherever it starts in the sample list
SCENARIO("refresh-share",60,600) {
    auto& r = c.rng; const Kind k = r.chance(0.5)?LOB:SUB; const int ch = r.chance(0.5)?1:3; Cfg g=defCfg(k,ch); g.defaults=false; g.N=(size_t)r.range(2,24); g.R=std::min<size_t>(g.R,g.N);
    const int W=r.range(15,24), H=r.range(15,24); cv::Mat A(H,W,CV_8UC(ch)),B=A.clone(); cv::Scalar va,vb; for(int q=0; q<3; ++q) {va[q]=(double)r.range(0,60); vb[q]=(double)r.range(190,255);} if(ch==1) va[1]=va[2]=va[0]; A=va; B=vb;
    Algo a(g); srand((unsigned)r.u32()); a.init(A); cv::Mat m; a.apply(B,m);
    const float frac = r.chance(0.2)?1.f:(float)r.real(0.05,0.99); const size_t n = frac<1.f?(size_t)(frac*g.N):g.N;
    c.desc(vh::str(g.str()," ",W,"x",H," refresh ",frac," of ",g.N," samples"));
    if(k==LOB) dynamic_cast<BackgroundSubtractorLOBSTER&>(*a.p).refreshModel(frac,true); else dynamic_cast<BackgroundSubtractorSuBSENSE&>(*a.p).refreshModel(frac,true);
    const cv::Mat bg=a.bg();
    for(int y=4; y<H-4; ++y) for(int x=4; x<W-4; ++x) for(int q=0; q<ch; ++q) {
        const double e=va[q]+(vb[q]-va[q])*n/g.N; const int v=bg.ptr<uchar>(y)[x*ch+q];
        c.ck(std::abs(v-e)<=1.01,"refresh-share",g.str()," background of ",x,",",y," is ",v," instead of ",e," after refreshing ",n," of ",g.N," samples");
    }
    c.nontrivial(vh::mix(vh::mix(n,g.N),k)); c.stat("refresh_share.px",(uint64_t)W*H);
}

// what cannot be processed is refused and leaves the object as it was; views are handled or refused
SCENARIO("misuse",140,1800) {
    auto& r = c.rng;
    const Kind k = pickKind(r); const int ch = r.chance(0.5)?1:3;
    const Cfg g = randCfg(r,k,ch);
    Scene s; s.ch=ch; s.w=r.range(12,24); s.h=r.range(12,24); s.pal=randPal(r,ch,r.range(3,10)); baseScene(s,r);
    const cv::Mat_<uchar> base=s.idx.clone(); const cv::Mat img=s.img();
    Algo a(g), twin(g);
    cv::Mat m;
    auto refused = [&](const std::function<void()>& f){try {f(); return false;} catch(const std::exception&) {return true;}};
    if(r.chance(0.3)) {
        c.ck(refused([&]{a.apply(img,m);}),"uninitialized",g.str()," apply accepted before initialization");
        if(a.hasROI()) c.ck(refused([&]{a.bg();}),"uninitialized",g.str()," background image returned before initialization");
    }
    const unsigned seed=(unsigned)r.u32();
    srand(seed); a.init(img); srand(seed); twin.init(img);
    const int what = r.below(9); c.desc(vh::str(g.str()," ",s.w,"x",s.h," case ",what));
    cv::Mat m1,m2;
    auto agree = [&](const cv::Mat& f, const char* key, const std::string& msg){
        const unsigned sd=(unsigned)r.u32();
        srand(sd); a.apply(f,m1); srand(sd); twin.apply(f,m2);
        c.ck(cg::sameBits(m1,m2) && cg::sameBits(a.bg(),twin.bg()),key,g.str()," ",msg);
    };
    const int pre=r.range(0,2); for(int i=0; i<pre; ++i) {mutate(s,base,r); agree(s.img(),"twin","same calls, different results");}
    mutate(s,base,r); const cv::Mat f = s.img();
    if(what==0) { // wrong size
        cv::Mat bad(s.h+(r.chance(0.5)?1:-1),s.w,f.type(),cv::Scalar::all(7));
        c.ck(refused([&]{a.apply(bad,m1);}),"bad-size",g.str()," frame of another size accepted");
    }
    else if(what==1) { // wrong type
        const int t[]={CV_16UC1,CV_32FC1,CV_8UC2,CV_8SC3,ch==1?CV_8UC3:CV_16UC3};
        cv::Mat bad(s.h,s.w,t[r.below(5)],cv::Scalar::all(7));
        c.ck(refused([&]{a.apply(bad,m1);}),"bad-type",g.str()," frame of type ",bad.type()," accepted");
    }
    else if(what==2) c.ck(refused([&]{a.apply(cv::Mat(),m1);}),"empty-frame",g.str()," empty frame accepted");
    else if(what==3 && (k==VIBE||k==LOB)) c.ck(refused([&]{a.p->apply(f,m1,r.chance(0.5)?0:-3);}),"bad-rate",g.str()," non-positive learning rate accepted");
    else if(what==4) { // a view of a larger frame as input
        cv::Mat big(s.h+3,s.w+5,f.type(),cv::Scalar::all(123)); cv::Mat v=big(cv::Rect(2,1,s.w,s.h)); f.copyTo(v);
        const unsigned sd=(unsigned)r.u32(); srand(sd); bool ref=false;
        try {a.apply(v,m1);} catch(const std::exception&) {ref=true;}
        if(!ref) {
            // PBAS filters the frame: it may look at the pixels around the view as OpenCV does
            srand(sd); twin.apply(f,m2);
            checkMask(c,g,m1,f);
            if(k==VIBE) c.ck(cg::sameBits(m1,m2) && cg::sameBits(a.bg(),twin.bg()),"view-frame",g.str()," a view gives another result than its copy");
            c.stat("misuse.view_frames",1);
            if(k!=VIBE) return;
        }
        else c.stat("misuse.view_frames_refused",1);
    }
    else if(what==5) { // a view of a larger mask as output
        cv::Mat big(s.h+3,s.w+5,CV_8UC1,cv::Scalar::all(123)); cv::Mat v=big(cv::Rect(2,1,s.w,s.h)); const cv::Mat before=big.clone();
        const unsigned sd=(unsigned)r.u32(); srand(sd); bool ref=false;
        try {a.apply(f,v);} catch(const std::exception&) {ref=true;}
        for(int y=0; y<big.rows; ++y) for(int x=0; x<big.cols; ++x) if(x<2||y<1||x>=s.w+2||y>=s.h+1)
            c.ck(big.at<uchar>(y,x)==123,"view-mask-spill",g.str()," pixel ",x,",",y," outside the output view was overwritten");
        if(!ref) {
            srand(sd); twin.apply(f,m2);
            c.ck(cg::sameBits(v,m2),"view-mask",g.str()," the mask written to a view differs");
            c.stat("misuse.view_masks",1);
        }
        else c.stat("misuse.view_masks_refused",1);
    }
    else if(what==6) { // four channels: refused, or handled as a still scene
        Algo q(defCfg(k,ch)); cv::Mat im4(s.h+20,s.w+20,CV_8UC4,cv::Scalar(r.below(256),r.below(256),r.below(256),r.below(256)));
        bool ref=false;
        try {q.init(im4);} catch(const std::exception&) {ref=true;}
        if(!ref) for(int i=0; i<3; ++i) {
            q.apply(im4,m1); checkMask(c,g,m1,im4);
            c.ck(cv::countNonZero(m1)==0,"four-channels",g.str()," ",cv::countNonZero(m1)," foreground pixels in a still uniform 4-channel scene");
        }
        c.stat(ref?"misuse.4ch_refused":"misuse.4ch_ok",1);
    }
    else if(what==7 && a.hasROI()) { // bad regions of interest
        cv::Mat bad;
        switch(r.below(5)) {
            case 0: bad = cv::Mat(s.h,s.w+1,CV_8UC1,cv::Scalar(255)); break;
            case 1: bad = cv::Mat(s.h,s.w,CV_32FC1,cv::Scalar(255)); break;
            case 2: bad = cv::Mat(s.h,s.w,CV_8UC1,cv::Scalar(100)); break;
            case 3: bad = cv::Mat(s.h,s.w,CV_8UC1,cv::Scalar(0)); break;
            default: bad = cv::Mat(s.h,s.w,CV_8UC1,cv::Scalar(0)); bad.row(0)=100; break;
        }
        c.ck(refused([&]{a.init(img,bad);}),"bad-roi",g.str()," invalid region of interest accepted");
    }
    else if(what==8) { // bad first frames
        cv::Mat bad;
        switch(r.below(3)) {
            case 0: break;
            case 1: bad = cv::Mat(s.h,s.w,r.chance(0.5)?CV_16UC1:CV_32FC3,cv::Scalar::all(3)); break;
            default: bad = cv::Mat(s.h,s.w*2,f.type(),cv::Scalar::all(3)).colRange(0,s.w); break;
        }
        c.ck(refused([&]{a.init(bad);}),"bad-init",g.str()," invalid first frame ",cg::shape(bad)," accepted");
    }
    mutate(s,base,r);
    if(what!=4 || k==VIBE) agree(s.img(),"refusal-side-effect",vh::str("results differ after case ",what));
    c.nontrivial(vh::str(g.str(),what));
}

// random use: every algorithm, long mixed histories, model refreshes, ROI changes, flashes on large frames
SCENARIO("mixed",70,700) {
    auto& r = c.rng;
    const Kind k = pickKind(r); const int ch = r.chance(0.5)?1:3;
    const Cfg g = randCfg(r,k,ch);
    Scene s; s.ch=ch; const bool large = r.chance(0.08); const int ms=minSide(k);
    if(large) {s.w=320; s.h=240;} else {s.w=r.range(ms,48); s.h=r.range(ms,48);}
    s.pal=randPal(r,ch,r.range(2,12)); baseScene(s,r); cv::Mat_<uchar> base=s.idx.clone();
    const int nf = large?r.range(3,6):r.range(3,c.thorough()?120:40);
    c.desc(vh::str(g.str()," ",s.w,"x",s.h," frames=",nf));
    Algo a(g); srand((unsigned)r.u32()); a.init(s.img());
    cv::Mat m; size_t fg=0; bool roi=false; const bool noise=r.chance(0.3);
    int lo[3]={255,255,255},hi[3]={0,0,0};
    auto seen = [&](const cv::Mat& f){for(int y=0; y<f.rows; ++y) for(int x=0; x<f.cols; ++x) for(int q=0; q<ch; ++q) {const int v=f.ptr<uchar>(y)[x*ch+q]; lo[q]=std::min(lo[q],v); hi[q]=std::max(hi[q],v);}};
    seen(s.img());
    for(int i=0; i<nf; ++i) {
        if(r.chance(0.04)) {baseScene(s,r); base=s.idx.clone();}
        mutate(s,base,r); if(large && r.chance(0.5)) s.idx=(uchar)r.below(s.pal.size());
        cv::Mat f=s.img();
        if(noise) for(int y=0; y<f.rows; ++y) for(int x=0; x<f.cols*ch; ++x) f.ptr<uchar>(y)[x]=cv::saturate_cast<uchar>((int)f.ptr<uchar>(y)[x]+r.range(-20,20));
        seen(f);
        const cv::Mat fc=f.clone();
        if(r.chance(0.2)) m = cv::Mat(); else if(r.chance(0.1)) m = cv::Mat(3,3,CV_32FC1);
        a.apply(f,m,r.chance(0.7)?-1:r.real(0.2,300));
        checkMask(c,g,m,f); fg+=cv::countNonZero(m);
        c.ck(cg::sameBits(f,fc),"input-modified",g.str()," frame ",i," modified");
        const cv::Mat mc=m.clone();
        if(r.chance(0.15)) {
            const cv::Mat b=a.bg();
            c.ck(b.type()==f.type() && b.size()==f.size(),"bg-shape",g.str()," background image ",cg::shape(b));
            if(!roi && k!=PAW) for(int y=2; y<b.rows-2; ++y) for(int x=2; x<b.cols-2; ++x) for(int q=0; q<ch; ++q) {const int v=b.ptr<uchar>(y)[x*ch+q]; c.ck(v>=lo[q]-1&&v<=hi[q]+1,"bg-range",g.str()," background value ",v," never seen in the sequence");}
            if(a.hasROI()) {cv::Mat d; dynamic_cast<IBackgroundSubtractorLBSP&>(*a.p).getBackgroundDescriptorsImage(d); c.ck(d.type()==CV_16UC(ch)&&d.size()==f.size(),"bgdesc-shape",g.str()," ",cg::shape(d));}
        }
        c.ck(cg::sameBits(m,mc),"mask-shared",g.str()," mask changed by a later query");
        if(a.hasROI() && r.chance(0.06)) {a.refresh(r); c.stat("mixed.refreshes",1);}
        if(a.hasROI() && r.chance(0.03) && s.w>=12 && s.h>=12) {
            cv::Mat q(s.h,s.w,CV_8UC1,cv::Scalar(0)); for(int z=r.range(1,3); z>0; --z) q(cv::Rect(r.below(s.w-6),r.below(s.h-6),r.range(3,6),r.range(3,6)))=255; q.at<uchar>(s.h/2,s.w/2)=255;
            a.ii->setROI(q); roi=true; c.stat("mixed.roi_changes",1);
        }
    }
    if(fg) c.nontrivial(vh::mix(fg,(uint64_t)nf)); c.stat("mixed.frames",nf); c.stat(vh::str("mixed.",kname[k]),1); if(large) c.stat("mixed.large",1);
}
VH_MAIN
