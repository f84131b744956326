// C23: random sampling helpers
#include "cvgen.hpp"
#include "litiv/utils/opencv.hpp"
typedef void (*Fn)(const int,int&,int&,const int,const int,const int,const cv::Size&);
struct Pat {const char* name; Fn f; int rad; int tot; bool neigh;};
static const Pat g_p[] = {{"sample3x3",lv::getSamplePosition_3x3_std1,1,256,false},{"sample7x7",lv::getSamplePosition_7x7_std2,3,512,false},{"neigh3x3",lv::getNeighborPosition_3x3,1,8,true},{"neigh5x5",lv::getNeighborPosition_5x5,2,24,true}};
static int clampi(int v, int lo, int hi) {return v<lo?lo:v>hi?hi:v;}
// every random value of the pattern, everywhere in (and around) an image
SCENARIO("bounds",600,12000) {
    auto& r=c.rng; const Pat& p=g_p[r.below(4)];
    const int b=(int)r.below(5),w=2*b+1+(int)r.below(12),h=2*b+1+(int)r.below(12);
    const bool out=r.chance(20); const int x=(int)r.range(out?-6:0,w-1+(out?6:0)),y=(int)r.range(out?-6:0,h-1+(out?6:0));
    c.desc(vh::str(p.name," ",w,"x",h," border ",b," at ",x,",",y));
    std::map<std::pair<int,int>,int> hist;
    for(int k=0; k<p.tot; ++k) {
        const int idx = r.chance(90)?k:k+p.tot*(int)r.below(1000);
        int sx=-9999,sy=-9999; p.f(idx,sx,sy,x,y,b,cv::Size(w,h));
        c.checkf(sx>=b&&sx<w-b&&sy>=b&&sy<h-b,"out-of-bounds",[&]{return vh::str("random value ",idx," gives (",sx,",",sy,")");});
        // the clamped position is the clamp of a position within the pattern radius
        c.checkf(sx>=clampi(x-p.rad,b,w-b-1)&&sx<=clampi(x+p.rad,b,w-b-1)&&sy>=clampi(y-p.rad,b,h-b-1)&&sy<=clampi(y+p.rad,b,h-b-1),"outside-radius",[&]{return vh::str("random value ",idx," gives (",sx,",",sy,")");});
        int tx=0,ty=0; p.f(idx,tx,ty,x,y,b,cv::Size(w,h)); c.check(tx==sx&&ty==sy,"not-deterministic","same random value gave two positions");
        hist[{sx,sy}]++;
    }
    c.nontrivial(c.desc_);
}
// distribution over the whole pattern, unclamped
SCENARIO("coverage",60,1000) {
    auto& r=c.rng; const Pat& p=g_p[c.idx%4];
    const int x=(int)r.range(20,40),y=(int)r.range(20,40); c.desc(vh::str(p.name," at ",x,",",y));
    std::map<std::pair<int,int>,int> hist; const int start=(int)r.below(100000);
    for(int k=0; k<p.tot; ++k) {int sx,sy; p.f(start+k,sx,sy,x,y,0,cv::Size(64,64)); hist[{sx-x,sy-y}]++;}
    for(int dy=-p.rad; dy<=p.rad; ++dy) for(int dx=-p.rad; dx<=p.rad; ++dx) {
        const int n=hist.count({dx,dy})?hist[{dx,dy}]:0;
        if(p.neigh) c.check(n==((dx||dy)?1:0),"neighbour-count",vh::str("neighbour (",dx,",",dy,") reached ",n," times over one period"));
        else {
            // gaussian weights: close to the documented 'floor(gaussian*tot)' kernel (rounded up cells absorb the remainder)
            const double s=p.rad==1?1.0:2.0; double z=0; for(int a=-p.rad; a<=p.rad; ++a) for(int b=-p.rad; b<=p.rad; ++b) z+=std::exp(-(a*a+b*b)/(2*s*s));
            const double e=std::exp(-(dx*dx+dy*dy)/(2*s*s))/z*p.tot;
            c.checkf(n>0 && std::abs(n-e)<=0.3*e+1,"sample-weight",[&]{return vh::str("position (",dx,",",dy,") drawn ",n," times out of ",p.tot,", expected about ",e);});
            c.check(n==hist[std::make_pair(-dx,dy)]&&n==hist[std::make_pair(dx,-dy)]&&n==hist[std::make_pair(dy,dx)],"sample-symmetry","the sampling pattern is not symmetric");
        }
    }
    c.nontrivial(c.desc_);
}
SCENARIO("clamp",400,8000) {
    auto& r=c.rng; const int b=(int)r.below(20),w=2*b+1+(int)r.below(100),h=2*b+1+(int)r.below(100); int x=(int)r.range(-300,300),y=(int)r.range(-300,300); if(r.chance(10)) x=std::numeric_limits<int>::max(); if(r.chance(10)) y=std::numeric_limits<int>::min();
    c.desc(vh::str("clamp ",x,",",y," in ",w,"x",h," border ",b)); int cx=x,cy=y; lv::clampImageCoords(cx,cy,b,cv::Size(w,h));
    c.check(cx==clampi(x,b,w-b-1)&&cy==clampi(y,b,h-b-1),"clamp",vh::str("clamped to ",cx,",",cy)); c.nontrivial(c.desc_);
}
// custom patterns: position k is drawn exactly weight(k) times
SCENARIO("custom_pattern",300,5000) {
    auto& r=c.rng; std::array<std::array<int,5>,3> pat; int tot=0; for(auto& row : pat) for(auto& v : row) {v=r.chance(30)?0:(int)r.below(9); tot+=v;} if(tot==0) {pat[1][2]=1; tot=1;}
    std::map<std::pair<int,int>,int> hist; for(int k=0; k<tot; ++k) {int x,y; lv::getSamplePosition<3,5>(pat,tot,k,x,y,10,10,0,cv::Size(30,30)); hist[{x-10+2,y-10+1}]++;}
    c.desc(vh::str("pattern total ",tot));
    for(int y=0; y<3; ++y) for(int x=0; x<5; ++x) c.check((hist.count({x,y})?hist[{x,y}]:0)==pat[(size_t)y][(size_t)x],"pattern-weight",vh::str("cell (",x,",",y,") of weight ",pat[(size_t)y][(size_t)x]," drawn ",hist[std::make_pair(x,y)]," times"));
    c.nontrivial(vh::str(vh::hbytes(&pat,sizeof(pat))));
}
VH_MAIN
