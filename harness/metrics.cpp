// C21: evaluation counters and scores (lv::BinClassif, lv::StereoDispErrors, metric accumulators and calculators)
#include "vh.hpp"
#include "cvgen.hpp"
#include "litiv/datasets.hpp"
#include <opencv2/imgproc.hpp>
using vh::Rng;
namespace {
    typedef unsigned __int128 u128;
    struct Cnt {uint64_t tp=0,tn=0,fp=0,fn=0,se=0,dc=0;};
    uchar gtVal(Rng& r) {static const uchar v[] = {255,0,85,170,50,254,1,84,171}; return r.chance(85)?v[r.below(r.chance(70)?5:9)]:(uchar)r.u64();}
    uchar outVal(Rng& r) {return r.chance(90)?(r.chance(50)?255:0):(uchar)r.u64();}
    uchar roiVal(Rng& r) {return r.chance(70)?255:r.chance(60)?0:(uchar)r.u64();}
    template<typename F> cv::Mat make(Rng& r, cv::Size sz, bool sub, F f) {
        cv::Mat m;
        if(sub) { // inside a larger frame with different content all around
            cv::Mat big(sz.height+(int)r.below(3),sz.width+1+(int)r.below(4),CV_8UC1);
            for(int y=0; y<big.rows; ++y) for(int x=0; x<big.cols; ++x) big.at<uchar>(y,x) = (uchar)r.u64();
            m = big(cv::Rect((int)r.below(big.cols-sz.width+1),(int)r.below(big.rows-sz.height+1),sz.width,sz.height));
        }
        else
            m.create(sz,CV_8UC1);
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) m.at<uchar>(y,x) = f(r);
        return m;
    }
    cv::Size rsize(Rng& r) {return r.chance(15)?cv::Size((int)r.range(1,4),(int)r.range(1,4)):cv::Size((int)r.range(1,70),(int)r.range(1,50));}
    void count(Cnt& n, const cv::Mat& o, const cv::Mat& g, const cv::Mat& roi) {
        for(int y=0; y<o.rows; ++y) for(int x=0; x<o.cols; ++x) {
            if(g.empty() || g.at<uchar>(y,x)==85 || g.at<uchar>(y,x)==170 || (!roi.empty() && roi.at<uchar>(y,x)==0)) {++n.dc; continue;}
            const bool P = o.at<uchar>(y,x)==255, G = g.at<uchar>(y,x)==255;
            if(P&&G) ++n.tp; else if(P) ++n.fp; else if(G) ++n.fn; else ++n.tn;
            if(P && g.at<uchar>(y,x)==50) ++n.se;
        }
    }
    bool same(const Cnt& a, const lv::BinClassif& b) {return a.tp==b.nTP && a.tn==b.nTN && a.fp==b.nFP && a.fn==b.nFN && a.se==b.nSE && a.dc==b.nDC;}
    std::string show(const lv::BinClassif& b) {return vh::str("tp=",b.nTP," tn=",b.nTN," fp=",b.nFP," fn=",b.nFN," se=",b.nSE," dc=",b.nDC);}
    std::string show(const Cnt& b) {return vh::str("tp=",b.tp," tn=",b.tn," fp=",b.fp," fn=",b.fn," se=",b.se," dc=",b.dc);}
    uint64_t bigCount(Rng& r) {
        switch(r.below(5)) {
            case 0: return r.below(4);
            case 1: return r.below(1000);
            case 2: return r.u64()>>40;
            case 3: return r.u64()>>28;
            default: return r.u64()>>(4+r.below(30));
        }
    }
    lv::BinClassif randCounts(Rng& r) {
        lv::BinClassif b;
        b.nTP = r.chance(20)?0:bigCount(r); b.nTN = r.chance(20)?0:bigCount(r); b.nFP = r.chance(20)?0:bigCount(r); b.nFN = r.chance(20)?0:bigCount(r);
        b.nSE = b.nFP?r.below(std::min<uint64_t>(b.nFP,1u<<30)+1):0; b.nDC = bigCount(r);
        return b;
    }
    bool near(double a, long double b, double tol=1e-9) {return std::isfinite(a) && std::abs((long double)a-b)<=tol*std::max<long double>(1,std::abs(b));}
}

SCENARIO("binary",700,12000) {
    Rng& r = c.rng;
    const size_t frames = 1+r.below(5);
    lv::BinClassif acc,merged; Cnt ref;
    size_t refused = 0, pixels = 0;
    for(size_t f=0; f<frames; ++f) {
        const cv::Size sz = rsize(r);
        const cv::Mat o = make(r,sz,r.chance(12),outVal);
        const cv::Mat g = r.chance(10)?cv::Mat():make(r,sz,r.chance(12),gtVal);
        const cv::Mat roi = r.chance(40)?cv::Mat():make(r,sz,r.chance(20),roiVal);
        const bool cont = o.isContinuous() && (g.empty()||g.isContinuous()) && (roi.empty()||roi.isContinuous());
        const auto ho=cg::bytes(o),hg=cg::bytes(g),hr=cg::bytes(roi);
        const lv::BinClassif before = acc;
        Cnt one; count(one,o,g,roi);
        bool ok = true;
        try {acc.accumulate(o,g,roi);} catch(const std::exception& e) {
            ok = false; ++refused;
            c.ck(!cont,"evaluation of valid masks was refused: ",e.what());
            c.ck(acc.isEqual(before),"refused evaluation changed the counters: ",show(acc));
        }
        if(ok) {
            Cnt d; d.tp=acc.nTP-before.nTP; d.tn=acc.nTN-before.nTN; d.fp=acc.nFP-before.nFP; d.fn=acc.nFN-before.nFN; d.se=acc.nSE-before.nSE; d.dc=acc.nDC-before.nDC;
            lv::BinClassif dd; dd.nTP=d.tp; dd.nTN=d.tn; dd.nFP=d.fp; dd.nFN=d.fn; dd.nSE=d.se; dd.nDC=d.dc;
            c.ck(same(one,dd),"frame ",f," ",cg::shape(o)," gt ",cg::shape(g)," roi ",cg::shape(roi),": counted ",show(dd)," expected ",show(one));
            c.ck(dd.total(true)==(uint64_t)sz.area(),"counters add up to ",dd.total(true)," for ",sz.area()," pixels");
            c.ck(dd.total()==(uint64_t)sz.area()-dd.nDC,"total without don't-care pixels is wrong");
            lv::BinClassif alone; alone.accumulate(o,g,roi);
            c.ck(alone.isEqual(dd),"a fresh counter gives another result");
            merged.accumulate(alone);
            count(ref,o,g,roi); pixels += sz.area();
            c.stat("pixels",sz.area()); c.stat("dontcare",d.dc); c.stat("shadow_errors",d.se);
            // coloured mask: one colour per outcome
            const cv::Mat col = lv::BinClassif::getColoredMask(o,g,roi);
            c.ck(col.size()==sz && col.type()==CV_8UC3,"coloured mask has shape ",cg::shape(col));
            for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) {
                const uchar ov=o.at<uchar>(y,x); cv::Vec3b e(ov,ov,ov);
                if(!g.empty()) {
                    const uchar gv=g.at<uchar>(y,x); const bool out=!roi.empty()&&roi.at<uchar>(y,x)==0;
                    if(out) e = cv::Vec3b(127,127,127);
                    else if(gv==85||gv==170) e = cv::Vec3b(ov,ov,ov);
                    else if(ov==255) e = gv==255?cv::Vec3b(0,255,0):gv==0?cv::Vec3b(0,0,255):gv==50?cv::Vec3b(0,127,255):cv::Vec3b(85,85,85);
                    else e = gv==255?cv::Vec3b(127,0,255):cv::Vec3b(0,0,0);
                }
                if(col.at<cv::Vec3b>(y,x)!=e) {
                    c.fail("coloured mask",vh::str("coloured mask pixel (",x,",",y,") output ",(int)ov," gt ",g.empty()?-1:(int)g.at<uchar>(y,x)," is ",vh::str((int)col.at<cv::Vec3b>(y,x)[0],",",(int)col.at<cv::Vec3b>(y,x)[1],",",(int)col.at<cv::Vec3b>(y,x)[2])));
                    y = sz.height; break;
                }
            }
        }
        c.ck(ho==cg::bytes(o) && hg==cg::bytes(g) && hr==cg::bytes(roi),"evaluation modified its inputs");
    }
    c.ck(same(ref,acc),"after ",frames," frames: ",show(acc)," expected ",show(ref));
    c.ck(merged.isEqual(acc),"merging per-frame counters differs from accumulating all frames in one");
    c.stat("refused",refused);
    if(pixels && acc.nTP && acc.nTN && acc.nFP && acc.nFN) c.nontrivial(vh::mix(vh::mix(acc.nTP,acc.nTN),acc.nFP));
}

SCENARIO("badinput",200,2000) {
    Rng& r = c.rng;
    // anything that does not match must be refused without counting or touching memory outside
    const cv::Size sz = rsize(r);
    cv::Mat o = make(r,sz,false,outVal), g = make(r,sz,false,gtVal), roi = make(r,sz,false,roiVal);
    const int k = (int)r.below(6);
    const auto other = [&](){cv::Size s; do s = rsize(r); while(s==sz); return s;};
    if(k==0) o = cv::Mat();
    else if(k==1) g = make(r,other(),false,gtVal);
    else if(k==2) roi = make(r,other(),false,roiVal);
    else if(k==3) g.convertTo(g,CV_16U);
    else if(k==4) roi.convertTo(roi,CV_32F);
    else o = cv::Mat(sz,CV_8UC3,cv::Scalar::all(255));
    lv::BinClassif b; bool thrown = false;
    try {b.accumulate(o,g,roi);} catch(const std::exception&) {thrown = true;}
    c.ck(thrown,"mismatched input (kind ",k,") was accepted: ",show(b));
    c.ck(b.isEqual(lv::BinClassif()),"refused evaluation changed the counters");
    thrown = false;
    try {lv::BinClassif::getColoredMask(o,g,roi);} catch(const std::exception&) {thrown = true;}
    c.ck(thrown,"mismatched input (kind ",k,") was accepted by the coloured mask");
    c.nontrivial(vh::mix(k,sz.area()));
}

SCENARIO("scores",1500,40000) {
    Rng& r = c.rng;
    const lv::BinClassif b = randCounts(r);
    const lv::BinClassifMetrics m(b);
    const long double tp=b.nTP,tn=b.nTN,fp=b.nFP,fn=b.nFN;
    const auto ratio = [](long double a, long double d){return d>0?a/d:0.0L;};
    const std::string s = show(b);
    c.ck(near(m.dRecall,ratio(tp,tp+fn)),"recall ",m.dRecall," for ",s);
    c.ck(near(m.dSpecificity,ratio(tn,tn+fp)),"specificity ",m.dSpecificity," for ",s);
    c.ck(near(m.dFPR,ratio(fp,fp+tn)),"FPR ",m.dFPR," for ",s);
    c.ck(near(m.dFNR,ratio(fn,tp+fn)),"FNR ",m.dFNR," for ",s);
    c.ck(near(m.dPBC,100*ratio(fp+fn,tp+tn+fp+fn)),"PBC ",m.dPBC," for ",s);
    c.ck(near(m.dPrecision,ratio(tp,tp+fp)),"precision ",m.dPrecision," for ",s);
    c.ck(near(m.dFMeasure,ratio(2*tp,2*tp+fp+fn)),"F-measure ",m.dFMeasure," for ",s);
    const long double den = std::sqrt(tp+fp)*std::sqrt(tp+fn)*std::sqrt(tn+fp)*std::sqrt(tn+fn);
    c.ck(near(m.dMCC,den>0?(tp*tn-fp*fn)/den:0,1e-7),"MCC ",m.dMCC," expected ",(double)(den>0?(tp*tn-fp*fn)/den:0)," for ",s);
    for(double v : {m.dRecall,m.dSpecificity,m.dFPR,m.dFNR,m.dPrecision,m.dFMeasure}) c.ck(v>=0 && v<=1+1e-12,"score ",v," out of range for ",s);
    c.ck(m.dPBC>=0 && m.dPBC<=100+1e-9 && m.dMCC>=-1-1e-9 && m.dMCC<=1+1e-9,"PBC/MCC out of range for ",s);
    c.ck(b.total()==b.nTP+b.nTN+b.nFP+b.nFN && b.total(true)==b.total()+b.nDC,"total() is wrong for ",s);
    // exchanging both classes or both errors keeps the coefficient / negates it
    lv::BinClassif x; x.nTP=b.nTN; x.nTN=b.nTP; x.nFP=b.nFN; x.nFN=b.nFP;
    c.ck(near(lv::BinClassifMetrics::CalcMatthewsCorrCoeff(x),m.dMCC,1e-7),"MCC changes when both classes are exchanged: ",s);
    c.ck(near(lv::BinClassifMetrics::CalcFMeasure(m.dRecall,m.dPrecision),m.dFMeasure),"F-measure from recall and precision differs");
    c.ck(near(lv::BinClassifMetrics::CalcRecall(b.nTP,b.nTP+b.nFN),m.dRecall) && near(lv::BinClassifMetrics::CalcPrecision(b.nTP,b.nTP+b.nFP),m.dPrecision),"direct recall/precision differ");
    c.statmax("largest_count",std::max({b.nTP,b.nTN,b.nFP,b.nFN}));
    if(b.total()) c.nontrivial(vh::mix(b.nTP,vh::mix(b.nFP,b.nFN)));
}

SCENARIO("merge",700,12000) {
    Rng& r = c.rng;
    const size_t n = 1+r.below(6), streams = 1+r.below(4);
    std::vector<lv::BinClassif> all;
    for(size_t i=0; i<n*streams; ++i) {lv::BinClassif b = randCounts(r); b.nTP>>=8; b.nTN>>=8; b.nFP>>=8; b.nFN>>=8; b.nDC>>=8; b.nSE>>=8; all.push_back(b);}
    // single-stream accumulators, in two different orders and groupings
    using A = lv::BinClassifMetricsAccumulator; using AA = lv::BinClassifMetricsArrayAccumulator; using I = lv::IIMetricsAccumulator;
    auto mk = [&](size_t i){auto p = I::create<A>(); p->m_oCounters = all[i]; return p;};
    lv::BinClassif sum; for(const auto& b : all) {sum.nTP+=b.nTP; sum.nTN+=b.nTN; sum.nFP+=b.nFP; sum.nFN+=b.nFN; sum.nSE+=b.nSE; sum.nDC+=b.nDC;}
    auto p1 = I::create<A>(); for(size_t i=0; i<all.size(); ++i) *p1 += *mk(i);
    auto p2 = I::create<A>(), half = I::create<A>();
    std::vector<size_t> ord(all.size()); for(size_t i=0; i<ord.size(); ++i) ord[i]=i;
    for(size_t i=ord.size(); i>1; --i) std::swap(ord[i-1],ord[r.below(i)]);
    for(size_t i=0; i<ord.size(); ++i) {if(r.chance(50)) p2->accumulate(mk(ord[i])); else half->accumulate(mk(ord[i]));}
    p2->accumulate(half);
    c.ck(p1->m_oCounters.isEqual(sum),"merged counters are ",show(p1->m_oCounters)," expected ",show(sum));
    c.ck(*p1==*p2 && !(*p1!=*p2),"merging in another order gives ",show(p2->m_oCounters));
    { // any single counter which differs makes them different
        auto q = I::create<A>(); q->m_oCounters = sum;
        uint64_t* f[] = {&q->m_oCounters.nTP,&q->m_oCounters.nTN,&q->m_oCounters.nFP,&q->m_oCounters.nFN,&q->m_oCounters.nSE,&q->m_oCounters.nDC};
        ++*f[r.below(6)];
        c.ck(!(*p1==*q) && *p1!=*q,"different counters compare equal");
    }
    // array accumulators, some of them with nothing evaluated yet
    std::vector<std::shared_ptr<AA>> v;
    for(size_t i=0; i<n; ++i) {auto p = I::create<AA>(streams); for(size_t s=0; s<streams; ++s) {p->m_vCounters[s] = all[i*streams+s]; p->m_vsStreamNames[s] = r.chance(50)?"":vh::str("cam",s);} v.push_back(p);}
    auto a1 = I::create<AA>(); size_t nempty = 0;
    for(size_t i=0; i<n; ++i) {
        while(r.chance(25)) {a1->accumulate(I::create<AA>()); ++nempty;}
        a1->accumulate(v[i]);
    }
    if(r.chance(25)) {a1->accumulate(I::create<AA>()); ++nempty;}
    auto a2 = I::create<AA>(); for(size_t i=n; i-->0;) a2->accumulate(v[i]);
    c.ck(a1->m_vCounters.size()==streams && a1->m_vsStreamNames.size()==streams,"merged array has ",a1->m_vCounters.size()," streams, not ",streams);
    { // any counter of any stream makes arrays different, and so does the number of streams
        auto q = I::create<AA>(); q->accumulate(a1);
        const bool same = *a1==*q;
        auto& b = q->m_vCounters[r.below(streams)]; uint64_t* f[] = {&b.nTP,&b.nTN,&b.nFP,&b.nFN,&b.nSE,&b.nDC};
        ++*f[r.below(6)];
        c.ck(same && !(*a1==*q) && *a1!=*q,"array comparison is wrong");
        auto q2 = I::create<AA>(streams+1);
        for(size_t s=0; s<streams; ++s) q2->m_vCounters[s] = a1->m_vCounters[s];
        c.ck(*a1!=*q2 && *q2!=*a1,"arrays of different sizes compare equal");
    }
    c.ck(*a1==*a2,"array counters depend on the merging order or on batches without output");
    for(size_t s=0; s<streams && s<a1->m_vCounters.size(); ++s) {
        lv::BinClassif e; for(size_t i=0; i<n; ++i) {const auto& b = all[i*streams+s]; e.nTP+=b.nTP; e.nTN+=b.nTN; e.nFP+=b.nFP; e.nFN+=b.nFN; e.nSE+=b.nSE; e.nDC+=b.nDC;}
        c.ck(a1->m_vCounters[s].isEqual(e),"stream ",s," merged to ",show(a1->m_vCounters[s])," expected ",show(e));
        const std::string& nm = a1->m_vsStreamNames[s];
        bool any=false; for(size_t i=0; i<n; ++i) any |= !v[i]->m_vsStreamNames[s].empty();
        c.ck(nm==(any?vh::str("cam",s):std::string()),"stream ",s," is named '",nm,"'");
    }
    c.ck(a1->reduce()->m_oCounters.isEqual(sum),"reduced array is ",show(a1->reduce()->m_oCounters)," expected ",show(sum));
    if(streams>1) {
        auto bad = I::create<AA>(streams-1); bool thrown=false; const auto before = a1->m_vCounters;
        try {a1->accumulate(bad);} catch(const std::exception&) {thrown=true;}
        c.check(thrown,"merging arrays of different sizes was accepted");
        bool keep = true; for(size_t s=0; s<streams; ++s) keep &= a1->m_vCounters[s].isEqual(before[s]);
        c.check(keep,"a refused merge changed the counters");
    }
    // calculators: chained averaging equals the plain mean over all batches, whatever the grouping
    using K = lv::BinClassifMetricsCalculator; using KA = lv::BinClassifMetricsArrayCalculator; using J = lv::IIMetricsCalculator;
    const auto mean = [&](double lv::BinClassifMetrics::* f, size_t s){long double t=0; for(size_t i=0; i<n; ++i) t += lv::BinClassifMetrics(all[i*streams+s]).*f; return t/n;};
    static double lv::BinClassifMetrics::* const F[] = {&lv::BinClassifMetrics::dRecall,&lv::BinClassifMetrics::dSpecificity,&lv::BinClassifMetrics::dFPR,&lv::BinClassifMetrics::dFNR,&lv::BinClassifMetrics::dPBC,&lv::BinClassifMetrics::dPrecision,&lv::BinClassifMetrics::dFMeasure,&lv::BinClassifMetrics::dMCC};
    std::vector<std::shared_ptr<K>> ks; std::vector<std::shared_ptr<KA>> kas;
    for(size_t i=0; i<n; ++i) {ks.push_back(J::create<K>(all[i*streams])); kas.push_back(J::create<KA>(lv::IIMetricsAccumulatorConstPtr(v[i])));}
    while(ks.size()>1) { // random tree of merges
        const size_t i = r.below(ks.size()-1);
        *ks[i] += *ks[i+1]; ks.erase(ks.begin()+i+1);
        kas[i]->accumulate(kas[i+1]); kas.erase(kas.begin()+i+1);
    }
    for(int k=0; k<8; ++k) {
        c.ck(near(ks[0]->m_oMetrics.*F[k],mean(F[k],0)),"average score ",k," is ",ks[0]->m_oMetrics.*F[k]," over ",n," batches, expected ",(double)mean(F[k],0));
        long double t=0;
        for(size_t s=0; s<streams; ++s) {
            c.ck(near(kas[0]->m_vMetrics[s].*F[k],mean(F[k],s)),"average score ",k," of stream ",s," is ",kas[0]->m_vMetrics[s].*F[k],", expected ",(double)mean(F[k],s));
            t += mean(F[k],s);
        }
        c.ck(near(kas[0]->reduce()->m_oMetrics.*F[k],t/streams),"reduced score ",k," is ",kas[0]->reduce()->m_oMetrics.*F[k],", expected ",(double)(t/streams));
    }
    c.stat("merges",n*2); c.stat("empty_merges",nempty);
    c.nontrivial(vh::mix(sum.nTP,vh::mix(n,streams)));
}

namespace {
    template<typename T> T dispVal(Rng& r, bool gt) {
        if(gt && r.chance(15)) return std::numeric_limits<T>::max();
        if(std::is_signed<T>::value && r.chance(10)) return (T)-(int)r.range(1,100);
        if(r.chance(8)) return (T)0;
        return std::is_floating_point<T>::value?(T)r.real(0,90):(T)r.range(0,100);
    }
    template<typename T> cv::Mat dispMap(Rng& r, cv::Size sz, int type, bool gt, bool sub) {
        cv::Mat m; if(sub) m = cv::Mat(sz.height,sz.width+2,type,cv::Scalar(77))(cv::Rect(1,0,sz.width,sz.height)); else m.create(sz,type);
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) m.at<T>(y,x) = dispVal<T>(r,gt);
        return m;
    }
    cv::Mat anyDisp(Rng& r, cv::Size sz, bool gt, bool sub) {
        switch(r.below(6)) {
            case 0: return dispMap<uchar>(r,sz,CV_8UC1,gt,sub);
            case 1: return dispMap<schar>(r,sz,CV_8SC1,gt,sub);
            case 2: return dispMap<ushort>(r,sz,CV_16UC1,gt,sub);
            case 3: return dispMap<short>(r,sz,CV_16SC1,gt,sub);
            case 4: return dispMap<int>(r,sz,CV_32SC1,gt,sub);
            default: return dispMap<float>(r,sz,CV_32FC1,gt,sub);
        }
    }
    double val(const cv::Mat& m, int y, int x) {
        switch(m.depth()) {
            case CV_8U: return m.at<uchar>(y,x); case CV_8S: return m.at<schar>(y,x); case CV_16U: return m.at<ushort>(y,x);
            case CV_16S: return m.at<short>(y,x); case CV_32S: return m.at<int>(y,x); default: return m.at<float>(y,x);
        }
    }
    bool valid(const cv::Mat& g, int y, int x) {
        const double v = val(g,y,x);
        const double mx = g.depth()==CV_8U?255:g.depth()==CV_8S?127:g.depth()==CV_16U?65535:g.depth()==CV_16S?32767:g.depth()==CV_32S?2147483647.0:(double)std::numeric_limits<float>::max();
        return v!=mx && v>=0;
    }
}

SCENARIO("stereo",500,9000) {
    Rng& r = c.rng;
    const size_t frames = 1+r.below(4), streams = 1+r.below(3);
    using A = lv::StereoDispMetricsAccumulator; using I = lv::IIMetricsAccumulator;
    std::vector<std::vector<float>> ref(streams); std::vector<uint64_t> dc(streams,0); size_t px=0;
    auto total = I::create<A>(); size_t done=0; std::vector<std::shared_ptr<A>> batches;
    for(size_t f=0; f<frames; ++f) {
        auto acc = I::create<A>(streams); batches.push_back(acc);
        for(size_t s=0; s<streams; ++s) {
            acc->m_vsStreamNames[s] = r.chance(50)?"":vh::str("cam",s);
            const cv::Size sz = rsize(r);
            const cv::Mat d = anyDisp(r,sz,false,r.chance(7)), g = r.chance(10)?cv::Mat():anyDisp(r,sz,true,r.chance(7)), roi = r.chance(50)?cv::Mat():make(r,sz,r.chance(10),roiVal);
            const bool cont = d.isContinuous() && (g.empty()||g.isContinuous()) && (roi.empty()||roi.isContinuous());
            const auto hd=cg::bytes(d),hg=cg::bytes(g);
            bool ok=true;
            try {acc->m_vErrorLists[s].accumulate(d,g,roi);} catch(const std::exception& e) {ok=false; c.ck(!cont,"valid disparity maps were refused: ",e.what()); c.ck(acc->m_vErrorLists[s].total(true)==0,"refused maps were counted");}
            c.check(hd==cg::bytes(d) && hg==cg::bytes(g),"evaluation modified its inputs");
            if(!ok) continue;
            std::vector<float> e; uint64_t n=0;
            for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) {
                if(g.empty() || !valid(g,y,x) || (!roi.empty() && !roi.at<uchar>(y,x))) ++n;
                else e.push_back((float)std::abs((float)val(d,y,x)-(float)val(g,y,x)));
            }
            c.ck(acc->m_vErrorLists[s].total(true)==(uint64_t)sz.area() && acc->m_vErrorLists[s].nDC==n,"counted ",acc->m_vErrorLists[s].total()," errors + ",acc->m_vErrorLists[s].nDC," don't-care, expected ",e.size()," + ",n," (gt ",cg::shape(g)," map ",cg::shape(d),")");
            auto got = acc->m_vErrorLists[s].vErrors; auto se=e; std::sort(got.begin(),got.end()); std::sort(se.begin(),se.end());
            c.ck(got==se,"disparity errors differ from the reference (gt ",cg::shape(g)," map ",cg::shape(d),")");
            ref[s].insert(ref[s].end(),e.begin(),e.end()); dc[s]+=n; px+=sz.area();
            const float maxe = (float)r.real(0.5,30);
            const cv::Mat col = lv::StereoDispErrors::getColoredMask(d,g,maxe,roi);
            bool grey = true;
            if(!roi.empty() || g.empty()) for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) if(g.empty() || !roi.at<uchar>(y,x)) grey &= col.at<cv::Vec3b>(y,x)==cv::Vec3b(92,92,92);
            c.ck(col.size()==sz && col.type()==CV_8UC3 && grey,"coloured error map is malformed: ",cg::shape(col));
            if(!g.empty()) { // colour scale from no error to the largest one (or more), over the 5x5 neighborhood, outside the ignored regions
                static const cv::Mat lut = [](){cv::Mat l(1,256,CV_8UC1),o; for(int i=0; i<256; ++i) l.at<uchar>(0,i) = (uchar)i; cv::applyColorMap(l,o,cv::COLORMAP_HOT); return o;}();
                cv::Mat_<double> lev(sz,0.0);
                for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x)
                    if(valid(g,y,x) && (roi.empty() || roi.at<uchar>(y,x))) lev(y,x) = std::min((double)std::abs((float)val(d,y,x)-(float)val(g,y,x)),(double)maxe)/maxe*255;
                for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) {
                    if(!roi.empty() && !roi.at<uchar>(y,x)) continue;
                    double m = 0;
                    for(int v=std::max(0,y-2); v<=std::min(sz.height-1,y+2); ++v) for(int u=std::max(0,x-2); u<=std::min(sz.width-1,x+2); ++u) m = std::max(m,lev(v,u));
                    bool good = false;
                    for(int l=(int)std::floor(m-1); l<=(int)std::ceil(m+1); ++l) good |= l>=0 && l<256 && lut.at<cv::Vec3b>(0,l)==col.at<cv::Vec3b>(y,x);
                    c.ck(good,"coloured error map shows a wrong error level at ",x,",",y,", expected about ",m," of 255");
                }
            }
        }
        if(r.chance(25)) total->accumulate(I::create<A>()); // batch without output
        total->accumulate(acc); ++done;
    }
    std::vector<float> flat; uint64_t dcs=0;
    for(size_t s=0; s<streams; ++s) {
        const auto& L = total->m_vErrorLists[s];
        c.ck(L.vErrors.size()==ref[s].size() && L.nDC==dc[s],"merged stream ",s," has ",L.vErrors.size(),"+",L.nDC," pixels, expected ",ref[s].size(),"+",dc[s]);
        flat.insert(flat.end(),ref[s].begin(),ref[s].end()); dcs+=dc[s];
        const lv::StereoDispErrorMetrics m(L);
        const auto bad = [&](float t){return ref[s].empty()?0.0L:100.0L*std::count_if(ref[s].begin(),ref[s].end(),[&](float v){return v>t;})/ref[s].size();};
        long double sum=0,sq=0; for(float v : ref[s]) {sum+=v; sq+=(long double)v*v;}
        const size_t N = ref[s].size();
        c.ck(near(m.dBadPercent_05,bad(0.5f),1e-5) && near(m.dBadPercent_1,bad(1),1e-5) && near(m.dBadPercent_2,bad(2),1e-5) && near(m.dBadPercent_4,bad(4),1e-5),"bad pixel percentages of stream ",s," are wrong: ",m.dBadPercent_05," ",m.dBadPercent_1," ",m.dBadPercent_2," ",m.dBadPercent_4," expected ",(double)bad(0.5f)," ",(double)bad(1)," ",(double)bad(2)," ",(double)bad(4));
        c.ck(near(m.dAverageError,N?sum/N:0,1e-6) && near(m.dRMS,N?std::sqrt(sq/N):0,1e-5),"average/RMS error of stream ",s," is ",m.dAverageError,"/",m.dRMS," expected ",(double)(N?sum/N:0),"/",(double)(N?std::sqrt(sq/N):0));
    }
    const auto red = total->reduce(); auto a=red.vErrors; std::sort(a.begin(),a.end()); std::sort(flat.begin(),flat.end());
    c.ck(a==flat && red.nDC==dcs,"reduced error list differs");
    using KA = lv::StereoDispMetricsCalculator; using J = lv::IIMetricsCalculator;
    static double lv::StereoDispErrorMetrics::* const F[] = {&lv::StereoDispErrorMetrics::dBadPercent_05,&lv::StereoDispErrorMetrics::dBadPercent_1,&lv::StereoDispErrorMetrics::dBadPercent_2,&lv::StereoDispErrorMetrics::dBadPercent_4,&lv::StereoDispErrorMetrics::dAverageError,&lv::StereoDispErrorMetrics::dRMS};
    auto k = J::create<KA>(lv::IIMetricsAccumulatorConstPtr(total));
    const auto km = k->reduce();
    for(int i=0; i<6; ++i) {
        long double t=0; for(size_t s=0; s<streams; ++s) t += lv::StereoDispErrorMetrics(total->m_vErrorLists[s]).*F[i];
        c.ck(near(km.*F[i],t/streams),"reduced score ",i," is ",km.*F[i],", not the mean over streams, ",(double)(t/streams));
    }
    // chained averaging equals the plain mean over all batches, whatever the grouping
    std::vector<std::shared_ptr<KA>> ks;
    for(auto& p : batches) ks.push_back(J::create<KA>(lv::IIMetricsAccumulatorConstPtr(p)));
    while(ks.size()>1) {
        const size_t i = r.below(ks.size()-1);
        if(r.chance(50)) *ks[i] += *ks[i+1]; else ks[i]->accumulate(ks[i+1]);
        ks.erase(ks.begin()+i+1);
    }
    for(int i=0; i<6; ++i) for(size_t s=0; s<streams; ++s) {
        long double t=0; for(auto& p : batches) t += lv::StereoDispErrorMetrics(p->m_vErrorLists[s]).*F[i];
        c.ck(near(ks[0]->m_vMetrics[s].*F[i],t/batches.size()),"average score ",i," of stream ",s," is ",ks[0]->m_vMetrics[s].*F[i]," over ",batches.size()," batches, expected ",(double)(t/batches.size()));
        c.ck(ks[0]->m_vsStreamNames[s]==batches[0]->m_vsStreamNames[s],"stream ",s," of the average is named '",ks[0]->m_vsStreamNames[s],"'");
    }
    for(size_t s=0; s<streams; ++s) {
        bool any = false; for(auto& p : batches) any |= !p->m_vsStreamNames[s].empty();
        c.ck(total->m_vsStreamNames[s]==(any?vh::str("cam",s):std::string()),"merged stream ",s," is named '",total->m_vsStreamNames[s],"'");
    }
    { // comparison
        auto q = I::create<A>(); q->accumulate(total);
        const bool same = *q==*total && !(*q!=*total);
        auto& L = q->m_vErrorLists[r.below(streams)];
        if(L.vErrors.empty() || r.chance(30)) ++L.nDC; else if(r.chance(30)) L.vErrors.pop_back(); else L.vErrors[r.below(L.vErrors.size())] += 1.0f;
        c.ck(same && *q!=*total && !(*q==*total),"comparison of error lists is wrong");
        auto q2 = I::create<A>(streams+1); for(size_t s=0; s<streams; ++s) q2->m_vErrorLists[s] = total->m_vErrorLists[s];
        c.ck(*q2!=*total && *total!=*q2,"error lists of different array sizes compare equal");
        bool thrown = false; const auto before = total->m_vErrorLists;
        try {total->accumulate(q2);} catch(const std::exception&) {thrown = true;}
        bool keep = true; for(size_t s=0; s<streams; ++s) keep &= total->m_vErrorLists[s].isEqual(before[s]);
        c.ck(thrown && keep,"merging arrays of different sizes was accepted");
    }
    c.stat("calculator_merges",batches.size()-1);
    c.stat("pixels",px);
    if(!flat.empty()) c.nontrivial(vh::mix(flat.size(),dcs));
}
VH_MAIN
