// C22: boundary evaluation -- correspondence, counters, scores
#define VH_SCHED_IMPL
#include "vh.hpp"
#include "sched.hpp"
#include "cvgen.hpp"
#include "litiv/datasets.hpp"
#include "litiv/imgproc.hpp"
#include "litiv/3rdparty/bsds500/kofn.hpp"
#include <opencv2/imgproc.hpp>
#include <thread>
using vh::Rng;
namespace {
    using Acc = lv::MetricsAccumulator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500>;
    using Calc = lv::MetricsCalculator_<lv::DatasetEval_BinaryClassifier,lv::Dataset_BSDS500>;
    struct Quiet { // the evaluation prints a progress bar
        std::ostringstream s; std::streambuf* o; Quiet() : o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() {std::cout.rdbuf(o);}
    };
    // reference: adjacency by direct distance test over all pairs of edge pixels, maximum matching by augmenting paths
    struct Ref {
        size_t match=0,slack=0; cv::Mat inRange; // detection pixels which have a reference pixel within range
        Ref(const cv::Mat& det, const cv::Mat& gt, double maxDist) : inRange(det.size(),CV_8UC1,cv::Scalar(0)) {
            std::vector<cv::Point> d,g;
            for(int y=0; y<det.rows; ++y) for(int x=0; x<det.cols; ++x) {if(det.at<uchar>(y,x)) d.emplace_back(x,y); if(gt.at<uchar>(y,x)) g.emplace_back(x,y);}
            std::vector<std::vector<int>> adj(d.size());
            for(size_t i=0; i<d.size(); ++i) for(size_t j=0; j<g.size(); ++j) {
                const double dx=d[i].x-g[j].x, dy=d[i].y-g[j].y;
                if(dx*dx+dy*dy<=maxDist*maxDist) {adj[i].push_back((int)j); inRange.at<uchar>(d[i]) = 255;}
            }
            std::vector<int> mg(g.size(),-1); std::vector<int> seen(g.size(),-1);
            std::function<bool(int,int)> aug = [&](int i, int stamp) {
                for(int j : adj[i]) if(seen[j]!=stamp) {seen[j]=stamp; if(mg[j]<0 || aug(mg[j],stamp)) {mg[j]=i; return true;}}
                return false;
            };
            for(size_t i=0; i<d.size(); ++i) match += aug((int)i,(int)i);
            // the solver links unmatched pixels by a few random arcs: beyond its degree (6), a few matches may be given up for lack of such arcs
            std::set<int> gm; size_t dm=0; for(auto& a : adj) {dm += !a.empty(); gm.insert(a.begin(),a.end());}
            slack = std::max(dm,gm.size())<=6?0:2+match/20;
        }
    };
    cv::Mat lines(Rng& r, cv::Size sz, int style) {
        cv::Mat m(sz,CV_8UC1,cv::Scalar(0));
        if(style==0) {const double p = r.real(0.0,0.5); for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) if(r.chance(p)) m.at<uchar>(y,x)=255;}
        else for(size_t n=1+r.below(6); n>0; --n) cv::line(m,cv::Point((int)r.below(sz.width),(int)r.below(sz.height)),cv::Point((int)r.below(sz.width),(int)r.below(sz.height)),cv::Scalar(255));
        return m;
    }
    cv::Size rsize(Rng& r, bool thorough) { // long strips, so that the allowed distance exceeds a pixel
        const int k = (int)r.below(4);
        if(k==0) return cv::Size((int)r.range(4,24),(int)r.range(4,24));
        const int a = (int)r.range(4,k==1?7:14), b = (int)r.range(60,k==3?(thorough?700:420):260);
        return r.chance(50)?cv::Size(a,b):cv::Size(b,a);
    }
    cv::Mat jitterMask(Rng& r, const cv::Mat& m) { // moves, drops and adds some pixels
        cv::Mat o(m.size(),CV_8UC1,cv::Scalar(0)); const int d = (int)r.below(4); const double drop = r.real(0,0.3);
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) if(m.at<uchar>(y,x) && !r.chance(drop)) {
            const int X = std::min(std::max(x+(int)r.range(-d,d),0),m.cols-1), Y = std::min(std::max(y+(int)r.range(-d,d),0),m.rows-1);
            o.at<uchar>(Y,X) = (uchar)r.range(1,255);
        }
        return o;
    }
    double maxDistOf(cv::Size z) {return 0.0075*std::sqrt(double(z.width)*z.width+double(z.height)*z.height);}
    struct Expect {std::vector<uint64_t> indiv,indivAll,lo,hi,det,slack;};
    Expect reference(const cv::Mat& det, const std::vector<cv::Mat>& gts, const std::vector<uchar>& thr) {
        Expect e; const double D = maxDistOf(det.size());
        std::map<std::vector<uchar>,size_t> known;
        for(size_t t=0; t<thr.size(); ++t) {
            cv::Mat b(det.size(),CV_8UC1),th;
            for(int y=0; y<det.rows; ++y) for(int x=0; x<det.cols; ++x) b.at<uchar>(y,x) = det.at<uchar>(y,x)>=thr[t]?255:0;
            lv::thinning(b,th);
            const std::vector<uchar> key = cg::bytes(th);
            if(known.count(key)) {
                const size_t k = known[key]; e.indiv.push_back(e.indiv[k]); e.indivAll.push_back(e.indivAll[k]); e.lo.push_back(e.lo[k]); e.hi.push_back(e.hi[k]); e.det.push_back(e.det[k]); e.slack.push_back(e.slack[k]);
                continue;
            }
            uint64_t sum=0,all=0,best=0,sl=0; cv::Mat any(det.size(),CV_8UC1,cv::Scalar(0));
            for(const auto& g : gts) {Ref ref(th,g,D); sum += ref.match; sl += ref.slack; best = std::max<uint64_t>(best,ref.match-std::min(ref.match,ref.slack)); all += (uint64_t)cv::countNonZero(g); any |= ref.inRange;}
            known[key] = t; e.slack.push_back(sl); e.indiv.push_back(sum); e.indivAll.push_back(all); e.lo.push_back(best); e.hi.push_back(std::min<uint64_t>(sum,(uint64_t)cv::countNonZero(any))); e.det.push_back((uint64_t)cv::countNonZero(th));
        }
        return e;
    }
    cv::Mat stack(const std::vector<cv::Mat>& v) {cv::Mat o; cv::vconcat(v,o); return o;}
    std::shared_ptr<Acc> mk(size_t bins) {return lv::IIMetricsAccumulator::create<Acc>(bins);}
    cv::Mat rdet(Rng& r, const cv::Mat& gt, const std::vector<uchar>& thr) {
        cv::Mat d = r.chance(70)?jitterMask(r,gt):lines(r,gt.size(),(int)r.below(2));
        if(r.chance(60)) { // a few distinct strengths, often exactly on a threshold
            std::vector<uchar> vals; for(size_t n=1+r.below(4); n>0; --n) vals.push_back(r.chance(70)?thr[r.below(thr.size())]:(uchar)r.range(1,255));
            for(int y=0; y<d.rows; ++y) for(int x=0; x<d.cols; ++x) if(d.at<uchar>(y,x)) d.at<uchar>(y,x) = vals[r.below(vals.size())];
        }
        return d;
    }
    void verify(vh::Case& c, const lv::BSDS500Counters& k, const Expect& e, const char* what) {
        const size_t B = k.vnThresholds.size();
        c.ck(k.vnIndivTP.size()==B && k.vnIndivTPFN.size()==B && k.vnTotalTP.size()==B && k.vnTotalTPFP.size()==B,"counters",what,": bad counter sizes");
        for(size_t t=0; t<B; ++t) {
            c.ck(k.vnIndivTPFN[t]==e.indivAll[t],"reference count",what,": bin ",t," counts ",k.vnIndivTPFN[t]," reference edge pixels instead of ",e.indivAll[t]);
            c.ck(k.vnTotalTPFP[t]==e.det[t],"detection count",what,": bin ",t," (threshold ",(int)k.vnThresholds[t],") counts ",k.vnTotalTPFP[t]," detected edge pixels instead of ",e.det[t]);
            c.ck(k.vnIndivTP[t]<=e.indiv[t],"too many matches",what,": bin ",t," has ",k.vnIndivTP[t]," matches, at most ",e.indiv[t]," are possible");
            c.statmax("largest_deficit_permille",e.slack[t]?1000*(e.indiv[t]-k.vnIndivTP[t])/std::max<uint64_t>(e.indiv[t],1):0); c.statmax("largest_deficit",e.indiv[t]-k.vnIndivTP[t]); if(!e.slack[t] && e.indiv[t]) c.stat("exact_matchings"); if(e.indiv[t]) c.ck(k.vnIndivTP[t]>0,"no match",what,": bin ",t," has no match, ",e.indiv[t]," are possible");
            c.ck(k.vnIndivTP[t]+e.slack[t]>=e.indiv[t],"missed matches",what,": bin ",t," has ",k.vnIndivTP[t]," matches, ",e.indiv[t]," are possible");
            c.ck(k.vnTotalTP[t]>=e.lo[t] && k.vnTotalTP[t]<=e.hi[t],"matched detections",what,": bin ",t," has ",k.vnTotalTP[t]," matched detections, expected ",e.lo[t]," to ",e.hi[t]);
            c.statmax("largest_matching",e.indiv[t]);
        }
        c.stat("bins_checked",B);
    }
}
SCENARIO("match",160,4000) {
    Rng& r = c.rng; const cv::Size sz = rsize(r,c.thorough()); const size_t ng = 1+r.below(3), bins = r.chance(20)?99:1+r.below(24);
    c.desc(vh::str("size ",sz.width,"x",sz.height," gts=",ng," bins=",bins));
    std::vector<cv::Mat> gts; for(size_t g=0; g<ng; ++g) gts.push_back(r.chance(10)?cv::Mat(sz,CV_8UC1,cv::Scalar(0)):g>0&&r.chance(50)?jitterMask(r,gts[0]):lines(r,sz,(int)r.below(2)));
    auto a = mk(bins); const lv::BSDS500Counters proto(bins);
    const cv::Mat det = rdet(r,gts[0],proto.vnThresholds), keep = det.clone(), G = stack(gts);
    {Quiet q; a->accumulate(det,G,cv::Mat());}
    c.ck(cg::sameBits(det,keep),"input","the evaluated map was modified");
    c.ck(a->m_voMetricsBase.size()==1,"counters","evaluated images: ",a->m_voMetricsBase.size());
    const Expect e = reference(det,gts,a->m_voMetricsBase[0].vnThresholds);
    verify(c,a->m_voMetricsBase[0],e,"evaluation");
    uint64_t h = 0; for(auto v : e.indiv) h = vh::mix(h,v); for(auto v : e.det) h = vh::mix(h,v);
    if(e.indiv[0]>0) c.nontrivial(h);
    {Quiet q; a->accumulate(det,cv::Mat(),cv::Mat());}
    c.ck(a->m_voMetricsBase.size()==1,"counters","an image without reference was counted");
}
SCENARIO("dense_match",24,400) { // larger correspondences: several hundred pixels on each side
    Rng& r = c.rng; const cv::Size sz((int)r.range(120,200),(int)r.range(20,60)); c.desc(vh::str("size ",sz.width,"x",sz.height));
    cv::Mat gt = lines(r,sz,r.chance(30)?0:1), det = jitterMask(r,gt); det.setTo(255,det!=0);
    auto a = mk(1); {Quiet q; a->accumulate(det,gt,cv::Mat());}
    const Expect e = reference(det,{gt},a->m_voMetricsBase[0].vnThresholds);
    verify(c,a->m_voMetricsBase[0],e,"evaluation"); if(e.indiv[0]>0) c.nontrivial(vh::mix(e.indiv[0],e.det[0]));
}
SCENARIO("self",80,2000) { // a (thin) boundary map compared with itself is perfect
    Rng& r = c.rng; const cv::Size sz = rsize(r,c.thorough()); c.desc(vh::str("size ",sz.width,"x",sz.height));
    cv::Mat m = lines(r,sz,(int)r.below(2)),th; lv::thinning(m,th);
    const size_t n = (size_t)cv::countNonZero(th), bins = 1+r.below(8);
    auto a = mk(bins); {Quiet q; a->accumulate(th,th,cv::Mat());}
    const auto& k = a->m_voMetricsBase[0];
    const size_t slack = n<=6?0:2+n/20;
    for(size_t t=0; t<bins; ++t) {
        c.ck(k.vnIndivTPFN[t]==n && k.vnTotalTPFP[t]==n && k.vnIndivTP[t]<=n && k.vnIndivTP[t]+slack>=n && k.vnTotalTP[t]==k.vnIndivTP[t],"self","bin ",t,": ",k.vnIndivTP[t],"/",k.vnIndivTPFN[t]," ",k.vnTotalTP[t],"/",k.vnTotalTPFP[t]," of ",n);
        c.statmax("largest_self_deficit",n-k.vnIndivTP[t]);
    }
    if(n) {
        auto s = lv::IIMetricsCalculator::create<Calc>(a); auto& C = dynamic_cast<Calc&>(*s); const double lo = double(n-slack)/n;
        for(double v : {C.dMaxRecall,C.dMaxPrecision,C.dMaxFMeasure,C.oBestScore.dFMeasure,C.oBestScore.dRecall,C.oBestScore.dPrecision,C.voBestImageScores[0].dFMeasure})
            c.ck(v>=lo-1e-9 && v<=1 && (slack || v==1),"self","score of a map compared with itself: ",v);
        c.nontrivial(vh::mix(n,(uint64_t)sz.width));
    }
}
SCENARIO("scores",120,3000) { // scores of sets of images against their definition
    Rng& r = c.rng; const size_t bins = 1+r.below(30), ni = 1+r.below(4); c.desc(vh::str("images ",ni," bins ",bins));
    auto a = mk(bins), b = mk(bins); const lv::BSDS500Counters proto(bins); const size_t split = r.below(ni+1);
    const cv::Size sz((int)r.range(4,20),(int)r.range(4,16));
    std::vector<lv::BSDS500Counters> all;
    for(size_t i=0; i<ni; ++i) {
        cv::Mat gt = r.chance(8)?cv::Mat(sz,CV_8UC1,cv::Scalar(0)):lines(r,sz,(int)r.below(2)), det = r.chance(8)?cv::Mat(sz,CV_8UC1,cv::Scalar(0)):rdet(r,gt,proto.vnThresholds);
        Quiet q; auto& x = i<split?a:b; x->accumulate(det,gt,cv::Mat()); all.push_back(x->m_voMetricsBase.back());
    }
    c.ck(all[0].vnThresholds.size()==bins && all[0].vnThresholds.back()==255 && (bins==1 || all[0].vnThresholds[0]>0),"thresholds","bad threshold list");
    for(size_t t=1; t<bins; ++t) c.ck(all[0].vnThresholds[t]>all[0].vnThresholds[t-1],"thresholds","thresholds do not increase");
    const bool viaCalc = split>0 && split<ni && r.chance(50);
    lv::IIMetricsCalculatorPtr s;
    if(viaCalc) {s = lv::IIMetricsCalculator::create<Calc>(a); s->accumulate(lv::IIMetricsCalculator::create<Calc>(b));}
    else {
        const lv::IIMetricsAccumulatorConstPtr before = b; a->accumulate(before); s = lv::IIMetricsCalculator::create<Calc>(a);
        c.ck(a->m_voMetricsBase.size()==ni,"merge","merged sets hold ",a->m_voMetricsBase.size()," images");
        auto a2 = mk(bins); a2->m_voMetricsBase = all; c.ck(a->isEqual(a2),"merge","merged counters differ from those of the images");
    }
    auto& C = dynamic_cast<Calc&>(*s);
    auto rec = [](uint64_t x, uint64_t y) {return y?double(x)/y:0.0;}; auto F = [](double p, double q) {return p+q>0?2*p*q/(p+q):0.0;};
    auto near_ = [](double x, double y) {return std::abs(x-y)<1e-9;};
    c.ck(C.voBestImageScores.size()==ni && C.voThresholdScores.size()==bins,"scores","bad score counts");
    std::multiset<double> want,got; lv::BSDS500Counters cum(bins); uint64_t mx[4]={0,0,0,0};
    auto bestF = [&](const std::vector<std::array<double,3>>& v) { // threshold, recall, precision: best F over the piecewise-linear curve sampled at 100 steps per segment
        double best = F(v[0][1],v[0][2]);
        for(size_t t=1; t<v.size(); ++t) for(int k=0; k<=100; ++k) best = std::max(best,F(v[t-1][1]*(100-k)/100+v[t][1]*k/100,v[t-1][2]*(100-k)/100+v[t][2]*k/100));
        return best;
    };
    for(const auto& k : all) {
        std::vector<std::array<double,3>> v; size_t m=0; double bf=-1;
        for(size_t t=0; t<bins; ++t) {
            v.push_back({{(double)k.vnThresholds[t],rec(k.vnIndivTP[t],k.vnIndivTPFN[t]),rec(k.vnTotalTP[t],k.vnTotalTPFP[t])}});
            cum.vnIndivTP[t]+=k.vnIndivTP[t]; cum.vnIndivTPFN[t]+=k.vnIndivTPFN[t]; cum.vnTotalTP[t]+=k.vnTotalTP[t]; cum.vnTotalTPFP[t]+=k.vnTotalTPFP[t];
            const double f = F(v.back()[1],v.back()[2]); if(f>bf) {bf=f; m=t;}
        }
        want.insert(bestF(v)); mx[0]+=k.vnIndivTP[m]; mx[1]+=k.vnIndivTPFN[m]; mx[2]+=k.vnTotalTP[m]; mx[3]+=k.vnTotalTPFP[m];
    }
    for(const auto& x : C.voBestImageScores) {got.insert(x.dFMeasure); c.ck(x.dThreshold>=0 && x.dThreshold<=1 && near_(x.dFMeasure,F(x.dRecall,x.dPrecision)),"scores","inconsistent image score");}
    for(auto i=want.begin(),j=got.begin(); i!=want.end(); ++i,++j) c.ck(near_(*i,*j),"image scores","best image F-measure is ",*j," instead of ",*i);
    std::vector<std::array<double,3>> v; std::map<double,std::pair<double,double>> curve;
    for(size_t t=0; t<bins; ++t) {
        const auto& x = C.voThresholdScores[t]; v.push_back({{cum.vnThresholds[t]/255.0,rec(cum.vnIndivTP[t],cum.vnIndivTPFN[t]),rec(cum.vnTotalTP[t],cum.vnTotalTPFP[t])}});
        c.ck(near_(x.dThreshold,v[t][0]) && near_(x.dRecall,v[t][1]) && near_(x.dPrecision,v[t][2]) && near_(x.dFMeasure,F(v[t][1],v[t][2])),"threshold scores","bin ",t,": ",x.dRecall," ",x.dPrecision," instead of ",v[t][1]," ",v[t][2]);
        auto it = curve.insert({v[t][1],{v[t][2],v[t][2]}}).first; it->second.first = std::min(it->second.first,v[t][2]); it->second.second = std::max(it->second.second,v[t][2]);
    }
    c.ck(near_(C.oBestScore.dFMeasure,bestF(v)),"best score","best F-measure is ",C.oBestScore.dFMeasure," instead of ",bestF(v));
    c.ck(near_(C.dMaxRecall,rec(mx[0],mx[1])) && near_(C.dMaxPrecision,rec(mx[2],mx[3])) && near_(C.dMaxFMeasure,F(C.dMaxRecall,C.dMaxPrecision)),"max scores","scores at the best threshold of each image are ",C.dMaxRecall," ",C.dMaxPrecision," instead of ",rec(mx[0],mx[1])," ",rec(mx[2],mx[3]));
    // area under the precision-recall curve: between the areas obtained from the lowest and the highest precision at every recall
    double lo=0,hi=0;
    if(curve.size()>1) for(int n=0; n<=100; ++n) {
        const double q = double(n)/100; auto u = curve.lower_bound(q); if(u==curve.end()) continue;
        if(u->first==q) {lo += u->second.first*0.01; hi += u->second.second*0.01; continue;}
        if(u==curve.begin()) continue;
        auto l = std::prev(u); const double w = (q-l->first)/(u->first-l->first); lo += ((1-w)*l->second.first+w*u->second.first)*0.01; hi += ((1-w)*l->second.second+w*u->second.second)*0.01;
    }
    c.ck(C.dAreaPR>=lo-1e-9 && C.dAreaPR<=hi+1e-9,"area","area under the curve is ",C.dAreaPR,", expected ",lo," to ",hi);
    if(curve.size()>1) c.nontrivial(vh::mix((uint64_t)(hi*1e6),(uint64_t)(C.oBestScore.dFMeasure*1e6)));
}
SCENARIO("colors",120,3000) { // visual feedback of a binary map: hits green, false alarms red, misses magenta
    Rng& r = c.rng; const cv::Size sz = rsize(r,false); c.desc(vh::str("size ",sz.width,"x",sz.height));
    const cv::Mat gt = lines(r,sz,(int)r.below(2)); cv::Mat det = jitterMask(r,gt); det.setTo(255,det!=0);
    const cv::Mat o = Acc::getColoredMask(det,gt,cv::Mat()); const int R = (int)std::ceil(maxDistOf(sz));
    c.ck(o.size()==sz && o.type()==CV_8UC3,"colors","bad image");
    auto near_ = [&](const cv::Mat& m, int y, int x) {for(int v=std::max(0,y-R); v<=std::min(sz.height-1,y+R); ++v) for(int u=std::max(0,x-R); u<=std::min(sz.width-1,x+R); ++u) if(m.at<uchar>(v,u)) return true; return false;};
    uint64_t h=0;
    for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) {
        const bool d = det.at<uchar>(y,x)!=0, g = gt.at<uchar>(y,x)!=0, tp = d && near_(gt,y,x), fp = d && !tp, fn = g && !near_(det,y,x);
        const cv::Vec3b e(fn?255:0,tp?255:0,fn||fp?255:0); h = vh::mix(h,e[0]*3+e[1]*5+e[2]);
        c.ck(o.at<cv::Vec3b>(y,x)==e,"colors","pixel ",x,",",y," detected=",d," reference=",g," has colour ",(int)o.at<cv::Vec3b>(y,x)[0],",",(int)o.at<cv::Vec3b>(y,x)[1],",",(int)o.at<cv::Vec3b>(y,x)[2]);
    }
    const cv::Mat n = Acc::getColoredMask(det,cv::Mat(),cv::Mat()); c.ck(n.size()==sz && n.type()==CV_8UC3,"colors","bad image without reference");
    c.nontrivial(h);
}
SCENARIO("kofn",600,20000) { // sorted distinct indices in range; every index is reachable
    Rng& r = c.rng; const int n = (int)r.below(r.chance(50)?12:400)+1, k = (int)r.below(n+1); c.desc(vh::str(k," of ",n));
    std::vector<int> v(k+2,-7); std::set<int> seen; uint64_t h=0;
    for(int t=0; t<(n<=8?200:4); ++t) {
        BSDS500::kOfN(k,n,v.data());
        c.ck(v[k]==-7 && v[k+1]==-7,"kofn","wrote past ",k," values");
        for(int i=0; i<k; ++i) {c.ck(v[i]>=0 && v[i]<n && (i==0 || v[i]>v[i-1]),"kofn","bad selection of ",k," of ",n); seen.insert(v[i]); h = vh::mix(h,v[i]);}
    }
    if(n<=8 && k>0) c.ck((int)seen.size()==n,"kofn","only ",seen.size()," of ",n," indices were ever selected (",k," at a time)");
    if(k) c.nontrivial(h);
}
SCENARIO("parallel",24,400) { // images evaluated by several threads at once
    Rng& r = c.rng; const size_t nt = 2+r.below(3), per = 1+r.below(3); c.desc(vh::str("threads ",nt," images each ",per));
    std::vector<std::vector<cv::Mat>> det(nt),gt(nt); std::vector<std::shared_ptr<Acc>> acc; const size_t bins = 1+r.below(6); const lv::BSDS500Counters proto(bins);
    for(size_t t=0; t<nt; ++t) {acc.push_back(mk(bins)); for(size_t i=0; i<per; ++i) {gt[t].push_back(lines(r,rsize(r,false),(int)r.below(2))); det[t].push_back(rdet(r,gt[t].back(),proto.vnThresholds));}}
    {
        Quiet q; vh::JitterScope js((int)r.below(3),0,r.u64()); std::vector<std::thread> th; std::atomic<bool> go{false};
        for(size_t t=0; t<nt; ++t) th.emplace_back([&,t]{while(!go) std::this_thread::yield(); for(size_t i=0; i<per; ++i) acc[t]->accumulate(det[t][i],gt[t][i],cv::Mat());});
        go = true; for(auto& x : th) x.join();
    }
    uint64_t h=0;
    for(size_t t=0; t<nt; ++t) for(size_t i=0; i<per; ++i) {const Expect e = reference(det[t][i],{gt[t][i]},proto.vnThresholds); verify(c,acc[t]->m_voMetricsBase[i],e,"parallel evaluation"); h = vh::mix(h,e.indiv[0]*100+e.det[0]);}
    c.nontrivial(h); vh::jstats(c);
}
VH_MAIN
