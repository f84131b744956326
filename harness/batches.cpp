// C20: dataset work batches -- packets, ground truth, outputs, counters, metrics and reports, over random layouts and histories
#define VH_SCHED_IMPL
#include <experimental/filesystem>
#include "vh.hpp"
#include "sched.hpp"
#include "cvgen.hpp"
#include "litiv/datasets.hpp"
#include <opencv2/imgproc.hpp>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/videoio.hpp>
#include <fstream>
#include <thread>
using vh::Rng;
namespace fs = std::experimental::filesystem;

// the ground truth of the generated datasets lies in a parallel tree: <root>/../gt/<batch path>/<packet>_<stream>.png (+ roi_<stream>.png)
namespace {
    std::string gtDir(const lv::IDataHandler& h) {return h.getRoot()->getDataPath()+"../gt/"+h.getRelativePath();}
    std::string gtFile(const std::string& d, size_t i, size_t s) {return d+std::to_string(i)+"_"+std::to_string(s)+".png";}
    const size_t STREAMS = 3, MAXPK = 40; // streams of the array datasets
}
namespace lv {
    template<> struct DataProducer_<DatasetTask_Segm,DatasetSource_Video,Dataset_Custom> : public IDataProducerWrapper_<DatasetTask_Segm,DatasetSource_Video,Dataset_Custom> {
    protected:
        virtual void parseData() override final {
            IDataProducer_<DatasetSource_Video>::parseData();
            const std::string d = gtDir(*this);
            for(size_t i=0; i<getInputCount(); ++i) if(fs::exists(gtFile(d,i,0))) {m_mGTIndexLUT[i] = m_vsGTPaths.size(); m_vsGTPaths.push_back(gtFile(d,i,0));}
            m_oGTInfo = lv::MatInfo(m_oInputInfo.size,CV_8UC1);
            m_oGTROI = fs::exists(d+"roi_0.png")?cv::imread(d+"roi_0.png",cv::IMREAD_UNCHANGED):cv::Mat();
        }
    };
    template<> struct DataProducer_<DatasetTask_EdgDet,DatasetSource_Image,Dataset_Custom> : public IDataProducerWrapper_<DatasetTask_EdgDet,DatasetSource_Image,Dataset_Custom> {
    protected:
        virtual void parseData() override final {
            IDataProducer_<DatasetSource_Image>::parseData();
            const std::string d = gtDir(*this);
            for(size_t i=0; i<getInputCount(); ++i) if(fs::exists(gtFile(d,i,0))) {m_mGTIndexLUT[i] = m_vsGTPaths.size(); m_vsGTPaths.push_back(gtFile(d,i,0)); m_vGTInfos.push_back(lv::MatInfo(m_vInputInfos[i].size,CV_8UC1));}
        }
    };
    template<> struct DataProducer_<DatasetTask_Cosegm,DatasetSource_VideoArray,Dataset_Custom> : public IDataProducerWrapper_<DatasetTask_Cosegm,DatasetSource_VideoArray,Dataset_Custom> {
        virtual size_t getInputStreamCount() const override final {return STREAMS;}
        virtual size_t getGTStreamCount() const override final {return STREAMS;}
    protected:
        virtual void parseData() override final {
            m_vvsInputPaths.clear(); m_vvsGTPaths.clear(); m_mGTIndexLUT.clear(); m_vInputInfos.clear(); m_vGTInfos.clear(); m_vInputROIs.clear(); m_vGTROIs.clear();
            const std::string d = gtDir(*this); bool roi = true;
            for(size_t i=0; fs::exists(gtFile(getDataPath(),i,0)); ++i) {
                std::vector<std::string> in,gt;
                for(size_t s=0; s<STREAMS; ++s) {in.push_back(gtFile(getDataPath(),i,s)); gt.push_back(gtFile(d,i,s));}
                m_vvsInputPaths.push_back(in);
                if(fs::exists(gt[0])) {m_mGTIndexLUT[i] = m_vvsGTPaths.size(); m_vvsGTPaths.push_back(gt);}
            }
            for(size_t s=0; s<STREAMS; ++s) {
                const cv::Mat m = cv::imread(m_vvsInputPaths[0][s],cv::IMREAD_UNCHANGED);
                m_vInputInfos.push_back(lv::MatInfo(m)); m_vGTInfos.push_back(lv::MatInfo(m.size(),CV_8UC1)); m_vInputROIs.push_back(cv::Mat());
                roi &= fs::exists(d+"roi_"+std::to_string(s)+".png");
            }
            if(roi) for(size_t s=0; s<STREAMS; ++s) m_vGTROIs.push_back(cv::imread(d+"roi_"+std::to_string(s)+".png",cv::IMREAD_UNCHANGED));
        }
    };
    template<> struct DataProducer_<DatasetTask_StereoReg,DatasetSource_ImageArray,Dataset_Custom> : public IDataProducerWrapper_<DatasetTask_StereoReg,DatasetSource_ImageArray,Dataset_Custom> {
        virtual size_t getInputStreamCount() const override final {return STREAMS;}
        virtual size_t getGTStreamCount() const override final {return STREAMS;}
    protected:
        virtual void parseData() override final {
            m_vvsInputPaths.clear(); m_vvsGTPaths.clear(); m_mGTIndexLUT.clear(); m_vvInputInfos.clear(); m_vvGTInfos.clear();
            m_bIsInputInfoConst = m_bIsGTInfoConst = false;
            const std::string d = gtDir(*this);
            for(size_t i=0; fs::exists(gtFile(getDataPath(),i,0)); ++i) {
                std::vector<std::string> in,gt; std::vector<lv::MatInfo> ii,gi;
                for(size_t s=0; s<STREAMS; ++s) {
                    in.push_back(gtFile(getDataPath(),i,s)); gt.push_back(gtFile(d,i,s));
                    const cv::Mat m = cv::imread(in.back(),cv::IMREAD_UNCHANGED); ii.push_back(lv::MatInfo(m)); gi.push_back(lv::MatInfo(m.size(),CV_8UC1));
                }
                m_vvsInputPaths.push_back(in); m_vvInputInfos.push_back(ii);
                if(fs::exists(gt[0])) {m_mGTIndexLUT[i] = m_vvsGTPaths.size(); m_vvsGTPaths.push_back(gt); m_vvGTInfos.push_back(gi);}
            }
        }
    };
}

namespace {
    using Segm = lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_Custom,lv::NonParallel>;
    using Edge = lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_Custom,lv::NonParallel>;
    using Coseg = lv::Dataset_<lv::DatasetTask_Cosegm,lv::Dataset_Custom,lv::NonParallel>;
    using Stereo = lv::Dataset_<lv::DatasetTask_StereoReg,lv::Dataset_Custom,lv::NonParallel>;
    template<typename D> struct Tr;
    template<> struct Tr<Segm> {static const bool arr=false,perpacket=false,stereo=false; static const lv::DatasetEvalList ev=lv::DatasetEval_BinaryClassifier;};
    template<> struct Tr<Edge> {static const bool arr=false,perpacket=true,stereo=false; static const lv::DatasetEvalList ev=lv::DatasetEval_BinaryClassifier;};
    template<> struct Tr<Coseg> {static const bool arr=true,perpacket=false,stereo=false; static const lv::DatasetEvalList ev=lv::DatasetEval_BinaryClassifierArray;};
    template<> struct Tr<Stereo> {static const bool arr=true,perpacket=true,stereo=true; static const lv::DatasetEvalList ev=lv::DatasetEval_StereoDisparityEstim;};
    template<typename B> std::vector<cv::Mat> getIn(B& b, size_t i, std::false_type) {return {b.getInput(i)};}
    template<typename B> std::vector<cv::Mat> getIn(B& b, size_t i, std::true_type) {return b.getInputArray(i);}
    template<typename B> std::vector<cv::Mat> getGt(B& b, size_t i, std::false_type) {return {b.getGT(i)};}
    template<typename B> std::vector<cv::Mat> getGt(B& b, size_t i, std::true_type) {return b.getGTArray(i);}
    template<typename B> std::vector<cv::Mat> loadOut(B& b, size_t i, std::false_type) {return {b.loadOutput(i)};}
    template<typename B> std::vector<cv::Mat> loadOut(B& b, size_t i, std::true_type) {return b.loadOutputArray(i);}
    template<typename B> void push(B& b, const std::vector<cv::Mat>& v, size_t i, std::false_type) {b.push(v[0],i);}
    template<typename B> void push(B& b, const std::vector<cv::Mat>& v, size_t i, std::true_type) {b.push(v,i);}

    struct Batch { // what the harness put on disk and did
        std::string group,rel; bool bare=false;
        std::vector<std::vector<cv::Mat>> in; std::map<size_t,std::vector<cv::Mat>> gt; std::vector<cv::Mat> roi;
        std::vector<std::string> names;
        std::set<size_t> counted; std::vector<lv::BinClassif> cnt; std::vector<std::vector<float>> err; std::vector<uint64_t> dc;
        std::map<size_t,std::vector<cv::Mat>> saved; std::map<size_t,cv::Mat> feats; std::map<size_t,std::pair<std::vector<cv::Mat>,std::vector<lv::MatInfo>>> featArr;
        bool processing=false;
    };
    cv::Mat rimg(Rng& r, cv::Size sz, int type) {cv::Mat m(sz,type); cg::fill(m,r,0); return m;}
    cv::Size rsz(Rng& r) {return cv::Size((int)r.range(1,24),(int)r.range(1,18));}
    cv::Size rsz(Rng& r, double scale) {const cv::Size z = rsz(r); return scale==1?z:cv::Size(std::max(z.width,2),std::max(z.height,2));}
    cv::Mat rmask(Rng& r, cv::Size sz, std::initializer_list<int> vals) {
        cv::Mat m(sz,CV_8UC1); std::vector<int> v(vals);
        for(int y=0; y<sz.height; ++y) for(int x=0; x<sz.width; ++x) m.at<uchar>(y,x) = (uchar)v[r.below(v.size())];
        return m;
    }
    std::string rname(Rng& r, size_t k) {
        static const char* const pre[] = {"img","a b","x.y","0001_","Z","_","frame-","n.png"};
        return std::string(pre[r.below(8)])+std::to_string(r.below(100))+"q"+std::to_string(k); // the last part keeps them distinct
    }
    struct Layout {
        std::string root,out; std::vector<std::string> groups,skip; std::vector<Batch> batches; std::map<std::string,bool> groupSkipped,groupBare;
        double scale=1; bool align=false; size_t inputs=0;
    };
    cv::Mat asLoaded(const cv::Mat& m, const Layout& L, bool input) { // documented scaling/alignment of packets
        cv::Mat x = m;
        if(input && L.align && m.channels()==3) cv::cvtColor(m,x,cv::COLOR_BGR2BGRA);
        if(L.scale!=1) {cv::Mat t; cv::resize(m,t,cv::Size(),L.scale,L.scale,cv::INTER_NEAREST); cv::Mat y; cv::resize(x,y,t.size(),0,0,cv::INTER_NEAREST); x = y;}
        return x;
    }
    template<typename D> void build(vh::Case& c, Layout& L, size_t maxPackets) {
        Rng& r = c.rng;
        const std::string base = c.workdir()+"/ds"+std::to_string(c.idx);
        fs::remove_all(base);
        L.root = base+"/data/"; L.out = base+"/out/"; const std::string gtroot = base+"/gt/";
        fs::create_directories(L.root); fs::create_directories(gtroot);
        if(!Tr<D>::arr) {if(r.chance(20)) L.scale = r.chance(50)?0.5:1.5; L.align = r.chance(25);}
        if(r.chance(30)) L.skip.push_back("skipme");
        const size_t ng = 1+r.below(3);
        for(size_t g=0; g<ng; ++g) {
            std::string gn = "grp"+std::to_string(g); const bool gskip = !L.skip.empty() && r.chance(20); if(gskip) gn += "_skipme";
            L.groups.push_back(gn); L.groupSkipped[gn] = gskip;
            const bool bare = r.chance(40); L.groupBare[gn] = bare || gskip; const size_t nb = bare?1:1+r.below(3);
            for(size_t b=0; b<nb; ++b) {
                Batch B; B.group=gn; B.bare=bare;
                std::string bn = "b"+std::to_string(b); const bool bskip = !bare && !L.skip.empty() && r.chance(20); if(bskip) bn += "skipme";
                B.rel = gn+"/"+(bare?std::string():bn+"/");
                fs::create_directories(L.root+B.rel); fs::create_directories(gtroot+B.rel);
                size_t np = 1+r.below(maxPackets); if(std::is_same<D,Segm>::value) np = std::max<size_t>(np,2);
                bool video = std::is_same<D,Segm>::value && r.chance(25); // frames of a motion-jpeg file instead of a directory of images
#if defined(__SANITIZE_THREAD__)
                video = false; // the decoder's own threads are not instrumented
#endif
                const cv::Size bsz = video?cv::Size(2*(int)r.range(8,20),2*(int)r.range(8,16)):rsz(r,L.scale); int btype = r.chance(50)?CV_8UC1:r.chance(60)?CV_8UC3:CV_8UC4;
                std::vector<std::string> nm; for(size_t i=0; i<np; ++i) nm.push_back(Tr<D>::arr?std::to_string(i):std::is_same<D,Segm>::value?cv::format("f%05d",(int)i):rname(r,i));
                if(std::is_same<D,Edge>::value) std::sort(nm.begin(),nm.end());
                const size_t ns = Tr<D>::arr?STREAMS:1;
                std::vector<cv::Size> ssz(ns,bsz); if(Tr<D>::arr) for(auto& z : ssz) if(r.chance(50)) z = rsz(r,L.scale);
                std::vector<std::pair<std::string,size_t>> order;
                for(size_t i=0; i<np; ++i) {
                    std::vector<cv::Mat> in,gt; const bool hasgt = r.chance(80);
                    for(size_t s=0; s<ns; ++s) {
                        const cv::Size z = Tr<D>::perpacket?rsz(r,L.scale):ssz[s]; const int t = Tr<D>::perpacket?(r.chance(50)?CV_8UC1:r.chance(60)?CV_8UC3:CV_16UC1):btype;
                        const cv::Mat m = rimg(r,z,t);
                        std::string ext = ".png"; if(std::is_same<D,Edge>::value && t!=CV_16UC1 && r.chance(30)) ext = r.chance(50)?".bmp":".jpg";
                        const std::string p = Tr<D>::arr?gtFile(L.root+B.rel,i,s):L.root+B.rel+nm[i]+ext;
                        cv::imwrite(p,m);
                        const cv::Mat back = ext==".png"?m:cv::imread(p,cv::IMREAD_UNCHANGED);
                        in.push_back(asLoaded(back,L,true));
                        order.push_back({nm[i]+ext,i});
                        if(hasgt) {
                            const cv::Mat G = Tr<D>::stereo?rmask(r,z,{0,3,4,5,9,255}):rmask(r,z,{0,0,255,255,85,170,50});
                            cv::imwrite(gtFile(gtroot+B.rel,i,s),G); gt.push_back(asLoaded(G,L,false));
                        }
                    }
                    B.in.push_back(in); if(hasgt) B.gt[i] = gt;
                }
                B.names = nm;
                if(video) {
                    for(const auto& n : nm) fs::remove(L.root+B.rel+n+".png");
                    const std::string vp = L.root+B.rel+"clip.avi";
                    {
                        cv::VideoWriter vw(vp,cv::VideoWriter::fourcc('M','J','P','G'),25,bsz,true);
                        c.ck(vw.isOpened(),"setup","cannot write ",vp);
                        for(size_t i=0; i<np; ++i) {cv::Mat f = rimg(r,cv::Size((bsz.width+7)/8,(bsz.height+7)/8),CV_8UC3); cv::resize(f,f,bsz,0,0,cv::INTER_NEAREST); vw << f;}
                    }
                    cv::VideoCapture vc(vp); std::vector<cv::Mat> fr; for(cv::Mat f; vc.read(f);) fr.push_back(f.clone()); // decoded once, in order
                    c.ck(fr.size()==np && fr[0].size()==bsz,"setup","the video has ",fr.size()," frames, ",np," were written");
                    for(size_t i=0; i<np; ++i) B.in[i][0] = asLoaded(fr[i],L,true);
                    c.stat("videos"); c.stat("video_frames",np);
                }
                if(std::is_same<D,Edge>::value) { // directory order, with files which are not images mixed in
                    std::sort(order.begin(),order.end());
                    std::vector<std::vector<cv::Mat>> in2; std::map<size_t,std::vector<cv::Mat>> gt2; std::vector<std::string> n2;
                    for(size_t k=0; k<order.size(); ++k) {
                        in2.push_back(B.in[order[k].second]); n2.push_back(nm[order[k].second]);
                        if(B.gt.count(order[k].second)) gt2[k] = B.gt[order[k].second];
                    }
                    for(size_t k=0; k<np; ++k) fs::remove(gtFile(gtroot+B.rel,k,0));
                    B.in.swap(in2); B.gt.swap(gt2); B.names.swap(n2);
                    // ground truth is kept unscaled on disk: written again below from the generator's originals
                    for(auto& kv : B.gt) {
                        const cv::Size z = B.in[kv.first][0].size();
                        cv::Mat G = rmask(r,L.scale!=1?z:z,{0,0,255,255,85,170,50}); cv::imwrite(gtFile(gtroot+B.rel,kv.first,0),G); kv.second[0] = G;
                    }
                    if(r.chance(40)) std::ofstream(L.root+B.rel+"notes.txt") << "hello";
                    if(r.chance(30)) {const char* n[] = {"!first.png","zzz.png","mm.jpg"}; std::ofstream(L.root+B.rel+n[r.below(3)]) << "this is not an image";}
                    if(r.chance(20)) std::ofstream(L.root+B.rel+"zzzz.bmp");
                }
                if((std::is_same<D,Segm>::value || std::is_same<D,Coseg>::value) && r.chance(50) && L.scale==1)
                    for(size_t s=0; s<ns; ++s) {B.roi.push_back(rmask(r,ssz[s],{0,255,255})); cv::imwrite(gtroot+B.rel+"roi_"+std::to_string(s)+".png",B.roi.back());}
                B.cnt.resize(ns); B.err.resize(ns); B.dc.resize(ns);
                if(!gskip && !bskip) {L.inputs += np; L.batches.push_back(B);}
            }
        }
    }
    template<typename D> typename D::Ptr open(const Layout& L, bool save, bool eval) {
        return D::create(std::string("vh"),L.root,L.out,L.groups,L.skip,save,eval,L.align,L.scale);
    }
    template<typename D> struct Run {
        using WB = typename D::WorkBatch; using A = std::integral_constant<bool,Tr<D>::arr>;
        vh::Case& c; Layout& L; typename D::Ptr ds; bool save,eval; std::vector<WB*> wb;
        Run(vh::Case& c_, Layout& L_, bool save_, bool eval_) : c(c_),L(L_),ds(open<D>(L_,save_,eval_)),save(save_),eval(eval_) {map();}
        void map() { // batches on disk <-> batches of the dataset object
            const auto v = ds->getBatches(false);
            c.ck(v.size()==L.batches.size(),"batch count","dataset has ",v.size()," batches, directory tree has ",L.batches.size());
            wb.assign(L.batches.size(),nullptr);
            for(auto& p : v) {
                size_t k = 0; for(; k<L.batches.size() && L.batches[k].rel!=p->getRelativePath(); ++k);
                c.ck(k<L.batches.size() && !wb[k],"batch identity","unexpected or repeated batch '",p->getRelativePath(),"'");
                wb[k] = dynamic_cast<WB*>(p.get());
                c.ck(wb[k]!=nullptr && !p->isGroup() && p->getRoot()==ds,"batch identity","bad handler for '",p->getRelativePath(),"'");
                c.ck(p->getInputCount()==L.batches[k].in.size() && p->getGTCount()==L.batches[k].gt.size(),"packet count","batch '",p->getRelativePath(),"' has ",p->getInputCount()," inputs and ",p->getGTCount()," gt, expected ",L.batches[k].in.size()," and ",L.batches[k].gt.size());
            }
        }
        void packets(size_t k, size_t i, bool in, bool gt) {
            Batch& B = L.batches[k];
            if(in) {
                const auto v = getIn(*wb[k],i,A());
                c.ck(v.size()==B.in[i].size(),"input","batch ",B.rel," packet ",i," has ",v.size()," streams");
                for(size_t s=0; s<v.size(); ++s) c.ck(cg::sameBits(v[s],B.in[i][s]),"input","batch ",B.rel," packet ",i," stream ",s," is not what is on disk: ",cg::shape(v[s])," vs ",cg::shape(B.in[i][s])," precaching=",wb[k]->isPrecaching());
                c.stat("inputs_checked");
            }
            if(gt) {
                const auto v = getGt(*wb[k],i,A());
                c.ck(v.size()==B.cnt.size(),"gt","batch ",B.rel," gt packet ",i," has ",v.size()," streams");
                for(size_t s=0; s<v.size(); ++s) {
                    const cv::Mat e = B.gt.count(i)?B.gt[i][s]:cv::Mat();
                    c.ck(e.empty()?v[s].empty():cg::sameBits(v[s],e),"gt","batch ",B.rel," gt packet ",i," stream ",s," is not what is on disk: ",cg::shape(v[s])," vs ",cg::shape(e));
                }
                c.stat("gt_checked");
            }
        }
        static void expectAccum(Batch& B, size_t i, const std::vector<cv::Mat>& o) {
            for(size_t s=0; s<o.size(); ++s) {
                const cv::Mat g = B.gt.count(i)?B.gt[i][s]:cv::Mat(), roi = B.gt.count(i)&&!B.roi.empty()?B.roi[s]:cv::Mat();
                for(int y=0; y<o[s].rows; ++y) for(int x=0; x<o[s].cols; ++x) {
                    const int G = g.empty()?-1:g.at<uchar>(y,x), O = o[s].at<uchar>(y,x); const bool out = !roi.empty() && !roi.at<uchar>(y,x);
                    if(Tr<D>::stereo) {if(G<0 || G==255 || out) ++B.dc[s]; else B.err[s].push_back((float)std::abs(O-G));}
                    else if(G<0 || G==85 || G==170 || out) ++B.cnt[s].nDC;
                    else {
                        if(O==255) {if(G==255) ++B.cnt[s].nTP; else ++B.cnt[s].nFP;} else {if(G==255) ++B.cnt[s].nFN; else ++B.cnt[s].nTN;}
                        if(G==50 && O==255) ++B.cnt[s].nSE;
                    }
                }
            }
        }
        void doPush(size_t k, size_t i, Rng& r) {
            Batch& B = L.batches[k]; std::vector<cv::Mat> o;
            for(const auto& m : B.in[i]) o.push_back(Tr<D>::stereo?rmask(r,m.size(),{0,2,3,4,5,9}):r.chance(80)?rmask(r,m.size(),{0,255}):rmask(r,m.size(),{0,255,3}));
            std::vector<cv::Mat> keep; for(const auto& m : o) keep.push_back(m.clone());
            push(*wb[k],o,i,A());
            for(size_t s=0; s<o.size(); ++s) c.ck(cg::sameBits(o[s],keep[s]),"push","pushing an output modified it");
            B.counted.insert(i); if(eval) expectAccum(B,i,keep);
            if(save) {
                if(!Tr<D>::stereo && !B.roi.empty() && B.gt.count(i) && !Tr<D>::arr)
                    for(size_t s=0; s<keep.size(); ++s) {
                        bool bin = true; for(int y=0; y<keep[s].rows; ++y) for(int x=0; x<keep[s].cols; ++x) {const uchar v = keep[s].at<uchar>(y,x); bin &= v==0||v==255;}
                        if(bin) keep[s].setTo(127,B.roi[s]==0);
                    }
                B.saved[i] = keep;
            }
            c.stat("outputs_pushed");
        }
        void outputs(size_t k, size_t i) {
            Batch& B = L.batches[k];
            if(!B.saved.count(i)) return;
            const auto v = loadOut(*wb[k],i,A());
            c.ck(v.size()==B.saved[i].size(),"output","loaded ",v.size()," output streams");
            for(size_t s=0; s<v.size(); ++s) c.ck(cg::sameBits(v[s],B.saved[i][s]),"output","batch ",B.rel," output ",i," stream ",s," was not saved/loaded identically: ",cg::shape(v[s]));
            c.stat("outputs_reloaded");
        }
        template<typename H> void metricsOf(const H& h, const std::vector<const Batch*>& bs, const std::string& what) {
            typedef lv::MetricRetriever_<Tr<D>::ev,lv::Dataset_Custom> MR;
            const MR* mr = dynamic_cast<const MR*>(&h);
            c.ck(mr!=nullptr,"metrics","no metrics for ",what);
            check(mr->getMetricsBase(),bs,what,std::integral_constant<int,Tr<D>::stereo?2:Tr<D>::arr?1:0>());
            c.stat("metrics_checked");
        }
        void check(lv::IIMetricsAccumulatorConstPtr p, const std::vector<const Batch*>& bs, const std::string& w, std::integral_constant<int,0>) {
            lv::BinClassif e; for(auto b : bs) e.accumulate(b->cnt[0]);
            const auto& m = dynamic_cast<const lv::BinClassifMetricsAccumulator&>(*p).m_oCounters;
            c.ck(m.isEqual(e),"metrics",w,": tp=",m.nTP," tn=",m.nTN," fp=",m.nFP," fn=",m.nFN," dc=",m.nDC,", expected tp=",e.nTP," tn=",e.nTN," fp=",e.nFP," fn=",e.nFN," dc=",e.nDC);
        }
        void check(lv::IIMetricsAccumulatorConstPtr p, const std::vector<const Batch*>& bs, const std::string& w, std::integral_constant<int,1>) {
            const auto& m = dynamic_cast<const lv::BinClassifMetricsArrayAccumulator&>(*p).m_vCounters;
            for(size_t s=0; s<STREAMS; ++s) {
                lv::BinClassif e; for(auto b : bs) e.accumulate(b->cnt[s]);
                c.ck(m.empty()?e.total(true)==0:(m.size()==STREAMS && m[s].isEqual(e)),"metrics",w,": counters of stream ",s," are wrong");
            }
        }
        void check(lv::IIMetricsAccumulatorConstPtr p, const std::vector<const Batch*>& bs, const std::string& w, std::integral_constant<int,2>) {
            const auto& m = dynamic_cast<const lv::StereoDispMetricsAccumulator&>(*p).m_vErrorLists;
            for(size_t s=0; s<STREAMS; ++s) {
                std::vector<float> e; uint64_t n=0; for(auto b : bs) {e.insert(e.end(),b->err[s].begin(),b->err[s].end()); n+=b->dc[s];}
                if(m.empty()) {c.ck(e.empty() && n==0,"metrics",w,": no errors recorded"); continue;}
                auto g = m[s].vErrors; std::sort(g.begin(),g.end()); std::sort(e.begin(),e.end());
                c.ck(m.size()==STREAMS && g==e && m[s].nDC==n,"metrics",w,": errors of stream ",s," are wrong (",g.size(),"+",m[s].nDC," vs ",e.size(),"+",n,")");
            }
        }
        void totals() {
            size_t cur=0,inp=0,gt=0,load=0; bool proc=false; std::vector<const Batch*> all;
            for(size_t k=0; k<wb.size(); ++k) {
                const Batch& B = L.batches[k];
                c.ck(wb[k]->getCurrentOutputCount()==B.counted.size(),"count","batch ",B.rel," counted ",wb[k]->getCurrentOutputCount()," outputs, ",B.counted.size()," were pushed");
                c.ck(wb[k]->isProcessing()==B.processing,"state","batch ",B.rel," processing=",wb[k]->isProcessing());
                cur += B.counted.size(); inp += B.in.size(); gt += B.gt.size(); load += wb[k]->getExpectedLoadSize(); proc |= B.processing; all.push_back(&B);
                if(eval) metricsOf(*wb[k],{&B},"batch "+B.rel);
            }
            c.ck(ds->getCurrentOutputCount()==cur && ds->getInputCount()==inp && ds->getGTCount()==gt && ds->getExpectedOutputCount()==gt && ds->getExpectedLoadSize()==load,"totals","dataset totals are ",ds->getCurrentOutputCount(),"/",ds->getInputCount(),"/",ds->getGTCount(),"/",ds->getExpectedOutputCount(),"/",ds->getExpectedLoadSize()," expected ",cur,"/",inp,"/",gt,"/",gt,"/",load);
            c.ck(ds->isProcessing()==proc,"state","dataset processing=",ds->isProcessing());
            for(const auto& g : ds->getBatches(true)) {
                size_t gc=0,gi=0; std::vector<const Batch*> v;
                for(const auto& B : L.batches) if(B.group==g->getName()) {gc+=B.counted.size(); gi+=B.in.size(); v.push_back(&B);}
                c.ck(g->isGroup() && g->getCurrentOutputCount()==gc && g->getInputCount()==gi && g->isBare()==L.groupBare[g->getName()],"totals","group ",g->getName()," totals are ",g->getCurrentOutputCount(),"/",g->getInputCount()," expected ",gc,"/",gi);
                if(eval && !v.empty()) metricsOf(*g,v,"group "+g->getName());
            }
            if(eval) metricsOf(*ds,all,"dataset");
        }
        typedef std::vector<double> Vals;
        static Vals vals(const Batch& B, size_t s) { // the columns of a report row
            if(Tr<D>::stereo) {lv::StereoDispErrors e; e.vErrors = B.err[s]; const lv::StereoDispErrorMetrics m(e); return {m.dBadPercent_05,m.dBadPercent_1,m.dBadPercent_2,m.dBadPercent_4,m.dAverageError,m.dRMS};}
            const lv::BinClassifMetrics m(B.cnt[s]); return {m.dRecall,m.dSpecificity,m.dFPR,m.dFNR,m.dPBC,m.dPrecision,m.dFMeasure,m.dMCC};
        }
        static Vals mean(const std::vector<Vals>& v) {Vals r(v[0].size()); for(const auto& x : v) for(size_t i=0; i<r.size(); ++i) r[i] += x[i]; for(auto& x : r) x /= v.size(); return r;}
        struct Row {std::string name,stream; Vals v;};
        struct Node {std::string name; bool leaf=false,listed=false; size_t packets=0; double secs=0; bool busy=false; std::vector<const Batch*> done; std::vector<Node> sub; std::string file;};
        Node node(const lv::IDataHandler& h) {
            Node n; n.name = h.getName(); n.leaf = !h.isGroup(); n.listed = h.isGroup() && !h.isBare(); n.busy = h.isProcessing(); n.file = h.getOutputPath()+(h.isRoot()?"":"../")+h.getName()+".txt";
            if(n.leaf) {
                size_t k = 0; for(; k<wb.size() && static_cast<const lv::IDataHandler*>(wb[k])!=&h; ++k);
                c.ck(k<wb.size(),"batch identity","an unknown batch '",h.getName(),"' is listed");
                n.packets = L.batches[k].counted.size(); if(n.packets) n.done.push_back(&L.batches[k]);
                n.secs = h.getCurrentProcessTime();
            }
            else for(const auto& b : h.getBatches(true)) {n.sub.push_back(node(*b)); n.packets += n.sub.back().packets; n.secs += n.sub.back().secs; for(auto d : n.sub.back().done) n.done.push_back(d);}
            return n;
        }
        void rows(const Node& n, size_t indent, int kind, std::vector<Row>& out) { // one row per processed batch and group below, and one for the element itself: averages over the processed batches
            if(!n.packets) return;
            if(n.listed) for(const auto& x : n.sub) rows(x,indent+1,kind,out);
            const std::string nm = std::string(indent,'>')+' '+n.name; std::vector<Vals> all;
            if(kind==0) {out.push_back({nm,"",{(double)n.packets,n.secs,n.packets/n.secs}}); if(n.busy) out.back().v.resize(1); return;}
            for(size_t s=0; s<n.done[0]->cnt.size(); ++s) {
                std::vector<Vals> v; for(auto b : n.done) v.push_back(vals(*b,s));
                all.push_back(mean(v)); if(kind==1) out.push_back({nm,Tr<D>::arr?"s"+std::to_string(s):"",all.back()});
            }
            if(kind==2) out.push_back({nm,"all:reduced",mean(all)});
        }
        static std::string trim(const std::string& s) {const size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" "); return a==std::string::npos?"":s.substr(a,b-a+1);}
        void reportFile(const Node& n) {
            std::ifstream f(n.file); std::stringstream ss; ss << f.rdbuf(); const std::string t = ss.str();
            c.ck(!t.empty(),"report","no report was written for '",n.name,"'");
            std::vector<Row> want; if(!eval) rows(n,0,0,want); else {rows(n,0,1,want); if(Tr<D>::arr) rows(n,0,2,want);}
            std::istringstream is(t); std::string line; std::vector<Row> got; size_t count=SIZE_MAX; double hz=-1; bool header=true;
            while(std::getline(is,line)) {
                if(line.compare(0,7,"Count: ")==0) count = (size_t)atoll(line.c_str()+7);
                if(line.compare(0,4,"Hz: ")==0) hz = atof(line.c_str()+4);
                if(std::count(line.begin(),line.end(),'|')<3) continue;
                if(line.find("-----|")!=std::string::npos) {header = false; continue;}
                if(header) continue;
                std::vector<std::string> cells; std::istringstream ls(line); std::string cell; while(std::getline(ls,cell,'|')) cells.push_back(trim(cell));
                Row w; w.name = cells[0]; size_t k = 1; if(eval && Tr<D>::arr) {w.stream = cells[1]; k = 3;}
                for(; k<cells.size(); ++k) w.v.push_back(atof(cells[k].c_str()));
                got.push_back(w);
            }
            c.ck(got.size()==want.size(),"report","the report of '",n.name,"' has ",got.size()," rows instead of ",want.size(),":\n",t);
            for(size_t k=0; k<got.size(); ++k) {
                const Row& g = got[k], &w = want[k];
                if(w.name.size()<=12) c.ck(g.name==trim(w.name),"report","row ",k," of '",n.name,"' is named '",g.name,"' instead of '",trim(w.name),"':\n",t);
                c.ck(g.stream==w.stream && g.v.size()>=w.v.size(),"report","row ",k," of '",n.name,"' lists stream '",g.stream,"' instead of '",w.stream,"':\n",t);
                for(size_t i=0; i<w.v.size(); ++i) if(!(eval==false && i==2 && !(w.v[1]>1e-7)))
                    c.ck(std::abs(g.v[i]-w.v[i])<2e-6+1e-6*std::abs(w.v[i]),"report","row ",k," of '",n.name,"' lists ",g.v[i]," instead of ",w.v[i]," in column ",i,":\n",t);
                c.stat("report_rows");
            }
            if(eval) {
                c.ck(count==n.packets,"report","report of '",n.name,"' does not list ",n.packets," outputs:\n",t);
                if(!n.busy && n.secs>1e-7) c.ck(std::abs(hz-n.packets/n.secs)<2e-6+1e-5*n.packets/n.secs,"report","report of '",n.name,"' lists ",hz," Hz for ",n.packets," outputs in ",n.secs," s:\n",t);
            }
        }
        void reportFiles(const Node& n) {
            if(!n.packets) return;
            if(n.listed || n.leaf) reportFile(n);
            for(const auto& x : n.sub) reportFiles(x);
        }
        void report() {
            ds->writeEvalReport();
            const Node n = node(*ds);
            c.ck(n.name=="vh" && n.file==L.out+"vh.txt","report","the report of the dataset would go to '",n.file,"'");
            reportFiles(n); if(n.packets) c.stat("reports_checked");
        }
    };
    template<typename D> void history(vh::Case& c) {
        Rng& r = c.rng; Layout L; build<D>(c,L,6);
        const bool save = r.chance(70), eval = r.chance(75);
        c.desc(vh::str(typeid(D).name()," batches=",L.batches.size()," packets=",L.inputs," save=",save," eval=",eval," scale=",L.scale," align=",L.align));
        {
            Run<D> R(c,L,save,eval);
            const size_t ops = L.batches.empty()?1:10+r.below(60); uint64_t h=0; size_t starts=0;
            for(size_t o=0; o<ops && !L.batches.empty(); ++o) {
                const size_t k = r.below(L.batches.size()); Batch& B = L.batches[k]; auto& b = *R.wb[k]; const size_t i = r.below(B.in.size());
                const int op = (int)r.below(20); h = vh::mix(h,op*1000+k*40+i);
                switch(op) {
                    case 0: b.startPrecaching(r.chance(50),r.chance(30)?SIZE_MAX:1+r.below(100000)); break;
                    case 1: b.stopPrecaching(); break;
                    case 2: if(r.chance(30)) R.ds->startPrecaching(r.chance(50)); else if(r.chance(50)) R.ds->stopPrecaching(); break;
                    case 3: case 4: case 5:
                        if(!B.processing) {b.startProcessing(); B.processing = true; B.counted.clear(); ++starts;}
                        else {const size_t n = B.counted.size(); b.stopProcessing(); B.processing = false;
                            c.ck(b.getFinalOutputCount()==n && b.getFinalOutputCount()==n,"count","final output count of ",B.rel," is ",b.getFinalOutputCount(),", expected ",n);
                            c.ck(!b.isPrecaching(),"state","still precaching after processing stopped"); c.ck(b.getFinalProcessTime()>=0,"state","bad process time");}
                        break;
                    case 6: if(r.chance(50)) {
                            if(r.chance(70)) {b.resetMetrics(); B.counted.clear(); B.cnt.assign(B.cnt.size(),lv::BinClassif()); for(auto& e : B.err) e.clear(); for(auto& d : B.dc) d = 0;}
                            else {R.ds->resetMetrics(); for(auto& X : L.batches) {X.counted.clear(); X.cnt.assign(X.cnt.size(),lv::BinClassif()); for(auto& e : X.err) e.clear(); for(auto& d : X.dc) d = 0;}}
                        } break;
                    case 7: case 8: R.packets(k,i,true,false); break;
                    case 9: R.packets(k,i,false,true); break;
                    case 10: case 11: R.packets(k,i,true,true); R.packets(k,(i+1)%B.in.size(),true,true); break;
                    case 12: for(size_t j=0; j<B.in.size(); ++j) R.packets(k,j,true,r.chance(50)); break;
                    case 13: R.totals(); break;
                    case 14: R.outputs(k,i); break;
                    case 15: if(!B.processing) {bool thrown=false; try {push(b,B.in[i],i,typename Run<D>::A());} catch(const std::exception&) {thrown=true;} c.ck(thrown,"push","output accepted while not processing");} break;
                    default: if(B.processing) R.doPush(k,i,r);
                }
            }
            R.totals();
            for(size_t k=0; k<L.batches.size(); ++k) for(size_t i=0; i<L.batches[k].in.size(); ++i) R.outputs(k,i);
            R.report();
            c.stat("starts",starts);
            if(starts>1) c.nontrivial(h);
            // the dataset object may be destroyed while processing or precaching
        }
        if(save && !L.batches.empty()) { // outputs stay available to another dataset object
            Run<D> R2(c,L,false,false);
            for(size_t k=0; k<L.batches.size(); ++k) for(size_t i=0; i<L.batches[k].in.size(); ++i) R2.outputs(k,i);
        }
        fs::remove_all(c.workdir()+"/ds"+std::to_string(c.idx));
    }
}
SCENARIO("segm",40,600) {history<Segm>(c);}
SCENARIO("edges",40,600) {history<Edge>(c);}
SCENARIO("coseg",30,500) {history<Coseg>(c);}
SCENARIO("stereo",30,500) {history<Stereo>(c);}

SCENARIO("features",40,600) {
    Rng& r = c.rng; Layout L; build<Stereo>(c,L,6);
    if(L.batches.empty()) return;
    Run<Stereo> R(c,L,false,false);
    // features (any matrix) are saved once, then read back in any order, packed or as arrays, synchronous or precached
    for(size_t k=0; k<L.batches.size(); ++k) for(size_t i=0; i<L.batches[k].in.size(); ++i) if(r.chance(80)) {
        std::vector<cv::Mat> v; for(size_t n=1+r.below(4); n>0; --n) v.push_back(r.chance(10)?cv::Mat():rimg(r,rsz(r),(int)r.below(3)==0?CV_32FC1:r.chance(50)?CV_8UC3:CV_16SC1));
        bool any=false; for(auto& m : v) any |= !m.empty();
        if(!any) continue;
        std::vector<lv::MatInfo> info; R.wb[k]->saveFeaturesArray(i,v,&info); L.batches[k].featArr[i] = {v,info};
        c.ck(info.size()==v.size(),"features","packing info lists ",info.size()," of ",v.size()," matrices");
    }
    if(r.chance(50)) R.ds->startPrecaching(false);
    uint64_t h=0;
    for(size_t o=0; o<40; ++o) {
        const size_t k = r.below(L.batches.size()); Batch& B = L.batches[k]; const size_t i = r.below(B.in.size()); h = vh::mix(h,k*50+i);
        if(r.chance(10)) {if(r.chance(50)) R.wb[k]->startPrecaching(false); else R.wb[k]->stopPrecaching();}
        if(r.chance(40)) {
            const cv::Mat p = R.wb[k]->loadFeatures(i);
            const cv::Mat e = B.featArr.count(i)?lv::packData(B.featArr[i].first):cv::Mat();
            c.ck(e.empty()?p.empty():cg::bytes(p)==cg::bytes(e),"features","packed features of ",B.rel," packet ",i," differ: ",cg::shape(p)," vs ",cg::shape(e));
        }
        if(B.featArr.count(i) && r.chance(70)) {
            const auto v = R.wb[k]->loadFeaturesArray(i,B.featArr[i].second);
            const auto& e = B.featArr[i].first;
            c.ck(v.size()==e.size(),"features","features of ",B.rel," packet ",i," have ",v.size()," matrices, not ",e.size());
            for(size_t s=0; s<e.size(); ++s) c.ck(e[s].empty()?v[s].empty():cg::sameBits(v[s],e[s]),"features","features of ",B.rel," packet ",i," matrix ",s," differ: ",cg::shape(v[s])," vs ",cg::shape(e[s]));
            c.stat("features_checked");
        }
    }
    c.nontrivial(h);
    fs::remove_all(c.workdir()+"/ds"+std::to_string(c.idx));
}

SCENARIO("missing",30,400) { // an input which disappears after parsing is reported; the other packets stay available
    Rng& r = c.rng; Layout L; L.skip.clear(); build<Edge>(c,L,6);
    if(L.batches.empty()) return;
    Run<Edge> R(c,L,false,false);
    const size_t k = r.below(L.batches.size()); Batch& B = L.batches[k];
    const size_t bad = r.below(B.in.size());
    for(auto& e : fs::directory_iterator(L.root+B.rel)) if(e.path().stem().string()==B.names[bad]) {fs::remove(e.path()); break;}
    const bool pre = r.chance(70); if(pre) R.wb[k]->startPrecaching(r.chance(50),r.chance(50)?SIZE_MAX:1);
    size_t errors=0; uint64_t h=bad;
    for(size_t o=0; o<30; ++o) {
        const size_t i = r.below(B.in.size()); h = vh::mix(h,i); cv::Mat m; bool thrown=false;
        try {m = R.wb[k]->getInput(i);} catch(const std::exception&) {thrown=true; ++errors;}
        if(i==bad) c.ck(thrown,"missing","packet ",i," was deleted but an input ",cg::shape(m)," was returned");
        else if(thrown) { // the precaching thread ran into the missing file: reported once, then direct loading resumes
            c.ck(pre,"missing","packet ",i," exists but could not be loaded");
            m = R.wb[k]->getInput(i);
        }
        if(i!=bad) c.ck(cg::sameBits(m,B.in[i][0]),"missing","packet ",i," is wrong after packet ",bad," disappeared");
    }
    try {R.wb[k]->stopPrecaching();} catch(const std::exception&) {++errors;}
    c.stat("errors_reported",errors); if(errors) c.nontrivial(h);
    fs::remove_all(c.workdir()+"/ds"+std::to_string(c.idx));
}

namespace {
    template<typename D> void unsaved(vh::Case& c) { // the output directory goes away for a while: a push that cannot be saved says so, the others stay saved
        Rng& r = c.rng; Layout L; L.skip.clear(); build<D>(c,L,6);
        if(L.batches.empty()) return;
        c.desc(vh::str("unsaved ",typeid(D).name()," batches=",L.batches.size()," packets=",L.inputs));
        {
            Run<D> R(c,L,true,r.chance(50)); const size_t k = r.below(L.batches.size()); Batch& B = L.batches[k]; const std::string dir = L.out+B.rel.substr(0,B.rel.size()-1), away = L.out+"away_"+std::to_string(k);
            R.wb[k]->startProcessing(); B.processing = true; bool gone=false; size_t lost=0; uint64_t h=k;
            for(size_t o=0; o<12; ++o) {
                if(r.chance(35)) {if(gone) fs::rename(away,dir); else fs::rename(dir,away); gone = !gone;}
                const size_t i = r.below(B.in.size()); h = vh::mix(h,i*2+gone);
                if(!gone) {R.doPush(k,i,r); continue;}
                std::vector<cv::Mat> v; for(const auto& m : B.in[i]) v.push_back(rmask(r,m.size(),{0,255})); bool thrown=false;
                try {push(*R.wb[k],v,i,typename Run<D>::A());} catch(const std::exception&) {thrown=true;}
                c.ck(thrown,"unsaved","output ",i," of batch ",B.rel," could not be saved, but was accepted silently"); ++lost;
            }
            if(gone) fs::rename(away,dir);
            for(size_t i=0; i<B.in.size(); ++i) R.outputs(k,i);
            R.wb[k]->stopProcessing(); c.stat("unsaved_reported",lost); if(lost) c.nontrivial(h);
        }
        fs::remove_all(c.workdir()+"/ds"+std::to_string(c.idx));
    }
}
SCENARIO("unsaved",24,300) {if(c.idx%4==0) unsaved<Segm>(c); else if(c.idx%4==1) unsaved<Edge>(c); else if(c.idx%4==2) unsaved<Coseg>(c); else unsaved<Stereo>(c);}

namespace {
    template<typename D> void parallel(vh::Case& c) { // one thread per batch, as the applications do
        Rng& r = c.rng; Layout L; build<D>(c,L,6);
        if(L.batches.empty()) return;
        c.desc(vh::str("parallel ",typeid(D).name()," batches=",L.batches.size()," packets=",L.inputs));
        {
            Run<D> R(c,L,true,true);
            vh::JitterScope js((int)r.below(3),0,r.u64());
            const bool pre = r.chance(70); if(pre) R.ds->startPrecaching(r.chance(50));
            std::vector<std::thread> th; std::vector<std::string> errs(L.batches.size()); std::vector<uint64_t> seeds; for(size_t k=0; k<L.batches.size(); ++k) seeds.push_back(r.u64());
            std::vector<std::vector<std::vector<cv::Mat>>> outs(L.batches.size());
            for(size_t k=0; k<L.batches.size(); ++k) th.emplace_back([&,k](){
                try {
                    Rng q(seeds[k]); auto& b = *R.wb[k]; Batch& B = L.batches[k];
                    b.startProcessing();
                    for(size_t i=0; i<B.in.size(); ++i) {
                        const auto v = getIn(b,i,typename Run<D>::A());
                        for(size_t s=0; s<v.size(); ++s) if(!cg::sameBits(v[s],B.in[i][s])) errs[k] = vh::str("packet ",i," stream ",s," differs");
                        std::vector<cv::Mat> o; for(const auto& m : B.in[i]) o.push_back(Tr<D>::stereo?rmask(q,m.size(),{0,2,3,4,9}):rmask(q,m.size(),{0,255}));
                        push(b,o,i,typename Run<D>::A()); outs[k].push_back(o);
                    }
                    b.stopProcessing();
                    if(b.getFinalOutputCount()!=B.in.size()) errs[k] = vh::str("final count ",b.getFinalOutputCount());
                } catch(const std::exception& e) {errs[k] = e.what();}
            });
            for(auto& t : th) t.join();
            for(size_t k=0; k<L.batches.size(); ++k) {
                c.ck(errs[k].empty(),"parallel","batch ",L.batches[k].rel,": ",errs[k]);
                for(size_t i=0; i<outs[k].size(); ++i) {
                    L.batches[k].counted.insert(i); Run<D>::expectAccum(L.batches[k],i,outs[k][i]);
                    if(L.batches[k].roi.empty() || !L.batches[k].gt.count(i) || Tr<D>::arr) L.batches[k].saved[i] = outs[k][i];
                }
            }
            R.totals(); R.report();
            for(size_t k=0; k<L.batches.size(); ++k) for(size_t i=0; i<L.batches[k].in.size(); ++i) R.outputs(k,i);
            if(L.batches.size()>1) c.nontrivial(vh::mix(L.inputs,seeds[0]));
            c.stat("parallel_batches",L.batches.size());
        }
        fs::remove_all(c.workdir()+"/ds"+std::to_string(c.idx));
    }
}
SCENARIO("parallel",24,300) {if(c.idx%3==0) parallel<Segm>(c); else if(c.idx%3==1) parallel<Edge>(c); else parallel<Stereo>(c);}
VH_MAIN
