// C26: the built-in dataset loaders present what is on disk: one batch per sequence, every input packet, the right
// ground truth for every packet, the right region of interest, disparity ranges and output names -- and they refuse
// layouts with missing or inconsistent pieces. The harness writes miniature datasets (its own model of the layout),
// loads them through lv::datasets::create, and compares every packet with what it wrote.
#include "litiv/datasets.hpp"
#include "vh.hpp"
#include "cvgen.hpp"
#include <experimental/filesystem>
#include <fstream>
#include <opencv2/videoio.hpp>
namespace fs = std::experimental::filesystem;
using vh::Rng;

namespace {
    void wr(const std::string& p, const cv::Mat& m) { // lossless content whatever the extension says: OpenCV reads by signature
        std::vector<uchar> b; const std::string e = p.substr(p.find_last_of('.'));
        cv::imencode((e==".bmp"||e==".BMP")?".bmp":".png",m,b,std::vector<int>{cv::IMWRITE_PNG_COMPRESSION,1});
        std::ofstream f(p,std::ios::binary); f.write((const char*)b.data(),(std::streamsize)b.size());
    }
    std::string num(const char* f, size_t n) {char b[64]; snprintf(b,sizeof(b),f,n); return b;}
    cv::Mat noise(Rng& r, cv::Size s, int t) {cv::Mat m(s,t); cg::fill(m,r,0); return m;}
    /// big image made of random blocks (cheap to encode)
    cv::Mat blocks(Rng& r, cv::Size s, int t, int step=40) {
        cv::Mat sm((s.height+step-1)/step,(s.width+step-1)/step,t); cg::fill(sm,r,0); cv::Mat m(s,t);
        for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x) memcpy(m.ptr(y)+(size_t)x*m.elemSize(),sm.ptr(y/step)+(size_t)(x/step)*m.elemSize(),m.elemSize());
        return m;
    }
    cv::Mat labels(Rng& r, cv::Size s, std::vector<uchar> v, int step=1) {
        cv::Mat m = blocks(r,s,CV_8UC1,step); for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x) m.at<uchar>(y,x) = v[m.at<uchar>(y,x)%v.size()];
        return m;
    }
    cv::Mat mask(const cv::Mat& m, int thr) {cv::Mat o(m.size(),CV_8UC1); for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) o.at<uchar>(y,x) = m.at<uchar>(y,x)>thr?255:0; return o;}
    cv::Mat nearest(const cv::Mat& m, cv::Size s) {cv::Mat o; if(m.size()==s) return m.clone(); cv::resize(m,o,s,0,0,cv::INTER_NEAREST); return o;}
    cv::Mat nearest(const cv::Mat& m, double f) {cv::Mat o; if(f==1.0) return m.clone(); cv::resize(m,o,cv::Size(),f,f,cv::INTER_NEAREST); return o;}
    cv::Mat gray(const cv::Mat& m) {if(m.channels()==1) return m; cv::Mat o; cv::cvtColor(m,o,cv::COLOR_BGR2GRAY); return o;}
    cv::Mat bgra(const cv::Mat& m) {cv::Mat o; cv::cvtColor(m,o,cv::COLOR_BGR2BGRA); return o;}
    cv::Mat flip(const cv::Mat& m) {cv::Mat o; cv::flip(m,o,1); return o;}
    bool same(const cv::Mat& a, const cv::Mat& b) {return a.empty()?b.empty():(a.size()==b.size()&&a.type()==b.type()&&cg::sameBits(a,b));}
    /// writes files in shuffled order (directory order must not matter)
    struct Files {
        std::vector<std::function<void()>> ops;
        void img(const std::string& p, const cv::Mat& m) {ops.push_back([p,m]{wr(p,m);});}
        void txt(const std::string& p, const std::string& s) {ops.push_back([p,s]{std::ofstream(p)<<s;});}
        void flush(Rng& r) {for(size_t i=ops.size(); i>1; --i) std::swap(ops[i-1],ops[r.below(i)]); for(auto& f : ops) f(); ops.clear();}
    };
    struct Root { // scratch dataset root, used for one case
        std::string p;
        explicit Root(vh::Case& c) {p = c.workdir()+"/root_"+std::to_string(c.idx)+"/"; fs::remove_all(p); fs::create_directories(p); lv::datasets::setRootPath(p); lv::setVerbosity(0);}
        ~Root() {std::error_code e; fs::remove_all(p,e);}
        std::string dir(const std::string& s) {fs::create_directories(p+s); return p+s;}
    };
    template<typename D> std::map<std::string,std::shared_ptr<typename D::WorkBatch>> leaves(const std::shared_ptr<D>& ds, size_t& n) {
        std::map<std::string,std::shared_ptr<typename D::WorkBatch>> o; n = 0;
        for(auto& b : ds->getBatches(false)) {auto w = std::dynamic_pointer_cast<typename D::WorkBatch>(b); ++n; if(w) o[w->getRelativePath()] = w;}
        return o;
    }
    std::vector<size_t> order(Rng& r, size_t n) { // random visiting order, with some revisits
        std::vector<size_t> v; for(size_t i=0; i<n; ++i) v.push_back(i);
        if(r.chance(0.5)) for(size_t i=n; i>1; --i) std::swap(v[i-1],v[r.below(i)]);
        if(n && r.chance(0.5)) v.push_back(r.below(n));
        return v;
    }
    template<typename F> bool refused(F f) {try {f();} catch(const lv::Exception&) {return true;} catch(const cv::Exception&) {return true;} catch(const std::exception&) {return true;} return false;}
    const std::vector<double> scales = {1.0,1.0,1.0,0.5,2.0,0.75,1.5};

    struct Seq {std::vector<cv::Mat> in; std::map<size_t,cv::Mat> gt; cv::Mat roi; bool grayCat=false; cv::Size sz;};
    /// compares one single-stream batch with the sequence it was loaded from
    template<typename B> void checkSeq(vh::Case& c, const std::string& what, B& b, const Seq& s, bool align, double scale, bool prec) {
        c.ck(b.getInputCount()==s.in.size(),"packet-count",what," holds ",s.in.size()," frames, loader says ",b.getInputCount());
        c.ck(b.getGTCount()==s.gt.size(),"gt-count",what," holds ",s.gt.size()," gt images, loader says ",b.getGTCount());
        const cv::Mat roi = nearest(s.roi,scale);
        if(prec) b.startPrecaching(false);
        for(size_t i : order(c.rng,s.in.size())) {
            cv::Mat e = s.grayCat?gray(s.in[i]):s.in[i]; if(align && !s.grayCat) e = bgra(e);
            e = nearest(e,roi.size());
            const cv::Mat g = b.getInput(i).clone();
            c.ck(same(g,e),"input-packet",what," packet ",i," of ",s.in.size()," is not frame ",i,": got ",cg::shape(g)," want ",cg::shape(e)," scale=",scale);
            const cv::Mat gt = b.getGT(i).clone(); const auto it = s.gt.find(i);
            c.ck(same(gt,it==s.gt.end()?cv::Mat():nearest(gray(it->second),roi.size())),"gt-packet",what," gt of packet ",i,it==s.gt.end()?" (has none)":""," wrong: got ",cg::shape(gt)," scale=",scale);
            c.ck(same(static_cast<const lv::IIDataLoader&>(b).getInputROI(i),roi),"roi",what," input roi of packet ",i," wrong");
            c.stat("packets"); if(it!=s.gt.end()) c.stat("gt_packets");
            if(it!=s.gt.end()) c.ck(same(static_cast<const lv::IIDataLoader&>(b).getGTROI(i),roi),"roi",what," gt roi of packet ",i," wrong");
        }
        if(prec) b.stopPrecaching();
        c.ck(b.getInput(s.in.size()).empty() && b.getGT(s.in.size()).empty(),"past-end",what," returned data past the last frame");
    }
}

SCENARIO("cdnet",60,600) {
    Root R(c); Rng& r = c.rng;
    const bool v14 = r.chance(0.6), align = r.chance(0.4), save = r.chance(0.5); const double scale = r.pick(scales); const bool prec = r.chance(0.4);
    const std::vector<std::string> cats = v14?std::vector<std::string>{"badWeather","baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","lowFramerate","nightVideos","PTZ","shadow","thermal","turbulence"}
        :std::vector<std::string>{"baseline","cameraJitter","dynamicBackground","intermittentObjectMotion","shadow","thermal"};
    const std::string base = R.dir(v14?"CDNet2014/dataset/":"CDNet/dataset/");
    std::map<std::string,Seq> seqs; Files F;
    // damage: 0 none, then one way in which a single sequence is incomplete
    const int damage = r.chance(0.3)?(int)r.range(1,6):0; const size_t victim = r.below(cats.size());
    for(size_t k=0; k<cats.size(); ++k) {
        const size_t ns = 1+(r.chance(0.3)?r.range(1,2):0);
        for(size_t q=0; q<ns; ++q) {
            const std::string rel = cats[k]+"/"+r.pick(std::vector<std::string>{"highway","office","PETS2006","canoe","zoom","a b","x"})+std::to_string(q)+"/";
            const std::string d = R.dir((v14?"CDNet2014/dataset/":"CDNet/dataset/")+rel);
            Seq s; s.sz = cv::Size((int)r.range(8,40),(int)r.range(8,30)); s.grayCat = cats[k]=="thermal"||cats[k]=="turbulence";
            const bool grayFiles = s.grayCat && r.chance(0.5);
            const int pad = r.chance(0.2)?(int)r.range(1,2):0; // some real sequences have a ROI.bmp larger than the frames
            cv::Mat roi = labels(r,cv::Size(s.sz.width+pad,s.sz.height+pad),{0,0,1,128,255});
            s.roi = mask(roi(cv::Rect(0,0,s.sz.width,s.sz.height)),0);
            const size_t n = r.range(1,5);
            const int dm = (k==victim&&q==0)?damage:0;
            if(dm!=1) fs::create_directories(d+"input"); if(dm!=2) fs::create_directories(d+"groundtruth");
            for(size_t i=0; i<n; ++i) {
                s.in.push_back(noise(r,s.sz,grayFiles?CV_8UC1:CV_8UC3));
                s.gt[i] = labels(r,s.sz,{0,50,85,170,255});
                if(dm!=1) F.img(d+"input/"+num("in%06zu",i+1)+".jpg",s.in[i]);
                if(dm!=2 && !(dm==3 && i+1==n)) F.img(d+"groundtruth/"+num("gt%06zu",i+1)+".png",s.gt[i]);
            }
            if(dm!=4) F.img(d+"ROI.bmp",roi); if(dm!=5) F.img(d+"ROI.jpg",noise(r,s.sz,CV_8UC3));
            if(r.chance(0.5)) F.txt(d+"temporalROI.txt","1 "+std::to_string(n));
            if(dm==6) F.img(d+"input/"+num("in%06zu",n+1)+".jpg",s.in[0]); // one input more than gt
            seqs[rel] = s;
        }
    }
    F.flush(r);
    c.desc(vh::str("cdnet",v14?2014:2012," seqs=",seqs.size()," align=",align," scale=",scale," save=",save," prec=",prec," damage=",damage));
    using D = lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel>;
    const auto make = [&]{return lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_CDnet,lv::NonParallel>("out",save,true,align,scale,v14);};
    if(damage) {c.ck(refused(make),"bad-layout-accepted","a CDnet sequence with damage ",damage," was accepted"); c.stat("refusals"); c.nontrivial(vh::str("damage",damage,v14)); return;}
    std::shared_ptr<D> ds = make(); size_t n; auto L = leaves<D>(ds,n);
    c.ck(n==seqs.size() && L.size()==n,"batches",n," batches for ",seqs.size()," sequences");
    for(auto& kv : seqs) {
        auto it = L.find(kv.first); c.ck(it!=L.end(),"batches","no batch for sequence ",kv.first); if(it==L.end()) continue;
        auto& b = *it->second;
        c.ck(kv.first.find("/"+b.getName()+"/")!=std::string::npos,"batch-name",b.getName()," is not the name of ",kv.first);
        c.ck(b.getDataPath()==base+kv.first,"data-path",b.getDataPath()," instead of ",base+kv.first);
        checkSeq(c,kv.first,b,kv.second,align,scale,prec);
        if(!save) continue;
        // archived results follow the naming of the dataset's own tools
        const cv::Size sz = nearest(kv.second.roi,scale).size(); std::vector<cv::Mat> out;
        b.startProcessing();
        for(size_t i=0; i<kv.second.in.size(); ++i) {out.push_back(labels(r,sz,{0,255})); b.push(out[i],i);}
        b.stopProcessing();
        for(size_t i=0; i<out.size(); ++i) {
            out[i].setTo(cv::Scalar(127),nearest(kv.second.roi,scale)==0); // archived masks are grayed out outside the region of interest
            const std::string p = R.p+(v14?"CDNet2014/":"CDNet/")+"results/out/"+kv.first+num("bin%06zu.png",i+1);
            c.ck(fs::exists(p) && same(cv::imread(p,cv::IMREAD_UNCHANGED),out[i]),"output-name","result of packet ",i," not archived as ",p); c.stat("archived");
        }
    }
    c.nontrivial(vh::str(v14,align,scale,save,prec));
}

SCENARIO("wallflower",60,600) {
    Root R(c); Rng& r = c.rng;
    const bool align = r.chance(0.4), prec = r.chance(0.4); const double scale = r.pick(scales);
    std::map<std::string,Seq> seqs; Files F;
    R.dir("Wallflower/dataset/"); const size_t ns = r.range(1,4), victim = r.below(ns); const int damage = r.chance(0.3)?(int)r.range(1,5):0;
    const char* names[] = {"Bootstrap","Camouflage","ForegroundAperture","LightSwitch","MovedObject","TimeOfDay","WavingTrees"};
    for(size_t q=0; q<ns; ++q) {
        const std::string rel = std::string(names[q])+"/", d = R.dir("Wallflower/dataset/"+rel); const int dm = q==victim?damage:0;
        Seq s; s.sz = cv::Size((int)r.range(8,40),(int)r.range(8,30)); s.roi = cv::Mat(s.sz,CV_8UC1,cv::Scalar(255));
        const size_t n = r.range(1,14), g = r.below(n);
        for(size_t i=0; i<n; ++i) {s.in.push_back(noise(r,s.sz,CV_8UC3)); if(dm!=3) F.img(d+num("b%05zu.bmp",i),s.in[i]);}
        cv::Mat gt = labels(r,s.sz,{0,255}); s.gt[g] = gt; if(r.chance(0.5)) cv::cvtColor(gt,gt,cv::COLOR_GRAY2BGR);
        if(dm!=1) F.img(d+num("hand_segmented_%05zu.BMP",g),gt);
        if(dm!=2) F.txt(d+"script.txt","script");
        if(dm==4) F.txt(d+"notes.txt","x"); if(r.chance(0.3)) F.txt(d+"Thumbs.db","x"); // (thumbnail caches are ignored)
        if(dm==5) F.img(d+num("hand_segmented_%05zu.BMP",(g+1)%(n+1)),gt);
        seqs[rel] = s;
    }
    F.flush(r);
    c.desc(vh::str("wallflower seqs=",ns," align=",align," scale=",scale," prec=",prec," damage=",damage));
    using D = lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_Wallflower,lv::NonParallel>;
    const auto make = [&]{return lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_Wallflower,lv::NonParallel>("out",false,true,align,scale);};
    if(damage) {c.ck(refused(make),"bad-layout-accepted","a Wallflower sequence with damage ",damage," was accepted"); c.stat("refusals"); c.nontrivial(vh::str("damage",damage)); return;}
    std::shared_ptr<D> ds; try {ds = make();} catch(const std::exception& e) {c.ck(false,"layout-refused","a complete Wallflower dataset was refused: ",std::string(e.what()).substr(0,300)); return;}
    size_t n; auto L = leaves<D>(ds,n);
    c.ck(n==seqs.size() && L.size()==n,"batches",n," batches for ",seqs.size()," sequences");
    for(auto& kv : seqs) {auto it = L.find(kv.first); c.ck(it!=L.end(),"batches","no batch for sequence ",kv.first); if(it!=L.end()) checkSeq(c,kv.first,*it->second,kv.second,align,scale,prec);}
    c.nontrivial(vh::str(ns,align,scale,prec));
}

SCENARIO("pets",40,400) {
    Root R(c); Rng& r = c.rng;
    const bool align = r.chance(0.4), prec = r.chance(0.3); const double scale = r.pick(scales); const int damage = r.chance(0.25)?(int)r.range(1,4):0;
    const std::string rel = "TESTING/CAMERA1/", d = R.dir("PETS2001/DATASET3/"+rel), gd = R.dir("PETS2001/DATASET3/"+rel+"GT/");
    Seq s; s.sz = cv::Size(16*(int)r.range(1,4),16*(int)r.range(1,3)); s.roi = cv::Mat(s.sz,CV_8UC1,cv::Scalar(255)); const size_t n = r.range(3,20);
    const std::string vid = d+"seq.avi";
    {
        cv::VideoWriter w(vid,cv::CAP_OPENCV_MJPEG,cv::VideoWriter::fourcc('M','J','P','G'),25,s.sz,true);
        c.ck(w.isOpened(),"harness","cannot write a test video"); if(!w.isOpened()) return;
        for(size_t i=0; i<n; ++i) {cv::Mat f(s.sz,CV_8UC3,cv::Scalar((double)(i*12),(double)(255-i*12),(double)((i*90)%256))); cv::circle(f,cv::Point((int)r.below((size_t)s.sz.width),(int)r.below((size_t)s.sz.height)),4,cv::Scalar(255,255,255),-1); w.write(f);}
    }
    {cv::VideoCapture v(vid); cv::Mat f; while(v.read(f)) s.in.push_back(f.clone());}
    c.ck(s.in.size()==n,"harness","test video has ",s.in.size()," frames"); if(s.in.size()!=n) return;
    Files F; const size_t ng = r.range(1,n);
    for(size_t k=0; k<ng; ++k) {const size_t i = r.below(n); s.gt[i] = labels(r,s.sz,{0,255});}
    for(auto& kv : s.gt) if(damage!=1) F.img(gd+num("image_%04zu.png",kv.first),kv.second);
    if(damage==2) F.txt(d+"other.txt","x");
    if(damage==3) fs::create_directories(d+"GT2");
    if(damage==4) {F.txt(vid,"not a video");}
    F.flush(r);
    c.desc(vh::str("pets frames=",n," gt=",s.gt.size()," align=",align," scale=",scale," prec=",prec," damage=",damage));
    using D = lv::Dataset_<lv::DatasetTask_Segm,lv::Dataset_PETS2001D3TC1,lv::NonParallel>;
    const auto make = [&]{return lv::datasets::create<lv::DatasetTask_Segm,lv::Dataset_PETS2001D3TC1,lv::NonParallel>("out",false,true,align,scale);};
    if(damage) {c.ck(refused(make),"bad-layout-accepted","a PETS sequence with damage ",damage," was accepted"); c.stat("refusals"); c.nontrivial(vh::str("damage",damage)); return;}
    std::shared_ptr<D> ds = make(); size_t m; auto L = leaves<D>(ds,m);
    c.ck(m==1 && L.count(rel),"batches",m," batches for one sequence");
    if(L.count(rel)) checkSeq(c,rel,*L[rel],s,align,scale,prec);
    c.nontrivial(vh::str(n,s.gt.size(),align,scale,prec));
}

SCENARIO("bsds",24,200) {
    Root R(c); Rng& r = c.rng;
    const lv::BSDS500DatasetGroup grp = r.pick(std::vector<lv::BSDS500DatasetGroup>{lv::BSDS500Dataset_Training,lv::BSDS500Dataset_Training_Validation,lv::BSDS500Dataset_Training_Validation_Test});
    std::vector<std::string> sets = {"train"}; if(grp!=lv::BSDS500Dataset_Training) sets.push_back("val"); if(grp==lv::BSDS500Dataset_Training_Validation_Test) sets.push_back("test");
    const double scale = r.pick(std::vector<double>{1.0,1.0,0.5,0.25,0.3}); const int damage = r.chance(0.2)?(int)r.range(1,4):0; const bool prec = r.chance(0.4);
    struct Img {std::string name; cv::Mat in; std::vector<cv::Mat> gt;}; std::map<std::string,std::vector<Img>> S; Files F;
    for(auto& s : {std::string("train"),std::string("val"),std::string("test")}) {
        if(std::find(sets.begin(),sets.end(),s)==sets.end() && r.chance(0.5)) continue; // unused sets may or may not be there
        const std::string d = R.dir("BSDS500/data/images/"+s+"/"), g = R.dir("BSDS500/data/groundTruth_bdry_images/"+s+"/"); const int dm = s==sets.back()?damage:0;
        std::set<size_t> ids; while(ids.size()<r.range(1,3)) ids.insert(r.range(100000,399999));
        for(size_t id : ids) {
            Img im; im.name = std::to_string(id); const cv::Size sz = r.chance(0.5)?cv::Size(481,321):cv::Size(321,481);
            im.in = blocks(r,sz,CV_8UC3,17); F.img(d+im.name+r.pick(std::vector<std::string>{".jpg",".png",".bmp"}),im.in);
            if(dm==1 && id==*ids.begin()) continue; // gt folder missing
            fs::create_directories(g+im.name+(dm==2?"x9":""));
            const size_t n = r.range(1,5); for(size_t k=0; k<n; ++k) {im.gt.push_back(labels(r,sz,{0,0,0,255},13)); if(dm!=3) F.img(g+im.name+(dm==2?"x9":"")+"/"+num("%zu.png",k+1),im.gt.back());}
            S[s].push_back(im);
        }
        if(r.chance(0.5)) F.txt(d+"Thumbs.db","x");
        if(dm==4) F.img(d+"999999.png",noise(r,cv::Size(32,32),CV_8UC3)), fs::create_directories(g+"999999"), F.img(g+"999999/1.png",labels(r,cv::Size(32,32),{0,255}));
    }
    F.flush(r);
    c.desc(vh::str("bsds sets=",sets.size()," scale=",scale," prec=",prec," damage=",damage));
    using D = lv::Dataset_<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel>;
    const auto make = [&]{return lv::datasets::create<lv::DatasetTask_EdgDet,lv::Dataset_BSDS500,lv::NonParallel>("out",false,true,scale,grp);};
    if(damage) {c.ck(refused(make),"bad-layout-accepted","a BSDS500 set with damage ",damage," was accepted"); c.stat("refusals"); c.nontrivial(vh::str("damage",damage)); return;}
    std::shared_ptr<D> ds = make(); size_t m; auto L = leaves<D>(ds,m);
    c.ck(m==sets.size() && L.size()==m,"batches",m," batches for ",sets.size()," sets");
    for(auto& s : sets) {
        auto it = L.find(s+"/"); c.ck(it!=L.end(),"batches","no batch for set ",s); if(it==L.end()) continue; auto& b = *it->second; auto& v = S[s];
        c.ck(b.getInputCount()==v.size() && b.getGTCount()==v.size(),"packet-count",b.getInputCount(),"/",b.getGTCount()," packets for ",v.size()," images");
        bool mixed = false; for(auto& i : v) mixed |= i.in.size()!=v[0].in.size();
        if(prec) b.startPrecaching(false);
        for(size_t i : order(r,v.size())) {
            const cv::Size sz((int)(v[i].in.cols*scale),(int)(v[i].in.rows*scale));
            c.ck(same(b.getInput(i),nearest(v[i].in,sz)),"input-packet","set ",s," image ",i," is not ",v[i].name," scale=",scale);
            cv::Mat e; for(auto& g : v[i].gt) {if(e.empty()) e = nearest(g,sz); else cv::vconcat(e,nearest(g,sz),e);}
            cv::Mat g; try {g = b.getGT(i);} catch(const std::exception& x) {c.ck(false,"gt-packet","set ",s," image ",i," (",v[i].gt.size()," annotations, scale ",scale,") could not be loaded: ",std::string(x.what()).substr(0,200)); break;}
            c.ck(same(g,e),"gt-packet","set ",s," image ",i,": ground truth is not the stack of its ",v[i].gt.size()," annotations (scale ",scale,"): ",cg::shape(g)," want ",cg::shape(e));
            c.ck(b.getInputName(i)==v[i].name,"input-name",b.getInputName(i)," is not ",v[i].name); c.stat("packets");
        }
        if(prec) b.stopPrecaching();
        if(mixed) {c.ck(!b.isInputInfoConst(),"info-const","set ",s," mixes portrait and landscape images but claims constant packet sizes"); c.stat("mixed_sets");}
        c.ck(b.getInput(v.size()).empty() && b.getGT(v.size()).empty(),"past-end","data returned past the last image");
    }
    c.nontrivial(vh::str(sets.size(),scale,prec));
}

SCENARIO("bilodeau",16,120) {
    Root R(c); Rng& r = c.rng; const cv::Size sz(480,360);
    const int flags = r.chance(0.4)?-1:(int)r.range(1,31); const bool flp = r.chance(0.4), masks = r.chance(0.5); const double scale = r.pick(std::vector<double>{1.0,1.0,1.0,0.5,0.25}); const bool prec = r.chance(0.3);
    const int damage = r.chance(0.2)?(int)r.range(1,3):0; bool damaged = false;
    struct P {std::map<size_t,std::vector<cv::Mat>> f; std::map<size_t,cv::Mat> gt; cv::Mat roiV,roiT; size_t minD=0,maxD=0;}; std::map<std::string,P> S; Files F;
    const auto has = [&](int k) {return (flags&(1<<(k-1)))!=0;};
    R.dir("litiv/bilodeau2014/");
    for(auto& v : {std::string("vid1"),std::string("vid2/cut1"),std::string("vid2/cut2"),std::string("vid3")}) {
        R.dir("litiv/bilodeau2014/"+v);
        const std::vector<int> in = v=="vid1"?std::vector<int>{1,2,3,4}:v=="vid2/cut1"?std::vector<int>{1,2}:v=="vid2/cut2"?std::vector<int>{2,3,4}:std::vector<int>{1,2,3,4,5};
        for(int k : in) {
            if(r.chance(0.65)) continue;
            const std::string rel = v+"/"+std::to_string(k)+"Person/", d = R.dir("litiv/bilodeau2014/"+rel); P p; const int dm = (has(k)&&!damaged)?damage:0; if(dm) damaged = true;
            fs::create_directories(d+"Foreground"); const std::string id = d+r.pick(std::vector<std::string>{"videoFrames","VideoFrame"})+"/"; fs::create_directories(id);
            const size_t n = r.range(1,3); std::set<size_t> ids; while(ids.size()<n) ids.insert(r.range(1,9998));
            size_t extra = 0; if(r.chance(0.4)) do extra = r.range(1,9998); while(ids.count(extra)); // a frame with no masks: not a packet
            if(extra) {F.img(id+"IR"+std::to_string(extra)+".jpg",blocks(r,sz,CV_8UC1)); F.img(id+"Vis"+std::to_string(extra)+".jpg",blocks(r,sz,CV_8UC3));}
            for(size_t i : ids) {
                auto& f = p.f[i]; f = {blocks(r,sz,CV_8UC3),labels(r,sz,{0,255,255},30),blocks(r,sz,CV_8UC1),labels(r,sz,{0,200,255},30)};
                for(int q=0; q<20; ++q) f[r.chance(0.5)?1:3].at<uchar>((int)r.below(360),(int)r.below(480)) = 0; // isolated noise, removed by the loader
                F.img(id+"Vis"+std::to_string(i)+".jpg",f[0]); F.img(d+"Foreground/VisForeground"+std::to_string(i)+".jpg",f[1]);
                F.img(id+"IR"+std::to_string(i)+".jpg",f[2]); if(dm!=1) F.img(d+"Foreground/IRForeground"+std::to_string(i)+".jpg",f[3]);
            }
            std::string t; size_t mx = 0; std::vector<size_t> gi; for(size_t i : ids) if(r.chance(0.7)||gi.empty()) gi.push_back(i);
            if(extra && r.chance(0.5)) gi.push_back(extra); // annotated but not a packet
            const size_t np = r.range(gi.size(),gi.size()+12);
            for(size_t q=0; q<np; ++q) {
                const size_t i = q<gi.size()?gi[q]:r.pick(gi); const int x = (int)r.below(480), y = (int)r.below(360), dd = (int)r.range(q==0?20:0,99);
                t += "IRForeground"+std::to_string(i)+".jpg\nVisForeground"+std::to_string(i)+".jpg\n"+std::to_string(x)+"\n"+std::to_string(y)+"\n"+std::to_string(dd)+"\n"; mx = std::max(mx,(size_t)dd);
                if(ids.count(i)) {if(p.gt[i].empty()) p.gt[i] = cv::Mat(sz,CV_8UC1,cv::Scalar(255)); p.gt[i].at<uchar>(y,x) = (uchar)dd;}
            }
            std::string vn = v; vn.erase(std::remove(vn.begin(),vn.end(),'/'),vn.end());
            if(dm!=2) F.txt(d+vn+"_"+std::to_string(k)+"Person.txt",t);
            p.minD = 0; p.maxD = mx; if(r.chance(0.4)) {p.minD = r.below(10); p.maxD = r.range(40,90); F.txt(d+"drange.txt",std::to_string(p.minD)+" "+std::to_string(p.maxD)+"\n");}
            cv::Mat a = labels(r,sz,{0,1,255},50), bb = labels(r,sz,{0,7,255},50); F.img(d+"IRROI.png",a); F.img(d+"VisROI.png",bb); p.roiT = mask(a,0); p.roiV = mask(bb,0);
            if(dm==3) for(size_t i : ids) F.img(id+"IR"+std::to_string(i)+".jpg",noise(r,cv::Size(64,64),CV_8UC1));
            if(dm==3) for(auto& o : std::vector<size_t>{extra}) if(o) F.img(id+"IR"+std::to_string(o)+".jpg",noise(r,cv::Size(64,64),CV_8UC1));
            if(has(k)) S[rel] = p;
        }
    }
    if(damaged && damage==3) {for(auto& f : F.ops) f(); F.ops.clear();} else F.flush(r); // (3 overwrites files: keep the order)
    c.desc(vh::str("bilodeau flags=",flags," batches=",S.size()," flip=",flp," masks=",masks," scale=",scale," prec=",prec," damage=",damaged?damage:0));
    using D = lv::Dataset_<lv::DatasetTask_StereoReg,lv::Dataset_LITIV_bilodeau2014,lv::NonParallel>;
    const auto make = [&]{return lv::datasets::create<lv::DatasetTask_StereoReg,lv::Dataset_LITIV_bilodeau2014,lv::NonParallel>("out",false,false,true,flp,true,flags,masks?1:0,scale);};
    if(damaged) {c.ck(refused(make),"bad-layout-accepted","a LITIV sequence with damage ",damage," was accepted"); c.stat("refusals"); c.nontrivial(vh::str("damage",damage)); return;}
    // only the videos that can hold a requested set are visited, so a set elsewhere is not part of the dataset
    std::shared_ptr<D> ds = make(); size_t m; auto L = leaves<D>(ds,m);
    c.ck(m==S.size() && L.size()==m,"batches",m," batches for ",S.size()," sets");
    for(auto& kv : S) {
        auto it = L.find(kv.first); c.ck(it!=L.end(),"batches","no batch for ",kv.first); if(it==L.end()) continue; auto& b = *it->second; const P& p = kv.second;
        const size_t st = masks?4:2, n = p.f.size(); c.ck(b.getInputStreamCount()==st && b.getGTStreamCount()==2,"stream-count",b.getInputStreamCount(),"/",b.getGTStreamCount());
        c.ck(b.getInputCount()==n && b.getGTCount()==p.gt.size(),"packet-count",kv.first,": ",b.getInputCount(),"/",b.getGTCount()," packets for ",n,"/",p.gt.size());
        c.ck(b.getMinDisparity()==(size_t)(p.minD*scale) && b.getMaxDisparity()==(size_t)(p.maxD*scale),"disparity-range",kv.first,": [",b.getMinDisparity(),",",b.getMaxDisparity(),"] for [",p.minD,",",p.maxD,"] at scale ",scale);
        const cv::Size ss = nearest(p.roiT,scale).size(); size_t last = 0; const bool sameLen = std::to_string(p.f.begin()->first).size()==std::to_string(p.f.rbegin()->first).size();
        if(prec) b.startPrecaching(false);
        std::set<size_t> seen;
        for(size_t i=0; i<n; ++i) {
            std::vector<cv::Mat> in = b.getInputArray(i), gt = b.getGTArray(i); for(auto& x : in) x = x.clone();
            c.ck(in.size()==st && gt.size()==2,"stream-count","packet of ",in.size(),"/",gt.size()," streams"); if(in.size()!=st||gt.size()!=2) break;
            std::vector<cv::Mat> o = in; if(flp) for(auto& x : o) x = flip(x);
            const size_t T = masks?2:1; size_t id = 0;
            for(auto& f : p.f) {
                const cv::Mat ev = f.second[0], et = f.second[2];
                if(scale==1.0?(same(o[0],ev)&&same(o[T],et)):(o[0].size()==ss&&o[T].size()==ss&&cv::norm(o[0],nearest(ev,ss),cv::NORM_L1)/(ss.area()*3.0)<12&&cv::norm(o[T],nearest(et,ss),cv::NORM_L1)/ss.area()<12)) {id = f.first; break;}
            }
            c.ck(id!=0 && !seen.count(id),"input-packet",kv.first," packet ",i,id?" repeats frame ":" shows the rgb/thermal pair of no frame ",id," flip=",flp," scale=",scale); if(!id) continue; seen.insert(id);
            if(sameLen && i>0) c.ck(id>last,"packet-order",kv.first," frame ",id," comes after frame ",last); last = id;
            if(masks) for(size_t q : {size_t(1),size_t(3)}) {
                cv::Mat e(sz,CV_8UC1); const cv::Mat& src = p.f.at(id)[q]; for(int y=0; y<360; ++y) for(int x=0; x<480; ++x) e.at<uchar>(y,x) = src.at<uchar>(y,x)!=255?255:0;
                cv::morphologyEx(e,e,cv::MORPH_OPEN,cv::Mat(),cv::Point(-1,-1),2);
                if(scale==1.0) c.ck(same(o[q],e),"input-mask",kv.first," mask stream ",q," of frame ",id," wrong");
                else {
                    size_t bad = 0; for(int y=0; y<o[q].rows; ++y) for(int x=0; x<o[q].cols; ++x) bad += o[q].at<uchar>(y,x)!=0&&o[q].at<uchar>(y,x)!=255;
                    c.ck(bad==0,"mask-not-binary",kv.first," mask stream ",q," has ",bad," pixels that are neither 0 nor 255 at scale ",scale);
                    c.ck(cv::norm(o[q],nearest(e,ss),cv::NORM_L1)/ss.area()<20,"input-mask",kv.first," scaled mask stream ",q," of frame ",id," wrong");
                }
            }
            const auto g = p.gt.find(id);
            if(g==p.gt.end()) c.ck(gt[0].empty()&&gt[1].empty(),"gt-packet",kv.first," frame ",id," has no annotation but got ground truth");
            else {
                cv::Mat e = nearest(g->second,ss); bool ok = gt[1].size()==ss && gt[0].size()==ss && gt[1].type()==CV_8UC1; const cv::Mat gg = ok&&flp?flip(gt[1]):gt[1];
                if(ok) for(int y=0; y<ss.height; ++y) for(int x=0; x<ss.width; ++x) {const uchar w = e.at<uchar>(y,x), a = gg.at<uchar>(y,x); ok &= w==255?a==255:std::abs(a-w*scale)<=(scale==1.0?0:1); ok &= gt[0].at<uchar>(y,x)==255;}
                c.ck(ok,"gt-packet",kv.first," disparities of frame ",id," wrong (flip=",flp," scale=",scale,")"); c.stat("gt_packets");
            }
            const auto roi = static_cast<const lv::IDataLoader_<lv::Array>&>(b).getInputROIArray(i);
            c.ck(roi.size()==st && same(roi[0],flp?flip(nearest(p.roiV,ss)):nearest(p.roiV,ss)) && same(roi[T],flp?flip(nearest(p.roiT,ss)):nearest(p.roiT,ss)),"roi",kv.first," input rois wrong");
            c.stat("packets");
        }
        if(prec) b.stopPrecaching();
        c.ck(b.getInputStreamName(0)=="RGB" && b.getInputStreamName(masks?2:1)=="THERMAL","stream-name",b.getInputStreamName(0));
    }
    c.nontrivial(vh::str(flags,flp,masks,scale,prec,S.size()));
}

SCENARIO("vap",14,100) {
    Root R(c); Rng& r = c.rng; const cv::Size sz(640,480);
    const bool depth = r.chance(0.6), sub = r.chance(0.4), esub = r.chance(0.3); const int win = (sub||esub)?(int)r.below(3):0;
    const int im = r.chance(0.5)?0:r.chance(0.5)||(sub^esub)||win?1:-1; // (gt masks as input need ground truth for every loaded frame)
    const double scale = r.pick(std::vector<double>{1.0,1.0,1.0,0.5,0.25}); const bool prec = r.chance(0.3);
    const int damage = r.chance(0.2)?(int)r.range(1,4):0;
    struct Sc {size_t n; std::vector<std::vector<cv::Mat>> in,ap; std::map<size_t,std::vector<cv::Mat>> gt; std::vector<cv::Mat> roi; std::set<size_t> S,W; size_t minD=0,maxD=100;}; std::map<std::string,Sc> M; Files F;
    R.dir("vap/rgbdt-stereo/"); const size_t ns = sub?2:3; const char* inD[] = {"SyncRGB","SyncT","SyncD"}; const char* gtD[] = {"rgbMasks","thermalMasks","depthMasks"}; const char* apD[] = {"rgbApproxMasks","thermalApproxMasks","depthApproxMasks"}; const char* roiF[] = {"rgb_roi.png","thermal_roi.png","depth_roi.png"};
    for(size_t q=0; q<ns; ++q) {
        const std::string rel = sub?(q?"Scene 3/":"Scene 1/"):"Scene "+std::to_string(q+1)+"/", d = R.dir("vap/rgbdt-stereo/"+rel); Sc s; const int dm = q==0?damage:0;
        s.n = (sub||esub)?r.range(3,7):r.range(1,3);
        for(int k=0; k<3; ++k) {if(!(dm==1&&k==1)) fs::create_directories(d+inD[k]); if(!(dm==2&&k==0)) fs::create_directories(d+gtD[k]); if(im==1||r.chance(0.3)) fs::create_directories(d+apD[k]);}
        for(size_t i=0; i<s.n; ++i) {
            std::vector<cv::Mat> f,a; const bool g = sub||esub||im==-1||r.chance(0.7)||i==0; const std::string nm = num("%05zu",i);
            for(int k=0; k<3; ++k) {
                f.push_back(blocks(r,sz,k==0?CV_8UC3:k==1?CV_8UC1:CV_16UC1,80)); if(!(dm==1&&k==1) && !(dm==3&&k==1&&i+1==s.n)) F.img(d+inD[k]+"/"+nm+".png",f[k]);
                a.push_back(labels(r,sz,{0,128,129,255},80)); if(fs::exists(d+apD[k])) F.img(d+apD[k]+"/"+nm+".png",a[k]);
                if(g) {s.gt[i].push_back(labels(r,sz,{0,128,129,255},80)); if(!(dm==2&&k==0)) F.img(d+gtD[k]+"/"+nm+".png",s.gt[i][(size_t)k]);}
            }
            s.in.push_back(f); s.ap.push_back(a);
        }
        for(int k=0; k<3; ++k) {if(r.chance(0.6)) {cv::Mat m = labels(r,sz,{0,128,129,255},80); F.img(d+roiF[k],m); s.roi.push_back(mask(m,128));} else s.roi.push_back(cv::Mat(sz,CV_8UC1,cv::Scalar(255)));}
        if(sub||esub) {
            std::string t = "# frames\n"; const size_t k = r.range(1,3); for(size_t i=0; i<k; ++i) s.S.insert(r.below(s.n));
            for(size_t i : s.S) {bool fits = i+(size_t)win<s.n; if(!fits) continue; }
            std::set<size_t> keep; for(size_t i : s.S) if(i+(size_t)win<s.n) keep.insert(i); if(keep.empty()) keep.insert(0); if((size_t)win>=s.n) keep = {0}; s.S = keep;
            for(size_t i : s.S) {t += std::to_string(i)+"\n"; for(int o=-win; o<=win; ++o) if((int)i+o>=0) s.W.insert((size_t)((int)i+o));}
            if(*s.W.rbegin()>=s.n) {s.S = {0}; s.W.clear(); for(int o=0; o<=win; ++o) s.W.insert((size_t)o); t = "0\n";}
            if(dm!=4) F.txt(d+"subset.txt",t);
        }
        if(r.chance(0.5)) {s.minD = r.below(20); s.maxD = r.range(50,90); F.txt(d+"drange.txt",std::to_string(s.minD)+" "+std::to_string(s.maxD)+"\n");}
        M[rel] = s;
    }
    F.flush(r);
    const bool expectRefusal = damage && !(damage==4 && !(sub||esub)) && !(damage==3 && sub && M.begin()->second.W.count(M.begin()->second.n-1)==0 && false);
    c.desc(vh::str("vap depth=",depth," subset=",sub,"/",esub," win=",win," masks=",im," scale=",scale," prec=",prec," damage=",damage));
    using D = lv::Dataset_<lv::DatasetTask_Cosegm,lv::Dataset_VAP_trimod2016,lv::NonParallel>;
    const auto make = [&]{return lv::datasets::create<lv::DatasetTask_Cosegm,lv::Dataset_VAP_trimod2016,lv::NonParallel>("out",false,true,depth,false,false,false,sub,esub,win,im,scale);};
    if(damage==3 && sub) return; // a missing frame outside the subset is not noticed, and one inside makes the listed index wrong
    if(damage==3 && M.begin()->second.n==1) return;
    if(expectRefusal) {c.ck(refused(make),"bad-layout-accepted","a VAP scene with damage ",damage," was accepted"); c.stat("refusals"); c.nontrivial(vh::str("damage",damage)); return;}
    std::shared_ptr<D> ds = make(); size_t m; auto L = leaves<D>(ds,m);
    c.ck(m==M.size() && L.size()==m,"batches",m," batches for ",M.size()," scenes");
    for(auto& kv : M) {
        auto it = L.find(kv.first); c.ck(it!=L.end(),"batches","no batch for ",kv.first); if(it==L.end()) continue; auto& b = *it->second; const Sc& s = kv.second;
        const size_t K = depth?3:2, st = K*(im?2:1); c.ck(b.getInputStreamCount()==st && b.getGTStreamCount()==K,"stream-count",b.getInputStreamCount(),"/",b.getGTStreamCount());
        std::vector<size_t> fr; if(sub) fr.assign(s.W.begin(),s.W.end()); else for(size_t i=0; i<s.n; ++i) fr.push_back(i);
        std::map<size_t,std::vector<cv::Mat>> gts; for(auto& g : s.gt) if((!sub&&!esub)||s.S.count(g.first)) gts[g.first] = g.second;
        c.ck(b.getInputCount()==fr.size() && b.getGTCount()==gts.size(),"packet-count",kv.first,": ",b.getInputCount(),"/",b.getGTCount()," packets for ",fr.size(),"/",gts.size());
        if(b.getInputCount()!=fr.size()) continue;
        const cv::Size ss = nearest(s.roi[0],scale).size();
        c.ck(b.getMinDisparity()==0 && b.getMaxDisparity()==(size_t)(scale*(s.maxD-s.minD)),"disparity-range",kv.first,": [",b.getMinDisparity(),",",b.getMaxDisparity(),"] for [",s.minD,",",s.maxD,"] at scale ",scale);
        for(size_t i=0; i<fr.size() && sub; ++i) c.ck(b.isTemporalWindowBreak(i)==(i==0||win==0||fr[i-1]+1!=fr[i]),"window-break",kv.first," packet ",i," (frame ",fr[i],")");
        if(prec) b.startPrecaching(false);
        bool stop = false;
        for(size_t i : order(r,fr.size())) {
            if(stop) break;
            std::vector<cv::Mat> in,gt; try {in = b.getInputArray(i); for(auto& x : in) x = x.clone(); gt = b.getGTArray(i);} catch(const std::exception& e) {c.ck(false,"packet-not-loadable",kv.first," packet ",i," depth=",depth,": ",std::string(e.what()).substr(0,250)); stop = true; break;}
            c.ck(in.size()==st && gt.size()==K,"stream-count","packet of ",in.size(),"/",gt.size()," streams"); if(in.size()!=st||gt.size()!=K) break;
            const auto roi = static_cast<const lv::IDataLoader_<lv::Array>&>(b).getInputROIArray(i);
            for(size_t k=0; k<K; ++k) {
                const size_t q = im?2*k:k; const cv::Mat e = s.in[fr[i]][k];
                if(scale==1.0) c.ck(same(in[q],e),"input-packet",kv.first," packet ",i," stream ",q," is not frame ",fr[i],": got ",cg::shape(in[q])," want ",cg::shape(e));
                else c.ck(in[q].size()==ss && in[q].type()==e.type() && cv::norm(in[q],nearest(e,ss),cv::NORM_L1)/((double)ss.area()*e.channels()*(k==2?257:1))<12,"input-packet",kv.first," scaled packet ",i," stream ",q," is not frame ",fr[i]);
                c.ck(roi.size()==st && (scale==1.0?same(roi[q],s.roi[k]):roi[q].size()==ss),"roi",kv.first," roi of stream ",q," wrong");
                if(im) {
                    const cv::Mat src = im==1?s.ap[fr[i]][k]:s.gt.at(fr[i])[k];
                    if(scale==1.0) c.ck(same(in[q+1],mask(src,128)),"input-mask",kv.first," packet ",i," mask stream ",q+1," wrong (masks=",im,")");
                    else {size_t bad = 0; for(int y=0; y<in[q+1].rows; ++y) for(int x=0; x<in[q+1].cols; ++x) bad += in[q+1].at<uchar>(y,x)!=0&&in[q+1].at<uchar>(y,x)!=255; c.ck(in[q+1].size()==ss && bad==0,"mask-not-binary",kv.first," scaled mask stream ",q+1);}
                }
                const auto g = gts.find(fr[i]);
                if(g==gts.end()) {c.ck(gt[k].empty(),"gt-packet",kv.first," frame ",fr[i]," has no ground truth but got some"); continue;}
                cv::Mat eg = mask(g->second[k],128);
                if(k==1 && kv.first=="Scene 3/") {cv::Mat t = cv::Mat::zeros(sz,CV_8UC1); eg(cv::Rect(0,0,sz.width-13,sz.height-4)).copyTo(t(cv::Rect(13,4,sz.width-13,sz.height-4))); eg = t;} // documented calibration offset
                if(scale==1.0) c.ck(same(gt[k],eg),"gt-packet",kv.first," gt of frame ",fr[i]," stream ",k," wrong");
                else c.ck(gt[k].size()==ss && cv::norm(gt[k],nearest(eg,ss),cv::NORM_L1)/ss.area()<20,"gt-packet",kv.first," scaled gt of frame ",fr[i]," stream ",k," wrong");
                c.stat("gt_packets");
            }
            c.stat("packets");
        }
        if(prec) b.stopPrecaching();
    }
    c.nontrivial(vh::str(depth,sub,esub,win,im,scale,prec));
}

VH_MAIN
