// C18 asynchronous precaching
#define VH_SCHED_IMPL
#include "sched.hpp"
#include "cvgen.hpp"
#include "litiv/datasets.hpp"
using vh::str;

namespace {
struct LoadErr : std::runtime_error { size_t idx; explicit LoadErr(size_t i) : std::runtime_error("cannot load "+std::to_string(i)),idx(i) {} };

inline uint64_t word(size_t idx, uint64_t salt, size_t k) { return (uint64_t(idx)*0x9e3779b97f4a7c15ull+salt)^(uint64_t(k)*0xd1342543de82ef95ull); }
/// content of the packet with that index; regions are filled through 8-byte words of the row bytes
struct Stream {
    struct P { std::vector<int> dims; int type; bool view; };
    std::vector<P> p; uint64_t salt;
    std::vector<int> fail;      // 0 never, 1 once, 2 always
    std::vector<std::atomic<int>> failed;
    std::atomic<uint32_t> calls{0},errors{0},overlaps{0}; std::atomic<int> inside{0};
    uint64_t unsynced=0;        // loaders are not required to be thread safe: a data race if two calls overlap
    int slow=0;
    explicit Stream(size_t n) : p(n),salt(0),fail(n,0),failed(n) { for(auto& f : failed) f.store(0); }
    size_t bytes(size_t i) const { if(i>=p.size() || p[i].dims.empty()) return 0; size_t t=CV_ELEM_SIZE(p[i].type); for(int d : p[i].dims) t*=size_t(d); return t; }
    cv::Mat make(size_t i) const {
        if(bytes(i)==0) return cv::Mat();
        const P& q=p[i];
        cv::Mat m;
        if(q.view && q.dims.size()==2) { cv::Mat big(q.dims[0]+3,q.dims[1]+5,q.type,cv::Scalar::all(77)); m=big(cv::Rect(2,1,q.dims[1],q.dims[0])); }
        else m.create(int(q.dims.size()),q.dims.data(),q.type);
        if(m.isContinuous()) fillRow(m.data,bytes(i),i,0);
        else for(int r=0;r<m.rows;++r) fillRow(m.ptr(r),size_t(m.cols)*m.elemSize(),i,size_t(r)*m.cols*m.elemSize());
        return m;
    }
    void fillRow(uchar* d, size_t n, size_t i, size_t off) const {
        size_t k=0;
        if(off%8==0) for(;k+8<=n;k+=8) { const uint64_t w=word(i,salt,(off+k)/8); std::memcpy(d+k,&w,8); }
        for(;k<n;++k) d[k]=uchar(word(i,salt,(off+k)/8)>>(8*((off+k)%8)));
    }
    /// empty string when m is the packet with that index
    std::string diff(const cv::Mat& m, size_t i) const {
        const size_t b=bytes(i);
        if(b==0) return m.empty()?"":"packet "+std::to_string(i)+" should be empty";
        if(m.empty()) return "packet "+std::to_string(i)+" is empty";
        const P& q=p[i];
        if(m.type()!=q.type || m.dims!=int(q.dims.size())) return "packet "+std::to_string(i)+" has the wrong type or dimensions";
        for(int d=0;d<m.dims;++d) if(m.size[d]!=q.dims[d]) return "packet "+std::to_string(i)+" has the wrong size";
        auto cmp=[&](const uchar* d, size_t n, size_t off)->long {
            size_t k=0;
            if(off%8==0) for(;k+8<=n;k+=8) { uint64_t w; std::memcpy(&w,d+k,8); if(w!=word(i,salt,(off+k)/8)) return long(k); }
            for(;k<n;++k) if(d[k]!=uchar(word(i,salt,(off+k)/8)>>(8*((off+k)%8)))) return long(k);
            return -1;
        };
        if(m.isContinuous()) { const long k=cmp(m.data,b,0); return k<0?"":str("packet ",i," differs at byte ",k," of ",b); }
        for(int r=0;r<m.rows;++r) { const long k=cmp(m.ptr(r),size_t(m.cols)*m.elemSize(),size_t(r)*m.cols*m.elemSize()); if(k>=0) return str("packet ",i," differs in row ",r); }
        return "";
    }
    cv::Mat load(size_t i) {
        if(inside.fetch_add(1,std::memory_order_relaxed)>0) overlaps.fetch_add(1,std::memory_order_relaxed);
        ++unsynced;
        const uint32_t k=calls.fetch_add(1,std::memory_order_relaxed);
        if(slow && (k*2654435761u>>16)%3==0) { timespec ts{0,long(slow)*1000}; nanosleep(&ts,nullptr); }
        if(i<fail.size() && fail[i] && (fail[i]==2 || failed[i].exchange(1,std::memory_order_relaxed)==0)) {
            errors.fetch_add(1,std::memory_order_relaxed); inside.fetch_sub(1,std::memory_order_relaxed);
            throw LoadErr(i);
        }
        cv::Mat m=make(i);
        inside.fetch_sub(1,std::memory_order_relaxed);
        return m;
    }
};

void genStream(vh::Case& c, Stream& s, int sizeMode, bool holes) {
    vh::Rng& r=c.rng;
    s.salt=r.u64();
    static const int types[]={CV_8UC1,CV_8UC3,CV_8UC4,CV_16UC1,CV_32FC1,CV_64FC2,CV_32SC3};
    for(auto& q : s.p) {
        if(holes && r.chance(8.0)) continue; // no packet under that index
        q.type=types[r.below(7)]; q.view=r.chance(20.0);
        size_t target;
        if(sizeMode==0) target=size_t(r.range(1,4000));
        else if(sizeMode==1) target=size_t(r.range(1,40))<<16;                 // 64 KB to 2.6 MB
        else if(sizeMode==2) target=size_t(r.range(20,110))<<16;               // 1.3 MB to 7 MB
        else if(sizeMode==3) target=size_t(5)<<19;                             // a quarter of the smallest cache exactly
        else target=r.chance(15.0)?(size_t(11)<<20):size_t(r.range(1,60))<<15; // some larger than the cache
        const size_t es=CV_ELEM_SIZE(q.type);
        if(sizeMode==3) { q.type=CV_8UC1; q.dims={512,5120}; q.view=false; continue; }
        const size_t elems=std::max<size_t>(1,target/es);
        if(r.chance(12.0)) { q.dims={int(r.range(1,4)),int(r.range(1,5)),1}; q.dims[2]=int(std::max<size_t>(1,elems/(q.dims[0]*q.dims[1]))); q.view=false; }
        else { const int h=int(std::max<size_t>(1,std::min<size_t>(elems,size_t(r.range(1,600))))); q.dims={h,int(std::max<size_t>(1,elems/h))}; }
    }
}

void history(vh::Case& c, bool faults, int ops) {
    vh::Rng& r=c.rng;
    const size_t N=size_t(r.range(2,32));
    Stream s(N);
    const int sizeMode=int(r.below(5));
    genStream(c,s,sizeMode,r.chance(30.0));
    if(r.chance(40.0)) s.slow=int(r.range(50,1500));
    if(faults) { const int k=int(r.range(1,3)); for(int j=0;j<k;++j) s.fail[r.below(N)]=r.chance(50.0)?1:2; }
    const int jl=int(r.below(3));
    std::string tr=str("N=",N," sizes ",sizeMode,s.slow?" slow":"",jl?" jitter":"");
    if(faults) { tr+=" fails"; for(size_t i=0;i<N;++i) if(s.fail[i]) tr+=str(" ",i,s.fail[i]==1?"(once)":""); }
    uint32_t reported=0; size_t asked=0,held=0; bool bad=false;
    auto fail=[&](const char* tag, const std::string& m){ if(!bad) { bad=true; c.fail(tag,m); } };
    {
        vh::JitterScope js(jl,jl?10:0,r.u64());
        lv::DataPrecacher pc([&s](size_t i){ return s.load(i); });
        size_t next=0; bool active=false; long last=-1; const cv::Mat* ref=nullptr; uint32_t seenErr=0;
        auto recheck=[&](const char* when){
            if(!ref || last<0) return;
            const std::string d=s.diff(*ref,size_t(last));
            if(!d.empty()) fail("held",str(d," ",when));
            ++held;
        };
        auto caught=[&](const char* op){
            // an error was thrown at us: it has to be one of the loader's, not reported yet
            ++reported;
            if(reported>s.errors.load()) fail("error-twice",str(op," reported an error again (",reported," reports for ",s.errors.load()," loader errors)"));
            (void)seenErr;
        };
        const int mode=int(r.below(5));
        for(int o=0;o<ops && !bad;++o) {
            const uint64_t k=r.below(100);
            if(k<8 || (o==0 && r.chance(80.0))) {
                const size_t bs=r.chance(5.0)?0:(r.chance(30.0)?1:size_t(r.range(10,24))<<20);
                tr+=str(" start(",bs>>20,")");
                c.desc(tr);
                try { active=pc.startAsyncPrecaching(bs); if(active!=(bs>0)) fail("start","startAsyncPrecaching returned the wrong state"); }
                catch(const LoadErr&) { tr+="!"; caught("start"); active=false; }
                if(pc.isActive()!=active) fail("active","isActive() does not match the last start/stop");
                recheck("after a (re)start");
            }
            else if(k<13) {
                tr+=" stop"; c.desc(tr);
                try { pc.stopAsyncPrecaching(); } catch(const LoadErr&) { tr+="!"; caught("stop"); }
                active=false;
                if(pc.isActive()) fail("active","still active after a stop");
                recheck("after a stop");
                if(last>=0) { const cv::Mat& m=pc.getPacket(size_t(last)); const std::string d=s.diff(m,size_t(last)); if(!d.empty()) fail("stopped",str(d," when asked again after a stop")); }
            }
            else if(k<20) { timespec ts{0,long(r.range(1,25))*1000000}; nanosleep(&ts,nullptr); recheck("while precaching went on"); }
            else {
                size_t i;
                if(mode==0) i=next;
                else if(mode==1) i=r.chance(80.0)?next:size_t(r.below(N+3));
                else if(mode==2) i=size_t(r.below(N+3));
                else if(mode==3) i=r.chance(50.0)?next:next+size_t(r.below(4));
                else i=r.chance(60.0)?next:(next>=2?next-2:next);
                if(i>N+4) i=0;
                next=i+1;
                tr+=str(" ",i); c.desc(tr);
                recheck("right before the next request");
                try {
                    const cv::Mat& m=pc.getPacket(i);
                    const std::string d=s.diff(m,i);
                    if(!d.empty()) fail("content",d);
                    if(i<N && s.fail[i]==2 && last!=long(i)) fail("silent-error",str("packet ",i," was returned although its loading always fails"));
                    last=long(i); ref=&m; ++asked;
                    if(pc.getLastReqIdx()!=i) fail("last-idx",str("getLastReqIdx() is ",pc.getLastReqIdx()," after request ",i));
                }
                catch(const LoadErr&) { tr+="!"; caught("getPacket"); active=false; if(pc.isActive()) fail("active","still active after a reported failure"); recheck("after a reported error"); }
            }
        }
        tr+=" end"; c.desc(tr);
    }
    c.check(s.overlaps.load()==0,"overlap","the loading function was called while a previous call was still running");
    if(reported+1<s.errors.load()) c.fail("lost-error",str(s.errors.load()," loader errors, but only ",reported," reported"));
    c.check(reported<=s.errors.load(),"error-count","more errors were reported than raised");
    c.stat("packets",asked); c.stat("held_rechecks",held); c.stat("loader_calls",s.calls.load()); c.stat("loader_errors",s.errors.load());
    vh::jstats(c);
    if(asked) c.nontrivial(vh::hbytes(tr.data(),tr.size()));
    c.sample(tr);
}
}

SCENARIO("history",96,1600) { history(c,false,int(c.rng.range(5,40))); }
SCENARIO("faults",64,1000) { history(c,true,int(c.rng.range(5,40))); }
SCENARIO("sweep",32,400) { // straight reading to the end and past it, cache size close to the packet sizes
    vh::Rng& r=c.rng;
    const size_t N=size_t(r.range(5,40));
    Stream s(N);
    genStream(c,s,int(1+r.below(4)),false);
    std::string tr=str("sweep N=",N);
    size_t got=0;
    {
        lv::DataPrecacher pc([&s](size_t i){ return s.load(i); });
        pc.startAsyncPrecaching(r.chance(50.0)?1:size_t(r.range(10,13))<<20);
        for(size_t i=0;i<N+2;++i) {
            const cv::Mat& m=pc.getPacket(i);
            if(r.chance(40.0)) { timespec ts{0,long(r.range(1,14))*1000000}; nanosleep(&ts,nullptr); }
            const std::string d=s.diff(m,i);
            if(!d.empty()) { c.fail("content",tr+" | "+d); return; }
            ++got;
        }
    }
    c.check(s.overlaps.load()==0,"overlap","overlapping loader calls");
    c.stat("packets",got); c.stat("loader_calls",s.calls.load());
    c.nontrivial(s.salt);
}
VH_MAIN
