// C19 asynchronous writer
#define VH_SCHED_IMPL
#include "sched.hpp"
#include "cvgen.hpp"
#include "litiv/datasets.hpp"
using vh::str;

namespace {
const std::memory_order RLX=std::memory_order_relaxed;
struct StoreErr : std::runtime_error { size_t idx; explicit StoreErr(size_t i) : std::runtime_error("cannot store"),idx(i) {} };
uint64_t hashOf(const cv::Mat& m) { if(m.empty()) return 1; cv::Mat c=m.isContinuous()?m:m.clone(); return vh::hbytes(c.data,c.total()*c.elemSize()); }
struct Rec { size_t idx; uint64_t hash; size_t bytes; bool ok; };
/// log of storing-function calls; slots are claimed with a relaxed counter so that no ordering is added between threads
struct Log {
    std::vector<Rec> rec; std::atomic<uint32_t> n{0}; std::atomic<int> inside{0},peak{0};
    std::atomic<uint64_t> started{0}; std::atomic<bool> gate{true};
    explicit Log(size_t cap) : rec(cap) {}
    size_t store(const cv::Mat& m, size_t idx, bool fails, uint64_t delay) {
        const int in=inside.fetch_add(1,RLX)+1; int p=peak.load(RLX); while(in>p && !peak.compare_exchange_weak(p,in,RLX));
        started.fetch_add(1,RLX);
        while(!gate.load(std::memory_order_acquire)) { timespec ts{0,100000}; nanosleep(&ts,nullptr); }
        cv::Mat cp=m;
        uint64_t h=0; size_t b=m.total()*m.elemSize();
        if(delay%3==0) sched_yield(); else if(delay%3==1) { timespec ts{0,long(delay/3%300000)}; nanosleep(&ts,nullptr); }
        h=hashOf(m);
        const uint32_t k=n.fetch_add(1,RLX);
        if(k<rec.size()) { rec[k].idx=idx; rec[k].hash=h; rec[k].bytes=b; rec[k].ok=!fails; }
        inside.fetch_sub(1,RLX);
        if(fails) throw StoreErr(idx);
        return 4242;
    }
};
cv::Mat packet(vh::Rng& r, int sizeMode) {
    size_t b;
    if(sizeMode==0) b=size_t(r.range(1,300));
    else if(sizeMode==1) b=size_t(r.range(1,3))<<20;
    else b=size_t(r.range(3,10))<<20;
    if(sizeMode==2 && r.chance(25.0)) b=size_t(10)<<20;
    if(b<1000) { const int t[]={CV_8UC1,CV_8UC3,CV_32FC1,CV_16UC1}; cv::Mat m(int(r.range(1,12)),int(r.range(1,12)),t[r.below(4)]); for(size_t k=0;k<m.total()*m.elemSize();++k) m.data[k]=uchar(r.u32()); return m; }
    cv::Mat m(int(b>>10),1024,CV_8UC1,cv::Scalar(double(r.below(256))));
    for(int k=0;k<64;++k) m.data[r.below(b)]=uchar(r.u32());
    const uint64_t id=r.u64(); std::memcpy(m.data,&id,8);
    return m;
}
void scribble(cv::Mat& m) { if(!m.empty()) m.setTo(cv::Scalar::all(201)); }

struct Model {
    std::map<size_t,std::vector<uint64_t>> acc; // accepted versions per index, in order
    void judge(vh::Case& c, const Log& l, bool oneWorker, const std::string& tr) {
        const size_t n=l.n.load();
        if(n>l.rec.size()) { c.fail("too-many",tr+" | more stores than packets"); return; }
        std::map<size_t,std::vector<uint64_t>> got;
        for(size_t k=0;k<n;++k) got[l.rec[k].idx].push_back(l.rec[k].hash);
        for(auto& g : got) {
            auto it=acc.find(g.first);
            if(it==acc.end()) { c.fail("unknown",str(tr," | index ",g.first," was stored but never accepted")); return; }
            std::vector<uint64_t> left=it->second;
            for(uint64_t h : g.second) {
                auto p=std::find(left.begin(),left.end(),h);
                if(p==left.end()) {
                    const bool dup=std::count(it->second.begin(),it->second.end(),h)>0;
                    c.fail(dup?"stored-twice":"content",str(tr," | index ",g.first,dup?std::string(" was stored twice with the same content"):str(" was stored with content that was never queued (",h," instead of one of ",it->second.size()," starting with ",it->second[0],", ",g.second.size()," stores)"))); return;
                }
                *p=0;
            }
            if(oneWorker && g.second.back()!=it->second.back()) { c.fail("version-order",str(tr," | an older version of index ",g.first," was stored last")); return; }
        }
        for(auto& a : acc) {
            auto it=got.find(a.first);
            if(it==got.end() || std::find(it->second.begin(),it->second.end(),a.second.back())==it->second.end()) {
                c.fail("lost",str(tr," | accepted packet ",a.first," (version ",a.second.size()," of ",a.second.size(),") was never stored")); return;
            }
        }
    }
};

void history(vh::Case& c, bool faults) {
    vh::Rng& r=c.rng;
    const int sizeMode=int(r.below(3)),rounds=int(r.range(1,3)),jl=int(r.below(3));
    const bool dups=r.chance(50.0);
    std::string tr=str("sizes ",sizeMode,dups?" dups":"",jl?" jitter":"");
    Log log(4000);
    std::vector<std::atomic<int>> fails(64); for(auto& f : fails) f.store(faults && r.chance(25.0)?1:0);
    const uint64_t ds=r.u64();
    std::atomic<uint32_t> raised{0}; uint32_t reported=0,direct=0;
    size_t accepted=0,dropped=0; bool oneWorker=true;
    Model mod;
    std::set<uint64_t> seen;
    {
        vh::JitterScope js(jl,jl?10:0,r.u64());
        lv::DataWriter w([&](const cv::Mat& m, size_t i)->size_t{
            const bool f=i<64 && fails[i].load(RLX);
            if(f) raised.fetch_add(1,RLX);
            return log.store(m,i,f,vh::mix(ds+i));
        });
        for(int k=0;k<rounds;++k) {
            const bool async=r.chance(85.0),drop=r.chance(40.0);
            const size_t workers=size_t(r.range(1,4)),qs=r.chance(50.0)?1:size_t(r.range(10,20))<<20;
            if(async) {
                tr+=str(" start(",workers,drop?",drop":"",",",qs>>20,")"); c.desc(tr);
                for(;;) { try { if(!w.startAsyncWriting(qs,drop,workers)) c.fail("start","writer did not start"); break; } catch(const StoreErr&) { ++reported; } }
                if(workers>1) oneWorker=false;
                const size_t lim=std::max(qs,size_t(10)<<20);
                c.check(w.getMaxQueueSize()==lim,"limit",str("queue limit is ",w.getMaxQueueSize()," instead of ",lim));
            }
            else tr+=" direct";
            const int n=int(r.range(1,sizeMode==2?10:40));
            for(int j=0;j<n;++j) {
                const size_t idx=dups?size_t(r.below(10)):size_t(k*40+j);
                cv::Mat m=packet(r,sizeMode);
                if(sizeMode==0 && r.chance(3.0)) m=cv::Mat();
                const uint64_t h=hashOf(m);
                if(!m.empty() && !seen.insert(h).second) continue; // versions must be distinguishable
                if(m.empty() && dups) continue;
                cv::Mat src=m;
                if(!m.empty() && r.chance(30.0)) { cv::Mat big(m.rows+2,m.cols+3,m.type(),cv::Scalar::all(9)); src=big(cv::Rect(1,1,m.cols,m.rows)); m.copyTo(src); }
                bool can=true;
                if(r.chance(20.0)) can=w.queue_check(src,idx);
                const bool checked=can;
                if(!async) {
                    try { const size_t v=w.queue(src,idx); c.check(v==4242,"direct-ret","direct storing did not return the storing function's result"); } catch(const StoreErr& e) { ++direct; c.check(e.idx==idx,"direct-err","wrong error"); }
                    mod.acc[idx].push_back(h); ++accepted;
                }
                else {
                    const size_t pos=w.queue(src,idx);
                    if(pos==SIZE_MAX) { ++dropped; c.check(drop,"dropped","a packet was dropped although dropping is off"); }
                    else { mod.acc[idx].push_back(h); ++accepted; c.check(pos<accepted,"position",str("queue position ",pos," with ",accepted," packets accepted")); }
                    const size_t q=w.getCurrentQueueSize();
                    c.check(q<=w.getMaxQueueSize(),"limit",str(q," bytes waiting, limit ",w.getMaxQueueSize()));
                }
                (void)checked;
                scribble(src); // queued packets are copies
                if(r.chance(10.0)) { timespec ts{0,long(r.below(2000000))}; nanosleep(&ts,nullptr); }
            }
            if(async && r.chance(80.0)) {
                tr+=" stop"; c.desc(tr);
                for(;;) { try { w.stopAsyncWriting(); break; } catch(const StoreErr&) { ++reported; if(reported>5000) break; } }
                c.check(!w.isActive(),"active","still active after a stop");
                c.check(w.getCurrentQueueCount()==0 && w.getCurrentQueueSize()==0,"leftover",str("queue holds ",w.getCurrentQueueCount()," packets / ",w.getCurrentQueueSize()," bytes after a stop"));
                c.check(reported+direct==raised.load(),"errors",str(raised.load()," storing errors, ",reported," reported after stopping and ",direct," directly"));
                const size_t before=log.n.load();
                (void)before;
            }
            else if(async && k+1<rounds) { for(;;) { try { w.stopAsyncWriting(); break; } catch(const StoreErr&) { ++reported; } } }
        }
        tr+=" end"; c.desc(tr);
    }
    mod.judge(c,log,oneWorker,tr);
    c.check(reported+direct<=raised.load(),"error-count",str("more errors reported (",reported,"+",direct,") than raised (",raised.load(),")"));
    c.stat("accepted",accepted); c.stat("dropped",dropped); c.stat("stored",log.n.load()); c.stat("store_errors",raised.load()); c.statmax("parallel_stores",log.peak.load());
    vh::jstats(c);
    if(accepted) { uint64_t h=vh::hbytes(tr.data(),tr.size()); for(size_t k=0;k<log.n.load() && k<log.rec.size();++k) h=vh::mix(h^log.rec[k].idx); c.nontrivial(h); }
    c.sample(tr);
}

void producers(vh::Case& c, bool stopRace) {
    vh::Rng& r=c.rng;
    const size_t P=size_t(r.range(2,4)),W=size_t(r.range(1,4)),T=size_t(r.range(4,30));
    const int sizeMode=int(r.below(stopRace?2:3)),jl=int(r.below(3));
    const bool drop=r.chance(30.0),destroy=!stopRace && r.chance(50.0),shared=!stopRace && r.chance(40.0);
    std::string tr=str(P," producers x ",T,", ",W," writers, sizes ",sizeMode,drop?" drop":"",shared?" shared":"",stopRace?" stopped meanwhile":"",destroy?" destroyed":"");
    c.desc(tr);
    Log log(P*T+64);
    const uint64_t ds=r.u64();
    std::vector<std::vector<std::pair<size_t,uint64_t>>> acc(P);
    std::vector<uint64_t> seeds(P); for(auto& s : seeds) s=r.u64();
    std::atomic<uint64_t> over{0},drops{0},unexpectedDrop{0};
    {
        vh::JitterScope js(jl,jl?10:0,r.u64());
        std::unique_ptr<lv::DataWriter> w(new lv::DataWriter([&](const cv::Mat& m, size_t i)->size_t{ return log.store(m,i,false,vh::mix(ds+i)); }));
        w->startAsyncWriting(r.chance(60.0)?1:size_t(r.range(10,16))<<20,drop,W);
        std::vector<std::thread> th;
        for(size_t p=0;p<P;++p) th.emplace_back([&,p]{
            vh::Rng q(seeds[p]);
            for(size_t t=0;t<T;++t) {
                const size_t idx=shared?size_t(q.below(8)):p*1000+t;
                cv::Mat m=packet(q,sizeMode);
                const uint64_t h=hashOf(m);
                const size_t pos=w->queue(m,idx);
                if(pos!=SIZE_MAX) acc[p].emplace_back(idx,h); else { drops.fetch_add(1,RLX); if(!drop) unexpectedDrop.fetch_add(1,RLX); }
                if(w->getCurrentQueueSize()>w->getMaxQueueSize()) over.fetch_add(1,RLX);
                scribble(m);
            }
        });
        if(stopRace) {
            const int stops=int(r.range(1,3));
            for(int k=0;k<stops;++k) { timespec ts{0,long(r.below(3000000))}; nanosleep(&ts,nullptr); w->stopAsyncWriting(); }
        }
        for(auto& t : th) t.join();
        if(destroy) w.reset(); else { w->stopAsyncWriting(); c.check(w->getCurrentQueueCount()==0 && w->getCurrentQueueSize()==0,"leftover","queue is not empty after a stop"); }
    }
    c.check(over.load()==0,"limit","more bytes waiting than the configured limit");
    c.check(unexpectedDrop.load()==0,"dropped","a packet was dropped although dropping is off");
    size_t n=0;
    if(!shared) { Model mod; for(auto& a : acc) for(auto& x : a) { mod.acc[x.first].push_back(x.second); ++n; } mod.judge(c,log,false,tr); }
    else { // any interleaving of the producers is possible: every store is a distinct accepted packet, and each index ends with some producer's last version
        std::multimap<size_t,uint64_t> all; for(auto& a : acc) for(auto& x : a) { all.insert(x); ++n; }
        std::set<size_t> stored; bool ok=true;
        for(size_t k=0;ok && k<log.n.load() && k<log.rec.size();++k) {
            auto rg=all.equal_range(log.rec[k].idx); auto it=rg.first; for(;it!=rg.second;++it) if(it->second==log.rec[k].hash) break;
            if(it==rg.second) { ok=false; c.fail("stored-twice",str(tr," | index ",log.rec[k].idx," was stored twice, or with content never queued")); }
            else { all.erase(it); stored.insert(log.rec[k].idx); }
        }
        std::set<size_t> accepted; for(auto& a : acc) for(auto& x : a) accepted.insert(x.first);
        for(size_t i : accepted) if(ok && !stored.count(i)) { ok=false; c.fail("lost",str(tr," | accepted index ",i," was never stored")); }
        // the version accepted last for an index was accepted last by some producer and must be stored
        for(size_t i : accepted) if(ok) {
            bool any=false;
            for(auto& a : acc) for(auto x=a.rbegin();x!=a.rend();++x) if(x->first==i) {
                auto rg=all.equal_range(i); bool left=false; for(auto it=rg.first;it!=rg.second;++it) if(it->second==x->second) left=true;
                if(!left) any=true; break;
            }
            if(!any) { ok=false; c.fail("lost",str(tr," | the newest packet of index ",i," was never stored")); }
        }
    }
    c.stat("accepted",n); c.stat("dropped",drops.load()); c.stat("stored",log.n.load()); c.statmax("parallel_stores",log.peak.load());
    vh::jstats(c);
    uint64_t h=vh::hbytes(tr.data(),tr.size()); for(size_t k=0;k<log.n.load() && k<log.rec.size();++k) h=vh::mix(h^log.rec[k].idx);
    if(n) c.nontrivial(h);
}
}
SCENARIO("history",128,2400) { history(c,false); }
SCENARIO("faults",96,1600) { history(c,true); }
SCENARIO("producers",128,2400) { producers(c,false); }
SCENARIO("stop_race",96,1600) { producers(c,true); }
SCENARIO("order",48,600) { // positions and storing order of what waits while the only writing thread is busy
    vh::Rng& r=c.rng;
    Log log(200);
    const size_t n=size_t(r.range(2,20)); std::vector<size_t> idx; std::set<size_t> used;
    while(idx.size()<n) { const size_t i=r.below(50); if(used.insert(i).second) idx.push_back(i); }
    std::vector<uint64_t> hash; bool ok=true; std::string tr;
    {
        lv::DataWriter w([&](const cv::Mat& m, size_t i)->size_t{ return log.store(m,i,false,2); });
        w.startAsyncWriting(size_t(12)<<20,r.chance(50.0),1);
        log.gate.store(false);
        cv::Mat first(2,2,CV_8UC1,cv::Scalar(1)); w.queue(first,1000);
        if(!vh::eventually([&]{ return log.started.load()>0; })) { log.gate.store(true); c.fail("stuck","the writing thread never started storing"); return; }
        std::set<size_t> waiting;
        for(size_t i : idx) {
            cv::Mat m(3,int(r.range(1,9)),CV_8UC1,cv::Scalar(double(i+2)));
            const size_t pos=w.queue(m,i); waiting.insert(i);
            const size_t want=size_t(std::distance(waiting.begin(),waiting.find(i)));
            tr+=str(" ",i,":",pos);
            if(pos!=want) { ok=false; c.fail("position",str("queue",tr," | position should be ",want)); break; }
            if(r.chance(20.0)) { const size_t again=w.queue(m,i); if(again!=want) { ok=false; c.fail("position",str("queue",tr," again | position should be ",want)); break; } }
        }
        log.gate.store(true,std::memory_order_release);
    }
    if(!ok) return;
    c.check(log.n.load()==n+1,"count",str(log.n.load()," stored instead of ",n+1));
    for(size_t k=1;k+1<std::min<size_t>(log.n.load(),200);++k) if(log.rec[k].idx>=log.rec[k+1].idx) { c.fail("order",str("queue",tr," | stored ",log.rec[k].idx," before ",log.rec[k+1].idx)); break; }
    c.stat("stored",log.n.load()); c.nontrivial(vh::hbytes(tr.data(),tr.size())); c.sample(tr);
}
SCENARIO("destroy_failing",32,300) { // the process survives failures nobody asked about
    vh::Rng& r=c.rng;
    Log log(100); std::atomic<uint32_t> raised{0};
    const int n=int(r.range(1,12)); const size_t W=size_t(r.range(1,3));
    {
        lv::DataWriter w([&](const cv::Mat& m, size_t i)->size_t{ raised.fetch_add(1,RLX); return log.store(m,i,true,i); });
        w.startAsyncWriting(1,false,W);
        for(int k=0;k<n;++k) { cv::Mat m(2,3,CV_8UC1,cv::Scalar(k)); w.queue(m,size_t(k)); }
        if(r.chance(30.0)) { try { w.stopAsyncWriting(); c.check(false,"silent","stop did not report the failures"); } catch(const StoreErr&) {} }
    }
    c.check(raised.load()==uint32_t(n) && log.n.load()==uint32_t(n),"count",str(raised.load()," storing attempts for ",n," packets"));
    c.stat("store_errors",raised.load()); c.nontrivial(vh::mix(uint64_t(n*10+W)));
}
VH_MAIN
