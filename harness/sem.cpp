// C02 semaphore / unlock_guard
#define VH_SCHED_IMPL
#include "sched.hpp"
#include "litiv/utils/cxx.hpp"
#include <array>
#include <cstdarg>
#include <iostream>
#include <sstream>
using vh::str;

namespace {
const std::memory_order RLX=std::memory_order_relaxed;
struct TaskErr { int id; };
inline void spin(uint64_t r) {
    if(r%4==0) sched_yield();
    else if(r%4==1) { timespec ts{0,long(r/4%60000)}; nanosleep(&ts,nullptr); }
}
}
SCENARIO("sem_stress",500,30000) {
    const size_t init=size_t(c.rng.below(4)),extra=size_t(c.rng.below(3))+(init==0?1:0),thr=size_t(c.rng.range(2,8)),ops=size_t(c.rng.range(4,60)); const int jl=int(c.rng.below(3));
    c.desc(str("semaphore init=",init," extra=",extra," threads=",thr," ops=",ops," jitter=",jl));
    lv::Semaphore sem(init);
    const long cap=long(init+extra); // permits ever available at once
    std::atomic<long> inside{0},maxin{0}; std::atomic<bool> over{false},badcount{false};
    std::vector<std::array<uint64_t,6>> st(thr); for(auto& s : st) s.fill(0);
    std::atomic<bool> done{false};
    std::vector<uint64_t> seeds(thr); for(auto& s : seeds) s=c.rng.u64();
    long guarded=0; std::mutex dummy; // cap==1: plain variable protected by the semaphore alone (race detector decides)
    {
        vh::JitterScope js(jl,jl?20:0,c.rng.u64());
        std::vector<std::thread> v;
        for(size_t t=0;t<thr;++t) v.emplace_back([&,t]{
            vh::Rng r(seeds[t]);
            for(size_t i=0;i<ops;++i) {
                const int op=int(r.below(5)); bool got=false;
                if(op==0 || op==1) { sem.wait(); got=true; ++st[t][0]; }
                else if(op==2) { got=sem.try_wait(); ++st[t][got?1:2]; }
                else if(op==3) { got=sem.wait_for(std::chrono::microseconds(r.below(400))); ++st[t][got?3:4]; }
                else { got=sem.wait_until(std::chrono::steady_clock::now()+std::chrono::microseconds(int64_t(r.below(400))-50)); ++st[t][got?3:4]; }
                if(got) {
                    const long n=inside.fetch_add(1,RLX)+1;
                    if(n>cap) over.store(true,RLX);
                    long m=maxin.load(RLX); while(n>m && !maxin.compare_exchange_weak(m,n,RLX));
                    if(cap==1) guarded+=1;
                    spin(r.u64());
                    inside.fetch_sub(1,RLX);
                    sem.notify();
                }
                if(r.chance(0.2)) { if(long(sem.count())>cap) badcount.store(true,RLX); ++st[t][5]; }
            }
        });
        for(size_t i=0;i<extra;++i) { timespec ts{0,long(c.rng.below(100000))}; nanosleep(&ts,nullptr); sem.notify(); }
        for(auto& t : v) t.join();
    }
    c.check(!over.load(),"sem:over-admission",str("more than ",cap," holders"));
    c.check(!badcount.load(),"sem:count-bound","count above permits ever released");
    c.checkf(sem.count()==init+extra,"sem:count",[&]{return str("final count ",sem.count()," expected ",init+extra);});
    uint64_t acq=0,tot[6]={0,0,0,0,0,0};
    for(auto& s : st) for(int i=0;i<6;++i) tot[i]+=s[i];
    acq=tot[0]+tot[1]+tot[3];
    if(cap==1) c.checkf(guarded==long(acq),"sem:exclusion",[&]{return str("guarded counter ",guarded," after ",acq," acquisitions");});
    c.stat("acquisitions",acq); c.stat("refused",tot[2]+tot[4]); c.stat("count_calls",tot[5]); c.statmax("holders",maxin.load());
    c.nontrivial(vh::hbytes(tot,sizeof(tot))^vh::mix(maxin.load())); vh::jstats(c);
    c.sample(str("threads=",thr," permits=",cap," acquisitions=",acq," refusals=",tot[2]+tot[4]));
}
SCENARIO("sem_handoff",400,20000) { // every notify releases exactly one waiter: no lost wake-up, no extra one
    const size_t K=size_t(c.rng.range(1,8)),rel=size_t(c.rng.range(0,int64_t(K))); const int jl=int(c.rng.below(3));
    c.desc(str("semaphore hand-off waiters=",K," notified first=",rel," jitter=",jl));
    lv::Semaphore sem(0); std::atomic<size_t> through{0}; bool ok1=true,ok2=true; size_t seen=0,fin=0;
    {
        vh::JitterScope js(jl,jl?20:0,c.rng.u64());
        std::vector<std::thread> v;
        for(size_t i=0;i<K;++i) { const bool timed=c.rng.chance(0.3); v.emplace_back([&,timed]{ if(timed) { while(!sem.wait_for(std::chrono::seconds(60))); } else sem.wait(); through.fetch_add(1,RLX); }); }
        if(c.rng.chance(0.5)) { timespec ts{0,long(c.rng.below(1000000))}; nanosleep(&ts,nullptr); }
        for(size_t i=0;i<rel;++i) sem.notify();
        ok1=vh::eventually([&]{return through.load(RLX)>=rel;});
        timespec ts{0,2000000}; nanosleep(&ts,nullptr);
        seen=through.load(RLX);
        for(size_t i=rel;i<K;++i) sem.notify();
        ok2=vh::eventually([&]{return through.load(RLX)>=K;});
        if(!ok2) for(size_t i=0;i<K*4;++i) sem.notify(); // free the threads before reporting
        for(auto& t : v) t.join();
        fin=sem.count();
    }
    c.check(ok1 && ok2,"sem:lost-wakeup","a notified waiter never returned");
    c.checkf(seen==rel,"sem:extra-wakeup",[&]{return str(seen," waiters returned after ",rel," notifications");});
    c.checkf(fin==0,"sem:count",[&]{return str("final count ",fin);});
    c.stat("handoffs",K); c.nontrivial(vh::mix(K*100+rel)^vh::mix(c.idx)); vh::jstats(c);
}
SCENARIO("sem_timed",160,4000) {
    const int us=int(c.rng.range(200,8000)); const bool avail=c.rng.chance(0.4); const int mode=int(c.rng.below(4)); const int jl=int(c.rng.below(2))*2;
    c.desc(str("semaphore timed mode=",mode," us=",us," available=",avail));
    lv::Semaphore sem(avail?1:0); bool got=false; double el=0;
    {
        vh::JitterScope js(jl,jl?50:0,c.rng.u64());
        const auto t0=std::chrono::steady_clock::now();
        if(mode==0) got=sem.wait_for(std::chrono::microseconds(us));
        else if(mode==1) got=sem.wait_until(t0+std::chrono::microseconds(us));
        else if(mode==2) got=sem.wait_until(std::chrono::system_clock::now()+std::chrono::microseconds(us));
        else got=sem.wait_until(t0-std::chrono::microseconds(us));
        el=std::chrono::duration<double,std::micro>(std::chrono::steady_clock::now()-t0).count();
    }
    c.checkf(got==avail,"sem:timed-result",[&]{return str("returned ",got," with ",avail," permit");});
    if(!avail && mode<=1) c.checkf(el>=us,"sem:timed-early",[&]{return str("gave up after ",el," us of ",us);});
    c.checkf(sem.count()==0,"sem:timed-count",[&]{return str("count ",sem.count());});
    c.nontrivial(vh::mix(us)^mode^(avail<<8)); vh::jstats(c);
}
namespace {
bool isLocked(std::mutex& m) { bool l=false; std::thread t([&]{ if(m.try_lock()) m.unlock(); else l=true; }); t.join(); return l; }
}
SCENARIO("unlock_guard",200,3000) {
    const int n=int(c.rng.range(1,3)); const int exitPath=int(c.rng.below(3)); const bool uniq=c.rng.chance(0.5);
    c.desc(str("unlock_guard mutexes=",n," exit=",exitPath," unique_lock=",uniq));
    std::mutex m[3]; bool in[3]={0,0,0},after[3]={0,0,0};
    auto leave=[&]{ if(exitPath==1) throw TaskErr{1}; };
    for(int i=0;i<n;++i) if(!uniq || n>1) m[i].lock();
    std::unique_lock<std::mutex> ul; if(uniq && n==1) ul=std::unique_lock<std::mutex>(m[0]);
    auto body=[&]{
        if(n==1 && uniq) { lv::unlock_guard<std::unique_lock<std::mutex>> g(ul); in[0]=isLocked(m[0]); leave(); if(exitPath==2) return; }
        else if(n==1) { lv::unlock_guard<std::mutex> g(m[0]); in[0]=isLocked(m[0]); leave(); if(exitPath==2) return; }
        else if(n==2) { lv::unlock_guard<std::mutex,std::mutex> g(m[0],m[1]); in[0]=isLocked(m[0]); in[1]=isLocked(m[1]); leave(); if(exitPath==2) return; }
        else { lv::unlock_guard<std::mutex,std::mutex,std::mutex> g(m[0],m[1],m[2]); for(int i=0;i<3;++i) in[i]=isLocked(m[i]); leave(); if(exitPath==2) return; }
    };
    try { body(); } catch(const TaskErr&) {}
    for(int i=0;i<n;++i) after[i]=isLocked(m[i]);
    if(uniq && n==1) { c.check(ul.owns_lock(),"unlock_guard:owns"); if(ul.owns_lock()) ul.unlock(); }
    for(int i=0;i<n;++i) {
        if(!(uniq && n==1) && after[i]) m[i].unlock();
        c.check(!in[i],"unlock_guard:released",str("mutex ",i," still locked inside the guard"));
        c.check(after[i],"unlock_guard:relocked",str("mutex ",i," not locked after the guard"));
    }
    c.nontrivial(vh::mix(n*100+exitPath*10+uniq));
}
SCENARIO("unlock_guard_race",200,6000) { // plain counter protected by a lock which is released in the middle of the critical section
    const int thr=int(c.rng.range(2,6)),ops=int(c.rng.range(5,60)); const int jl=int(c.rng.below(3));
    c.desc(str("unlock_guard race threads=",thr," ops=",ops," jitter=",jl));
    std::mutex m; long cnt=0;
    {
        vh::JitterScope js(jl,0,c.rng.u64());
        std::vector<std::thread> v;
        for(int t=0;t<thr;++t) v.emplace_back([&]{ for(int i=0;i<ops;++i) { lv::mutex_unique_lock l(m); ++cnt; { lv::unlock_guard<lv::mutex_unique_lock> g(l); } ++cnt; } });
        for(auto& t : v) t.join();
    }
    c.checkf(cnt==2l*thr*ops,"unlock_guard:race",[&]{return str(cnt," of ",2l*thr*ops);});
    c.nontrivial(vh::mix(thr*1000+ops)); vh::jstats(c);
}
namespace {
struct SlowMutex { // mutex which lingers once taken, so that threads taking several of them meet half-way
    std::mutex m;
    void lock() {m.lock(); linger();}
    bool try_lock() {if(!m.try_lock()) return false; linger(); return true;}
    void unlock() {m.unlock();}
    static void linger() {for(int i=0;i<3;++i) std::this_thread::yield();}
};
}
SCENARIO("unlock_guard_orders",80,2000) { // several locks released in the middle of a critical section, named in a different order by every thread
    const int thr=int(c.rng.range(2,5)),ops=int(c.rng.range(5,40)); const bool three=c.rng.chance(0.5); const int jl=int(c.rng.below(3));
    c.desc(str("unlock_guard orders threads=",thr," ops=",ops," mutexes=",three?3:2," jitter=",jl));
    SlowMutex m[3]; long cnt[3]={0,0,0};
    {
        vh::JitterScope js(jl,0,c.rng.u64());
        std::vector<std::thread> v;
        for(int t=0;t<thr;++t) v.emplace_back([&,t]{
            const int p[3]={t%3,(t%2)?(t+1)%3:(t+2)%3,(t%2)?(t+2)%3:(t+1)%3}; SlowMutex &a=m[three?p[0]:t%2],&b=m[three?p[1]:1-t%2],&d=m[three?p[2]:2];
            for(int i=0;i<ops;++i) {
                if(three) {std::lock(a,b,d); for(int k=0;k<3;++k) ++cnt[k]; {lv::unlock_guard<SlowMutex,SlowMutex,SlowMutex> g(a,b,d);} for(int k=0;k<3;++k) ++cnt[k]; d.unlock();}
                else {std::lock(a,b); ++cnt[0]; ++cnt[1]; {lv::unlock_guard<SlowMutex,SlowMutex> g(a,b);} ++cnt[0]; ++cnt[1];}
                a.unlock(); b.unlock();
            }
        });
        for(auto& t : v) t.join();
    }
    c.checkf(cnt[0]==2l*thr*ops && cnt[1]==cnt[0] && cnt[2]==(three?cnt[0]:0l),"unlock_guard:race",[&]{return str(cnt[0],"/",cnt[1],"/",cnt[2]," of ",2l*thr*ops);});
    c.stat("relocks",uint64_t(thr)*ops); c.nontrivial(vh::mix(thr*1000+ops+three)); vh::jstats(c);
}
VH_MAIN
