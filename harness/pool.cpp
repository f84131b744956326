// C01 worker pool
#define VH_SCHED_IMPL
#include "sched.hpp"
#include "litiv/utils/cxx.hpp"
#include <array>
#include <cstdarg>
#include <iostream>
#include <sstream>
using vh::str;

namespace {
typedef std::memory_order MO;
const std::memory_order RLX=std::memory_order_relaxed;

struct TaskErr { int id; };

struct Ev { uint32_t task; uint64_t tid; };

/// online log of executions: slot per execution, claimed with a relaxed counter so that no ordering is added between threads
struct ExecLog {
    std::vector<std::atomic<uint32_t>> count;   // executions per task id
    std::vector<std::atomic<uint64_t>> tid;     // hash of executing thread
    std::vector<std::atomic<uint32_t>> order;   // execution order (task id + 1)
    std::atomic<uint32_t> next{0};
    std::atomic<int> running{0},maxrunning{0};
    explicit ExecLog(size_t n) : count(n),tid(n),order(n*2+16) {}
    void enter(uint32_t id) {
        count[id].fetch_add(1,RLX);
        tid[id].store(std::hash<std::thread::id>()(std::this_thread::get_id()),RLX);
        const uint32_t k=next.fetch_add(1,RLX);
        if(k<order.size()) order[k].store(id+1,RLX);
        const int r=running.fetch_add(1,RLX)+1;
        int m=maxrunning.load(RLX);
        while(r>m && !maxrunning.compare_exchange_weak(m,r,RLX));
    }
    void leave() { running.fetch_sub(1,RLX); }
};

struct Outcome { int kind; std::future<int> fi; std::future<std::string> fs; std::future<void> fv; };

void spin(uint64_t r) {
    if(r%4==0) sched_yield();
    else if(r%4==1) { timespec ts{0,long(r/4%60000)}; nanosleep(&ts,nullptr); }
}

template<size_t W> void poolCase(vh::Case& c, size_t P, size_t T, int jl, int endMode) {
    const size_t N=P*T;
    ExecLog log(N);
    std::vector<std::array<uint64_t,2>> plan(N);
    for(auto& p : plan) { p[0]=c.rng.below(6); p[1]=c.rng.u64(); }
    std::vector<Outcome> out(N);
    std::vector<uint64_t> ptid(P);
    std::vector<std::vector<int>> payload(N); // non-atomic data written by the producer, read and rewritten by the task, read after the future
    for(size_t i=0;i<N;++i) payload[i].assign(1,0);
    {
        std::unique_ptr<lv::WorkerPool<W>> pool(new lv::WorkerPool<W>());
        vh::JitterScope js(jl,jl?15:0,c.rng.u64());
        std::vector<std::thread> prod;
        for(size_t p=0;p<P;++p)
            prod.emplace_back([&,p]{
                ptid[p]=std::hash<std::thread::id>()(std::this_thread::get_id());
                for(size_t t=0;t<T;++t) {
                    const uint32_t id=uint32_t(p*T+t);
                    const uint64_t k=plan[id][0],r=plan[id][1];
                    payload[id][0]=int(id)+7;
                    Outcome& o=out[id];
                    o.kind=int(k);
                    auto body=[&log,&payload,id,r]{ log.enter(id); spin(r); payload[id][0]*=3; log.leave(); };
                    if(k<=1) o.fi=pool->queueTask([body,id](int a, const std::string& s){ body(); return a+int(s.size()); },int(id*2),std::string(id%50,'x'));
                    else if(k==2) o.fs=pool->queueTask([body](std::string s){ body(); return s+"#"; },std::string("t")+std::to_string(id)+std::string(r%100,'y'));
                    else if(k==3) o.fv=pool->queueTask(body);
                    else if(k==4) o.fi=pool->queueTask([body,id]()->int{ body(); throw TaskErr{int(id)}; });
                    else o.fv=pool->queueTask([body,id]{ body(); throw std::runtime_error("task "+std::to_string(id)); });
                    if(r%3==0) spin(r>>8);
                }
            });
        for(auto& t : prod) t.join();
        if(endMode==0) { // destruction with work still queued
            pool.reset();
        }
        else if(endMode==1) { // wait on the outcomes first
            for(auto& o : out) { if(o.fi.valid()) o.fi.wait(); if(o.fs.valid()) o.fs.wait(); if(o.fv.valid()) o.fv.wait(); }
            pool.reset();
        }
        else { // idle for a while, then destroy
            timespec ts{0,long(c.rng.below(2000000))}; nanosleep(&ts,nullptr);
            pool.reset();
        }
    }
    std::set<uint64_t> tids;
    for(size_t i=0;i<N;++i) {
        const uint32_t n=log.count[i].load(RLX);
        c.checkf(n==1,"pool:exactly-once",[&]{return str("task ",i," executed ",n," times");});
        tids.insert(log.tid[i].load(RLX));
        Outcome& o=out[i];
        auto ready=[&](auto& f){ return f.wait_for(std::chrono::seconds(0))==std::future_status::ready; };
        const bool rd=o.fi.valid()?ready(o.fi):o.fs.valid()?ready(o.fs):o.fv.valid()?ready(o.fv):false;
        c.checkf(rd,"pool:future-ready",[&]{return str("future of task ",i," not ready after pool destruction");});
        bool ok=false; std::string got;
        try {
            if(o.kind<=1) { const int v=o.fi.get(); ok=(v==int(i*2)+int(i%50)); got=str(v); }
            else if(o.kind==2) { got=o.fs.get(); ok=(got==std::string("t")+std::to_string(i)+std::string(plan[i][1]%100,'y')+"#"); }
            else if(o.kind==3) { o.fv.get(); ok=true; }
            else if(o.kind==4) { o.fi.get(); got="no exception"; }
            else { o.fv.get(); got="no exception"; }
        }
        catch(const TaskErr& e) { ok=(o.kind==4 && e.id==int(i)); got=str("TaskErr ",e.id); }
        catch(const std::exception& e) { ok=(o.kind==5 && e.what()==std::string("task ")+std::to_string(i)); got=e.what(); }
        catch(...) { got="other exception"; }
        c.checkf(ok,"pool:outcome",[&]{return str("task ",i," kind ",o.kind," delivered '",got,"'");});
        c.checkf(payload[i][0]==(int(i)+7)*3,"pool:effect",[&]{return str("side effect of task ",i," lost");});
    }
    c.checkf(tids.size()<=W,"pool:worker-count",[&]{return str(tids.size()," threads executed tasks, pool has ",W);});
    for(auto t : ptid) c.check(!tids.count(t),"pool:own-threads","task executed on the queueing thread");
    c.checkf(size_t(log.maxrunning.load())<=W,"pool:parallel",[&]{return str(log.maxrunning.load()," tasks ran at the same time");});
    if(W==1 && P==1)
        for(size_t i=0;i<N;++i) c.checkf(log.order[i].load()==i+1,"pool:fifo",[&]{return str("position ",i," ran task ",int(log.order[i].load())-1);});
    c.stat("tasks",N); c.statmax("parallel",log.maxrunning.load());
    std::vector<uint32_t> ord(N); for(size_t i=0;i<N;++i) ord[i]=log.order[i].load(RLX);
    c.nontrivial(vh::hbytes(ord.data(),ord.size()*4)); // distinct interleavings = distinct execution orders
    c.sample(str("W=",W," producers=",P," tasks/producer=",T," first executed tasks: ",ord.size()>3?str(ord[0],",",ord[1],",",ord[2],",",ord[3]):str(ord.size())));
    vh::jstats(c);
}

template<size_t W> void nestedCase(vh::Case& c, size_t roots, size_t depth, int jl) {
    // every task queues more tasks, also while the destructor is already waiting: accepted ones must run, refused ones must not
    const size_t CAP=1+roots*(size_t(1)<<(depth+1));
    std::vector<std::atomic<int>> state(CAP); // 0 unused, 1 attempted, 2 accepted, 3 refused
    std::vector<std::atomic<int>> runs(CAP);
    std::atomic<uint32_t> next{0};
    std::atomic<uint64_t> attempts{0},refusals{0};
    {
        std::unique_ptr<lv::WorkerPool<W>> pool(new lv::WorkerPool<W>());
        lv::WorkerPool<W>* pp=pool.get();
        vh::JitterScope js(jl,jl?15:0,c.rng.u64());
        std::function<void(size_t,size_t)> submit=[&](size_t d, size_t salt){
            const uint32_t id=next.fetch_add(1,RLX);
            if(id>=CAP) return;
            attempts.fetch_add(1,RLX);
            try {
                pp->queueTask([&,id,d,salt]{
                    runs[id].fetch_add(1,RLX);
                    spin(salt*2654435761u);
                    if(d>0) { submit(d-1,salt*3+1); submit(d-1,salt*5+2); }
                });
                state[id].store(2,RLX);
            }
            catch(const std::runtime_error&) { state[id].store(3,RLX); refusals.fetch_add(1,RLX); }
        };
        for(size_t i=0;i<roots;++i) submit(depth,c.rng.below(1000000));
        if(c.rng.chance(0.5)) { timespec ts{0,long(c.rng.below(300000))}; nanosleep(&ts,nullptr); }
        pool.reset();
    }
    const uint32_t n=std::min<uint32_t>(next.load(),uint32_t(CAP));
    for(uint32_t i=0;i<n;++i) {
        const int s=state[i].load(),r=runs[i].load();
        c.checkf((s==2 && r==1) || (s==3 && r==0),"pool:nested",[&]{return str("sub-task ",i,s==2?" accepted":" refused"," but ran ",r," times");});
    }
    c.stat("accepted",n-refusals.load()); c.stat("refused_during_destruction",refusals.load());
    c.nontrivial(vh::mix(n)^vh::mix(refusals.load()+1000)^vh::mix(c.idx));
    vh::jstats(c);
}

template<size_t W> void saturateCase(vh::Case& c, int jl) {
    // W tasks which each wait for all others: only completes when every worker can be busy at the same time
    const size_t rounds=3;
    std::atomic<bool> stalled{false};
    {
        lv::WorkerPool<W> pool;
        vh::JitterScope js(jl,jl?15:0,c.rng.u64());
        for(size_t r=0;r<rounds;++r) {
            std::atomic<size_t> in{0};
            std::vector<std::future<void>> f;
            for(size_t i=0;i<W;++i)
                f.push_back(pool.queueTask([&]{ in.fetch_add(1,RLX); if(!vh::eventually([&]{return in.load(RLX)>=W || stalled.load(RLX);})) stalled.store(true,RLX); }));
            for(auto& x : f) x.wait();
            if(stalled.load()) break;
        }
    }
    c.check(!stalled.load(),"pool:saturate",str(W," tasks never ran at the same time on ",W," workers"));
    c.nontrivial(vh::mix(W*1000+jl)^vh::mix(c.idx)); vh::jstats(c);
}
} // namespace

SCENARIO("pool_stress",800,40000) {
    lv::setVerbosity(0);
    const size_t P=size_t(c.rng.range(1,5)),T=size_t(c.rng.range(1,40)); const int jl=int(c.rng.below(3)),em=int(c.rng.below(3)); const int w=int(c.rng.below(6));
    c.desc(str("pool stress w=",w," producers=",P," tasks=",T," jitter=",jl," end=",em));
    switch(w) { case 0: poolCase<1>(c,P,T,jl,em); break; case 1: poolCase<2>(c,P,T,jl,em); break; case 2: poolCase<3>(c,P,T,jl,em); break; case 3: poolCase<4>(c,P,T,jl,em); break; case 4: poolCase<8>(c,P,T,jl,em); break; default: poolCase<1>(c,1,T,jl,em); }
}
SCENARIO("pool_nested",600,20000) {
    lv::setVerbosity(0);
    const size_t R=size_t(c.rng.range(1,6)),D=size_t(c.rng.range(0,4)); const int jl=int(c.rng.below(3)); const int w=int(c.rng.below(4));
    c.desc(str("pool nested w=",w," roots=",R," depth=",D," jitter=",jl));
    std::cerr.setstate(std::ios::failbit); // refusals are logged on stderr
    switch(w) { case 0: nestedCase<1>(c,R,D,jl); break; case 1: nestedCase<2>(c,R,D,jl); break; case 2: nestedCase<4>(c,R,D,jl); break; default: nestedCase<7>(c,R,D,jl); }
}
SCENARIO("pool_saturate",160,4000) {
    lv::setVerbosity(0);
    const int jl=int(c.rng.below(3)); const int w=int(c.rng.below(4));
    c.desc(str("pool saturate w=",w," jitter=",jl));
    switch(w) { case 0: saturateCase<1>(c,jl); break; case 1: saturateCase<2>(c,jl); break; case 2: saturateCase<4>(c,jl); break; default: saturateCase<8>(c,jl); }
}
SCENARIO("pool_lifecycle",200,8000) { // short-lived pools: creation/destruction with zero or one task, from several threads at once
    lv::setVerbosity(0);
    const int K=int(c.rng.range(1,4)),R=int(c.rng.range(1,6)); const int jl=int(c.rng.below(3));
    c.desc(str("pool lifecycle threads=",K," rounds=",R," jitter=",jl));
    std::atomic<int> ran{0}; int expect=0;
    std::vector<std::vector<int>> plan(K);
    for(auto& p : plan) for(int r=0;r<R;++r) { p.push_back(int(c.rng.below(3))); expect+=p.back(); }
    {
        vh::JitterScope js(jl,jl?15:0,c.rng.u64());
        std::vector<std::thread> v;
        for(int k=0;k<K;++k) v.emplace_back([&,k]{ for(int n : plan[k]) { lv::WorkerPool<2> pool; for(int i=0;i<n;++i) pool.queueTask([&]{ran.fetch_add(1,RLX);}); } });
        for(auto& t : v) t.join();
    }
    c.checkf(ran.load()==expect,"pool:lifecycle",[&]{return str(ran.load()," of ",expect," tasks ran");});
    c.nontrivial(vh::mix(c.idx)); vh::jstats(c);
}
VH_MAIN
