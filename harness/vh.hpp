// Common harness runtime: seeded cases, status record surviving crashes, violation/coverage reporting.
// Every case is a pure function of (seed, scenario, case index), which is also how it is replayed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <functional>
#include <sstream>
#include <exception>
#include <typeinfo>
#include <cmath>
#include <limits>
#include <mutex>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>

namespace vh {

inline uint64_t mix(uint64_t z);
inline uint64_t mix(uint64_t a, uint64_t b) { return mix(mix(a)*31+b); }
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z^(z>>30))*0xbf58476d1ce4e5b9ull;
    z = (z^(z>>27))*0x94d049bb133111ebull;
    return z^(z>>31);
}
inline uint64_t hstr(const std::string& s) {
    uint64_t h=1469598103934665603ull;
    for(unsigned char c : s) { h^=c; h*=1099511628211ull; }
    return h;
}
inline uint64_t hbytes(const void* p, size_t n, uint64_t h=1469598103934665603ull) {
    const unsigned char* c=(const unsigned char*)p;
    for(size_t i=0;i<n;++i) { h^=c[i]; h*=1099511628211ull; }
    return h;
}
inline uint64_t hbytes(const std::vector<unsigned char>& v) { return hbytes(v.data(),v.size()); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed=1) : s(seed) {}
    uint64_t u64() { s+=0x9e3779b97f4a7c15ull; uint64_t z=s; z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
    uint32_t u32() { return uint32_t(u64()>>32); }
    /// uniform in [0,n)
    uint64_t below(uint64_t n) { return n?u64()%n:0; }
    /// uniform in [a,b]
    int64_t range(int64_t a, int64_t b) { return a+int64_t(below(uint64_t(b-a)+1)); }
    double unit() { return double(u64()>>11)*(1.0/9007199254740992.0); }
    double real(double a, double b) { return a+(b-a)*unit(); }
    /// 'p' is a probability (<=1) or a percentage (>1)
    bool chance(double p) { return unit()<(p>1?p/100:p); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template<typename T> T pick(std::initializer_list<T> v) { return *(v.begin()+below(v.size())); }
};

inline std::string jesc(const std::string& s) {
    std::string o;
    for(unsigned char c : s) {
        if(c=='"' || c=='\\') { o+='\\'; o+=char(c); }
        else if(c<0x20 || c>=0x7f) { char b[8]; snprintf(b,sizeof(b),"\\u%04x",c); o+=b; }
        else o+=char(c);
    }
    return o;
}

struct Violation { std::string key,msg,desc; uint64_t idx; };

struct State {
    std::string scenario;
    uint64_t seed=1;
    bool thorough=false;
    std::string workdir=".";
    std::set<uint64_t> distinct;
    std::map<std::string,uint64_t> stats;
    std::vector<std::string> samples;
    std::vector<Violation> viol; size_t findings=0;
    uint64_t cases=0, checks=0;
    char* status=nullptr; // mmap'ed: survives a crash, tells the driver which case was running
    std::mutex mtx;
};
inline State& st() { static State s; return s; }
static const size_t STATUS_SIZE=8192;

struct Stop {}; // thrown to end a case after a failed check

struct Case {
    uint64_t idx;
    Rng rng;
    std::string desc_;
    explicit Case(uint64_t i, uint64_t seed) : idx(i), rng(seed) {}
    /// describes the case (written to the status record before the code under test runs)
    void desc(const std::string& d) {
        desc_=d;
        if(st().status) {
            snprintf(st().status,STATUS_SIZE,"%llu %s",(unsigned long long)idx,d.substr(0,STATUS_SIZE-64).c_str());
        }
    }
    /// records the case as distinct and non-trivial, by content hash
    void nontrivial(uint64_t h) { std::lock_guard<std::mutex> g(st().mtx); st().distinct.insert(h^hstr(st().scenario)); }
    void nontrivial(const std::string& s) { nontrivial(hstr(s)); }
    void stat(const std::string& k, uint64_t n=1) { std::lock_guard<std::mutex> g(st().mtx); st().stats[k]+=n; }
    void statmax(const std::string& k, uint64_t n) { std::lock_guard<std::mutex> g(st().mtx); auto& v=st().stats["max_"+k]; if(n>v) v=n; }
    void sample(const std::string& s) { std::lock_guard<std::mutex> g(st().mtx); if(st().samples.size()<3) st().samples.push_back(s); }
    void fail(const std::string& key, const std::string& msg) {
        std::lock_guard<std::mutex> g(st().mtx);
        st().viol.push_back(Violation{key,msg,desc_,idx});
    }
    /// records a violation that known_findings.txt might list: at most once per key, and without ending the run
    void finding(const std::string& key, const std::string& msg) {
        std::lock_guard<std::mutex> g(st().mtx);
        ++st().checks;
        for(auto& v : st().viol) if(v.key==key) return;
        st().viol.push_back(Violation{key,msg,desc_,idx}); ++st().findings;
    }
    /// oracle check: records a violation and ends the case when it does not hold
    void check(bool ok, const std::string& key, const std::string& msg=std::string()) {
        { std::lock_guard<std::mutex> g(st().mtx); ++st().checks; }
        if(!ok) { fail(key,msg); throw Stop(); }
    }
    template<typename F> void checkf(bool ok, const char* key, F&& f) {
        { std::lock_guard<std::mutex> g(st().mtx); ++st().checks; }
        if(!ok) { fail(key,f()); throw Stop(); }
    }
    /// oracle check whose message is put together from the remaining arguments
    template<typename... A> void ck(bool ok, const char* key, const A&... a) {
        { std::lock_guard<std::mutex> g(st().mtx); ++st().checks; }
        if(!ok) { std::ostringstream o; o.precision(17); int d[]={0,((void)(o<<a),0)...}; (void)d; fail(key,o.str()); throw Stop(); }
    }
    bool thorough() const { return st().thorough; }
    const std::string& workdir() const { return st().workdir; }
};

struct Scenario { std::string name; std::function<void(Case&)> fn; uint64_t quick,thor; };
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Case&)> f) { scenarios().push_back(Scenario{n,f,q,t}); } };
#define VH_CAT2(a,b) a##b
#define VH_CAT(a,b) VH_CAT2(a,b)
/// SCENARIO(name, quick cases, thorough cases) { body using 'vh::Case& c' }
#define SCENARIO(name,quick,thor) \
    static void VH_CAT(vh_fn_,__LINE__)(vh::Case& c); \
    static vh::Reg VH_CAT(vh_reg_,__LINE__)(name,quick,thor,VH_CAT(vh_fn_,__LINE__)); \
    static void VH_CAT(vh_fn_,__LINE__)(vh::Case& c)

template<typename... A> std::string str(const A&... a) { std::ostringstream o; o.precision(17); int d[]={0,((void)(o<<a),0)...}; (void)d; return o.str(); }

inline int run(int argc, char** argv) {
    std::string scen,out,statusf; uint64_t seed=1,start=0,n=0; bool list=false;
    for(int i=1;i<argc;++i) {
        std::string a=argv[i];
        auto nx=[&]{ return std::string(i+1<argc?argv[++i]:""); };
        if(a=="--list") list=true;
        else if(a=="--scenario") scen=nx();
        else if(a=="--seed") seed=strtoull(nx().c_str(),0,10);
        else if(a=="--start") start=strtoull(nx().c_str(),0,10);
        else if(a=="--cases") n=strtoull(nx().c_str(),0,10);
        else if(a=="--out") out=nx();
        else if(a=="--status") statusf=nx();
        else if(a=="--workdir") st().workdir=nx();
        else if(a=="--thorough") st().thorough=true;
    }
    if(list) { for(auto& s : scenarios()) printf("%s %llu %llu\n",s.name.c_str(),(unsigned long long)s.quick,(unsigned long long)s.thor); return 0; }
    Scenario* S=nullptr;
    for(auto& s : scenarios()) if(s.name==scen) S=&s;
    if(!S) { fprintf(stderr,"no such scenario\n"); return 3; }
    if(!statusf.empty()) {
        int fd=open(statusf.c_str(),O_RDWR|O_CREAT|O_TRUNC,0644);
        if(fd>=0 && ftruncate(fd,STATUS_SIZE)==0) {
            void* p=mmap(nullptr,STATUS_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0);
            if(p!=MAP_FAILED) st().status=(char*)p;
            close(fd);
        }
    }
    st().scenario=scen; st().seed=seed;
    for(uint64_t i=start;i<start+n;++i) {
        Case c(i,mix(mix(seed)^hstr(scen)^mix(i*2654435761ull+17)));
        c.desc("(setup)");
        ++st().cases;
        try { S->fn(c); }
        catch(const Stop&) {}
        catch(const std::exception& e) { c.fail("exception:"+scen,std::string("unexpected exception: ")+e.what()); }
        catch(...) { c.fail("exception:"+scen,"unexpected non-standard exception"); }
        if(st().viol.size()>=5+st().findings) break;
    }
    FILE* f=out.empty()?stdout:fopen(out.c_str(),"w");
    if(!f) return 3;
    fprintf(f,"{\"scenario\":\"%s\",\"cases\":%llu,\"checks\":%llu,\"distinct\":[",scen.c_str(),(unsigned long long)st().cases,(unsigned long long)st().checks);
    bool first=true;
    for(uint64_t h : st().distinct) { fprintf(f,"%s\"%016llx\"",first?"":",",(unsigned long long)h); first=false; }
    fprintf(f,"],\"stats\":{"); first=true;
    for(auto& p : st().stats) { fprintf(f,"%s\"%s\":%llu",first?"":",",jesc(p.first).c_str(),(unsigned long long)p.second); first=false; }
    fprintf(f,"},\"samples\":["); first=true;
    for(auto& s : st().samples) { fprintf(f,"%s\"%s\"",first?"":",",jesc(s).c_str()); first=false; }
    fprintf(f,"],\"violations\":["); first=true;
    for(auto& v : st().viol) { fprintf(f,"%s{\"key\":\"%s\",\"msg\":\"%s\",\"desc\":\"%s\",\"case\":%llu}",first?"":",",jesc(v.key).c_str(),jesc(v.msg.substr(0,2000)).c_str(),jesc(v.desc.substr(0,2000)).c_str(),(unsigned long long)v.idx); first=false; }
    fprintf(f,"]}\n");
    if(f!=stdout) fclose(f);
    fflush(stdout);
    _exit(st().viol.empty()?0:7);
}

} // namespace vh

#define VH_MAIN int main(int argc, char** argv) { return vh::run(argc,argv); }
