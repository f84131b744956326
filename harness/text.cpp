// C03 text output
#define VH_SCHED_IMPL
#include "sched.hpp"
#include "litiv/utils/cxx.hpp"
#include <array>
#include <cstdarg>
#include <iostream>
#include <sstream>
using vh::str;

namespace {
const std::memory_order RLX=std::memory_order_relaxed;
struct TaskErr { int id; };
inline void spin(uint64_t r) {
    if(r%4==0) sched_yield();
    else if(r%4==1) { timespec ts{0,long(r/4%60000)}; nanosleep(&ts,nullptr); }
}
}
namespace {
std::string ref(const char* f, ...) { // reference: two-pass vsnprintf into a buffer of exactly the needed size
    va_list a,b; va_start(a,f); va_copy(b,a);
    const int n=vsnprintf(nullptr,0,f,a); va_end(a);
    std::vector<char> v(size_t(n)+1); vsnprintf(v.data(),v.size(),f,b); va_end(b);
    return std::string(v.data(),size_t(n));
}
std::string words(vh::Rng& r, size_t n) { std::string s(n,' '); for(auto& ch : s) ch=char(33+r.below(94)); return s; }
size_t pickLen(vh::Rng& r) {
    static const size_t B[]={0,1,15,16,127,128,255,256,511,512,1023,1024,1025,2047,2048,2049,4095,4096,4097,8192,65535,65536};
    if(r.chance(0.6)) { const size_t b=B[r.below(sizeof(B)/sizeof(*B))]; const int64_t d=r.range(-2,2); return size_t(std::max<int64_t>(0,int64_t(b)+d)); }
    if(r.chance(0.5)) return size_t(r.range(1000,1050));
    return size_t(r.below(5000));
}
struct RecBuf : std::streambuf { // deliberately unsynchronised sink
    std::string data;
    int overflow(int ch) override { if(ch!=EOF) data.push_back(char(ch)); return ch; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { if(n>8) { data.append(s,size_t(n/2)); sched_yield(); data.append(s+n/2,size_t(n-n/2)); } else data.append(s,size_t(n)); return n; }
};
}
SCENARIO("fmt_length",20000,600000) {
    const size_t L=pickLen(c.rng); const int shape=int(c.rng.below(6)); const std::string s=words(c.rng,L);
    c.desc(str("format target length ",L," shape ",shape));
    std::string got,want,got2; std::ostringstream os;
    const int iv=int(c.rng.u32()); const double dv=(c.rng.unit()-0.5)*std::pow(10.0,double(c.rng.range(-10,40))); const long long ll=(long long)c.rng.u64();
#define BOTH(...) got=lv::putf(__VA_ARGS__); want=ref(__VA_ARGS__); lv::safe_print((std::ostream&)os,__VA_ARGS__)
    switch(shape) {
        case 0: BOTH("%s",s.c_str()); break;
        case 1: BOTH("%s%d",s.c_str(),iv); break;
        case 2: BOTH("[%*s]",int(L),"x"); break;
        case 3: BOTH("%-*d|%f|%lld|%%|%c",int(L),iv,dv,ll,'z'); break;
        case 4: BOTH("%e %g %08x %s",dv,dv,(unsigned)iv,s.c_str()); break;
        default: { std::string f; for(char ch : s) { f+=ch; if(ch=='%') f+='%'; } BOTH(f.c_str(),0); }
    }
    got2=os.str();
    c.checkf(got==want,"fmt:putf",[&]{return str("length ",want.size(),": got length ",got.size()," differs");});
    c.checkf(got2==want,"fmt:safe_print",[&]{return str("length ",want.size(),": got length ",got2.size()," differs");});
    c.statmax("length",want.size()); c.nontrivial(vh::mix(want.size()*8+shape)); if(want.size()==1024) c.stat("exactly_1024");
    c.sample(str("shape ",shape," length ",want.size()));
}
SCENARIO("fmt_sweep",16,64) { // every result length in a contiguous range around the internal sizes
    const size_t lo=c.idx*(c.thorough()?512:160);
    c.desc(str("format lengths from ",lo));
    for(size_t L=lo;L<lo+(c.thorough()?512u:160u);++L) {
        std::string s=words(c.rng,L); std::ostringstream os;
        c.checkf(lv::putf("%s",s.c_str())==s,"fmt:putf",[&]{return str("length ",L);});
        lv::safe_print((std::ostream&)os,"%s",s.c_str());
        c.checkf(os.str()==s,"fmt:safe_print",[&]{return str("length ",L);});
        c.nontrivial(vh::mix(L));
    }
}
SCENARIO("print_threads",400,20000) {
    const int thr=int(c.rng.range(2,6)),msgs=int(c.rng.range(3,30)); const int jl=int(c.rng.below(3)); const int verb=int(c.rng.below(4));
    c.desc(str("printing threads=",thr," msgs=",msgs," verbosity=",verb," jitter=",jl));
    lv::setVerbosity(verb);
    RecBuf buf; std::ostream os(&buf);
    std::vector<std::vector<std::string>> expect(thr);
    std::vector<uint64_t> seeds(thr); for(auto& s : seeds) s=c.rng.u64();
    {
        vh::JitterScope js(jl,0,c.rng.u64());
        std::vector<std::thread> v;
        for(int t=0;t<thr;++t) v.emplace_back([&,t]{
            vh::Rng r(seeds[t]);
            for(int i=0;i<msgs;++i) {
                const int kind=int(r.below(4)); const size_t L=r.chance(0.3)?pickLen(r)%3000:size_t(r.below(40));
                const std::string pay=words(r,L),head=str("<",t,":",i,":"),full=head+pay+">\n";
                if(kind==0) { lv::safe_print(os,"%s%s>\n",head.c_str(),pay.c_str()); expect[t].push_back(full); }
                else if(kind==1) { lv::safe_print(full,os); expect[t].push_back(full); }
                else {
                    const int lvl=int(r.below(5));
                    lv::ostream_guard<std::ostream>(os,lvl) << "<" << t << ":" << i << ":" << pay << ">" << std::endl;
                    if(lvl<=verb) expect[t].push_back(full);
                }
            }
        });
        for(auto& t : v) t.join();
    }
    // offline check of the recorded stream: it must be an interleaving of whole messages, each thread's in its order
    std::vector<size_t> pos(thr,0); size_t p=0; std::string order;
    const std::string& d=buf.data;
    while(p<d.size()) {
        int t=-1;
        for(int k=0;k<thr;++k) if(pos[k]<expect[k].size() && d.compare(p,expect[k][pos[k]].size(),expect[k][pos[k]])==0) { t=k; break; }
        c.checkf(t>=0,"print:interleaved",[&]{return str("at byte ",p,": '",d.substr(p,60),"' is no complete next message of any thread");});
        p+=expect[t][pos[t]++].size(); order+=char('0'+t);
    }
    size_t n=0;
    for(int k=0;k<thr;++k) { c.checkf(pos[k]==expect[k].size(),"print:lost",[&]{return str("thread ",k,": ",pos[k]," of ",expect[k].size()," messages written");}); n+=pos[k]; }
    c.stat("messages",n); c.stat("bytes",d.size()); c.nontrivial(order); c.sample("order of writers: "+order.substr(0,60)); vh::jstats(c);
    lv::setVerbosity(0);
}
SCENARIO("fmt_threads",150,4000) { // messages and errors composed concurrently do not affect each other
    const int thr=int(c.rng.range(2,6)),msgs=int(c.rng.range(10,60)); const int jl=int(c.rng.below(3));
    c.desc(str("composing threads=",thr," msgs=",msgs," jitter=",jl));
    std::vector<std::string> bad(thr); std::vector<uint64_t> seeds(thr); for(auto& s : seeds) s=c.rng.u64();
    std::vector<size_t> n(thr,0);
    {
        vh::JitterScope js(jl,0,c.rng.u64());
        std::vector<std::thread> v; std::atomic<int> ready(0);
        for(int t=0;t<thr;++t) v.emplace_back([&,t]{
            vh::Rng r(seeds[t]); ++ready; while(ready.load()<thr) sched_yield();
            for(int i=0;i<msgs && bad[t].empty();++i) {
                const size_t L=r.chance(0.3)?pickLen(r)%3000:size_t(r.below(40)); const std::string pay=words(r,L); const int k=int(r.below(1000)); const double x=r.real(-10,10);
                const std::string want=ref("<%d|%s|%05d|%.3f>",t,pay.c_str(),k,x);
                std::string got;
                switch(r.below(4)) {
                    case 0: got=lv::putf("<%d|%s|%05d|%.3f>",t,pay.c_str(),k,x); break;
                    case 1: {std::ostringstream os; lv::safe_print((std::ostream&)os,"<%d|%s|%05d|%.3f>",t,pay.c_str(),k,x); got=os.str(); break;}
                    case 2: try {lvError_("<%d|%s|%05d|%.3f>",t,pay.c_str(),k,x);} catch(const std::exception& e) {got=e.what(); if(got.find(want)!=std::string::npos) got=want;} break;
                    default: try {lvAssert_(k<0,want);} catch(const std::exception& e) {got=e.what(); if(got.find(want)!=std::string::npos) got=want;} break;
                }
                if(got!=want) bad[t]=str("message ",i," of thread ",t,": '",got.substr(0,60),"' instead of '",want.substr(0,60),"'");
                ++n[t];
            }
        });
        for(auto& t : v) t.join();
    }
    for(int t=0;t<thr;++t) {if(!bad[t].empty()) c.fail("fmt:threads",bad[t]); c.stat("concurrent messages",n[t]);}
    c.nontrivial(str(thr,"/",msgs,"/",jl,"/",seeds[0])); vh::jstats(c);
}
SCENARIO("print_verbosity",400,20000) {
    const int verb=int(c.rng.range(-2,6)),lvl=int(c.rng.range(-2,6));
    c.desc(str("verbosity ",verb," level ",lvl));
    lv::setVerbosity(verb);
    c.check(lv::getVerbosity()==verb,"verbosity:get");
    std::ostringstream os; { lv::ostream_guard<std::ostream> g(os,lvl); g << "a" << 1 << 'b' << std::hex << 255 << std::endl << 2.5; }
    std::ostringstream co; auto* old=std::cout.rdbuf(co.rdbuf()); lvCout_(lvl) << "m" << lvl << std::endl; std::cout.rdbuf(old);
    lv::setVerbosity(0);
    c.check(os.str()==(lvl<=verb?"a1bff\n2.5":""),"verbosity:guard",os.str());
    c.check(co.str()==(lvl<=verb?str("m",lvl,"\n"):std::string()),"verbosity:cout",co.str());
    c.nontrivial(vh::mix((verb+10)*100+lvl));
}
SCENARIO("verbosity_threads",120,4000) { // verbosity changed while others log: no race; a message whose level is always above is never written
    const int thr=int(c.rng.range(1,4)); const int jl=int(c.rng.below(3));
    c.desc(str("verbosity changes with ",thr," writers"));
    RecBuf buf; std::ostream os(&buf); std::atomic<bool> stop{false};
    {
        vh::JitterScope js(jl,0,c.rng.u64());
        std::vector<std::thread> v;
        for(int t=0;t<thr;++t) v.emplace_back([&]{ for(int i=0;i<40;++i) { lv::ostream_guard<std::ostream>(os,9) << "never"; lv::ostream_guard<std::ostream>(os,0) << "A"; } });
        for(int i=0;i<60;++i) { lv::setVerbosity(int(i%5)); sched_yield(); }
        for(auto& t : v) t.join();
    }
    lv::setVerbosity(0);
    c.check(buf.data==std::string(size_t(thr)*40,'A'),"verbosity:threads",buf.data.substr(0,100));
    c.nontrivial(vh::mix(c.idx)); vh::jstats(c);
}
SCENARIO("exception_text",600,20000) { // framework exceptions carry their complete message
    const size_t L=pickLen(c.rng); const std::string s=words(c.rng,L); const int iv=int(c.rng.u32());
    c.desc(str("exception message length ",L));
    lv::setVerbosity(0);
    std::string what;
    try { lvError_("payload [%s] value %d",s.c_str(),iv); } catch(const lv::Exception& e) { what=e.what(); c.check(e.m_nLineNumber>0 && e.m_acFuncName && e.m_acFileName,"exception:info"); }
    const std::string want=str("payload [",s,"] value ",iv);
    c.checkf(what.find(want)!=std::string::npos,"exception:text",[&]{return str("message of length ",what.size()," lacks the payload");});
    { // the text of a failed check is reported verbatim, whatever characters it holds
        int n=2,s2=3,d=int(L%7)+8; std::string w2,w3,w4; (void)s2;
        try { lvAssert(100%d==-1 && (5%n)==s2 && "%n%s%d"[0]!='%'); } catch(const lv::Exception& e) { w2=e.what(); }
        c.check(w2.find("100%d==-1 && (5%n)==s2 && \"%n%s%d\"[0]!='%'")!=std::string::npos,"exception:verbatim",w2);
        try { lvAssert_(100%d==-1,s+"%n 100%"); } catch(const lv::Exception& e) { w3=e.what(); }
        c.check(w3.find(s+"%n 100%")!=std::string::npos && w3.find("100%d==-1")!=std::string::npos,"exception:verbatim-msg",w3);
        try { lvAssert__(100%d==-1 && 5%n==7,"v=%d%%",iv); } catch(const lv::Exception& e) { w4=e.what(); }
        c.check(w4.find(str("v=",iv,"%"))!=std::string::npos && w4.find("100%d==-1 && 5%n==7")!=std::string::npos,"exception:verbatim-args",w4);
        try { lvError(s+"%s%n"); } catch(const lv::Exception& e) { w4=e.what(); }
        c.check(w4.find(s+"%s%n")!=std::string::npos,"exception:verbatim-error",w4);
    }
    bool thrown=false; try { lvAssert__(iv==iv+int(L%2),"n=%d",iv); } catch(const lv::Exception& e) { thrown=true; c.check(std::string(e.what()).find(str("n=",iv))!=std::string::npos,"exception:assert-text"); }
    c.check(thrown==(L%2==1),"exception:assert");
    c.nontrivial(vh::mix(what.size()));
}
SCENARIO("nested_errors",300,8000) { // errors raised while a message is composed propagate, whole messages of other threads stay whole, and logging goes on
    const int thr=int(c.rng.range(1,4)); const int verb=int(c.rng.below(2)); const uint64_t s0=c.rng.u64();
    c.desc(str("errors raised while composing messages, threads=",thr," verbosity=",verb));
    RecBuf buf; std::ostream os(&buf); std::ostringstream err; std::atomic<int> bad{0}; std::vector<int> ok(thr,0);
    auto* old=std::cerr.rdbuf(err.rdbuf());
    lv::setVerbosity(verb);
    {
        vh::JitterScope js(int(c.rng.below(3)),0,c.rng.u64());
        std::vector<std::thread> v;
        for(int t=0;t<thr;++t) v.emplace_back([&,t]{
            vh::Rng r(s0+t);
            auto fail=[&](int k)->int { if(k%3==0) lvError_("composing %d failed",k); lvAssert_(k%3!=1,"bad value"); return k; };
            for(int i=0;i<10;++i) {
                const int k=int(r.below(9)); bool thrown=false;
                try { lv::ostream_guard<std::ostream>(os,0) << '<' << fail(k) << ">"; ++ok[t]; } catch(const lv::Exception& e) { thrown=true; if(k%3==0 && std::string(e.what()).find(str("composing ",k," failed"))==std::string::npos) ++bad; }
                if(thrown!=(k%3!=2)) ++bad;
                lv::safe_print(std::string("."),os);
            }
        });
        for(auto& t : v) t.join();
    }
    std::cerr.rdbuf(old); lv::setVerbosity(0);
    c.check(bad==0,"nested:error",str(bad.load()," errors were lost or altered"));
    const std::string& d=buf.data; size_t dots=0,msgs=0,want=0; for(char ch : d) { dots+=ch=='.'; msgs+=ch=='>'; } for(int n : ok) want+=size_t(n);
    c.check(dots==size_t(thr)*10 && msgs==want,"nested:lost",str(dots," and ",msgs," messages written, expected ",thr*10," and ",want));
    c.check(verb==0 || err.str().find("bad value")!=std::string::npos || err.str().find("failed")!=std::string::npos || want==size_t(thr)*10,"nested:log","raised errors were not logged");
    c.stat("nested_messages",msgs); c.nontrivial(d); vh::jstats(c);
}
VH_MAIN
