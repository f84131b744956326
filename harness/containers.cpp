// C04 containers
#include "vh.hpp"
#include "litiv/utils/cxx.hpp"
#include <memory>
using vh::str;

namespace {
/// model of one buffer: known[i] tells whether element i has a defined value
template<typename T> struct Model { std::vector<T> v; std::vector<char> known; };

template<typename T> T val(vh::Rng& r) { return T(int64_t(r.below(200))-(std::is_signed<T>::value?100:0)); }

template<typename T> struct IBuf {
    virtual ~IBuf() {}
    virtual size_t id() const=0;
    virtual T* data()=0; virtual size_t size() const=0; virtual size_t cap() const=0; virtual bool isStatic() const=0; virtual const void* self() const=0; virtual size_t objSize() const=0; virtual size_t maxStatic() const=0;
    Model<T> m;
};
template<typename T, size_t S> struct Buf : IBuf<T> {
    lv::AutoBuffer<T,S,16> b;
    Buf() {}
    explicit Buf(size_t n) : b(n) {}
    template<typename O> Buf(O&& o, int) : b(std::forward<O>(o)) {}
    size_t id() const override { return S; }
    T* data() override { return b.data(); } size_t size() const override { return b.size(); } size_t cap() const override { return b.capacity(); } bool isStatic() const override { return b.is_static(); }
    const void* self() const override { return &b; } size_t objSize() const override { return sizeof(b); } size_t maxStatic() const override { return b.max_static_size(); }
};
template<typename T, typename F> void dispatch(IBuf<T>* p, F&& f) {
    switch(p->id()) { case 1: f(*static_cast<Buf<T,1>*>(p)); break; case 4: f(*static_cast<Buf<T,4>*>(p)); break; case 10: f(*static_cast<Buf<T,10>*>(p)); break; default: f(*static_cast<Buf<T,33>*>(p)); }
}

template<typename T> void verify(vh::Case& c, std::vector<std::unique_ptr<IBuf<T>>>& bufs, const std::string& op) {
    for(size_t k=0;k<bufs.size();++k) {
        IBuf<T>* p=bufs[k].get();
        c.checkf(p->size()==p->m.v.size(),"buf:size",[&]{return str("after ",op,": size ",p->size()," expected ",p->m.v.size());});
        c.checkf(p->cap()>=p->size(),"buf:capacity",[&]{return str("after ",op,": capacity ",p->cap()," < size ",p->size());});
        c.checkf(uintptr_t(p->data())%16==0,"buf:aligned",[&]{return str("after ",op);});
        const bool inside=uintptr_t(p->data())>=uintptr_t(p->self()) && uintptr_t(p->data()+p->cap())<=uintptr_t(p->self())+p->objSize();
        c.checkf(inside==p->isStatic(),"buf:is_static",[&]{return str("after ",op,": is_static()=",p->isStatic()," but storage is ",inside?"inside":"outside"," the object");});
        c.checkf(p->maxStatic()==p->id(),"buf:max_static",[&]{return op;});
        for(size_t j=0;j<k;++j) {
            IBuf<T>* q=bufs[j].get();
            const bool disj=p->data()+p->cap()<=q->data() || q->data()+q->cap()<=p->data();
            c.checkf(disj,"buf:shared-storage",[&]{return str("after ",op,": two buffers share storage");});
        }
        dispatch(p,[&](auto& B){
            const auto& cb=B.b; size_t i=0;
            for(auto it=cb.begin();it!=cb.end();++it,++i)
                if(p->m.known[i]) c.checkf(*it==p->m.v[i] && cb[i]==p->m.v[i] && cb.at(i)==p->m.v[i],"buf:value",[&]{return str("after ",op,": element ",i," of ",p->size()," is ",double(*it)," expected ",double(p->m.v[i])," (static size ",p->id(),")");});
            c.check(i==p->size() && cb.empty()==(i==0),"buf:iterate",op);
        });
    }
}

template<typename T> std::unique_ptr<IBuf<T>> make(int s, size_t n) {
    switch(s) { case 0: return std::unique_ptr<IBuf<T>>(new Buf<T,1>(n)); case 1: return std::unique_ptr<IBuf<T>>(new Buf<T,4>(n)); case 2: return std::unique_ptr<IBuf<T>>(new Buf<T,10>(n)); default: return std::unique_ptr<IBuf<T>>(new Buf<T,33>(n)); }
}
template<typename T, typename SRC> std::unique_ptr<IBuf<T>> makeFrom(int s, SRC&& src) {
    switch(s) { case 0: return std::unique_ptr<IBuf<T>>(new Buf<T,1>(std::forward<SRC>(src),0)); case 1: return std::unique_ptr<IBuf<T>>(new Buf<T,4>(std::forward<SRC>(src),0)); case 2: return std::unique_ptr<IBuf<T>>(new Buf<T,10>(std::forward<SRC>(src),0)); default: return std::unique_ptr<IBuf<T>>(new Buf<T,33>(std::forward<SRC>(src),0)); }
}
size_t pickSize(vh::Rng& r) { return size_t(r.pick({0,1,2,3,4,5,9,10,11,20,32,33,34,64,100})); }

template<typename T> void bufCase(vh::Case& c, const char* tn) {
    std::vector<std::unique_ptr<IBuf<T>>> bufs;
    const size_t steps=size_t(c.rng.range(5,60));
    std::string trace; 
    auto fill=[&](IBuf<T>* p){ for(size_t i=0;i<p->size();++i) { p->m.v[i]=val<T>(c.rng); p->m.known[i]=1; p->data()[i]=p->m.v[i]; } };
    auto afterMove=[&](IBuf<T>* src){ // moved-from: valid but unspecified; must remain usable
        src->m.v.assign(src->size(),T()); src->m.known.assign(src->size(),0);
        if(c.rng.chance(0.5)) fill(src);
    };
    for(size_t s=0;s<steps;++s) {
        const int op=bufs.empty()?0:int(c.rng.below(20)); std::string o;
        IBuf<T>* p=bufs.empty()?nullptr:bufs[c.rng.below(bufs.size())].get();
        IBuf<T>* q=bufs.empty()?nullptr:bufs[c.rng.below(bufs.size())].get();
        const size_t n=pickSize(c.rng); const int ss=int(c.rng.below(4));
        if(op==0) { o=str("new",ss,"(",n,")"); auto b=make<T>(ss,n); b->m.v.assign(n,T()); b->m.known.assign(n,0); fill(b.get()); bufs.push_back(std::move(b)); }
        else if(op==1) { o=str("copyctor",ss,"<-",p->id(),"[",p->size(),"]"); dispatch(p,[&](auto& B){ const auto& cb=B.b; auto nb=makeFrom<T>(ss,cb); nb->m=p->m; bufs.push_back(std::move(nb)); }); }
        else if(op==2) { o=str("movector",ss,"<-",p->id(),"[",p->size(),"]"); dispatch(p,[&](auto& B){ auto nb=makeFrom<T>(ss,std::move(B.b)); nb->m=p->m; bufs.push_back(std::move(nb)); }); afterMove(p); }
        else if(op==3 || op==4) { o=str("assign",p->id(),"[",p->size(),"]<-",q->id(),"[",q->size(),"]"); dispatch(p,[&](auto& B){ dispatch(q,[&](auto& C){ const auto& cc=C.b; B.b=cc; }); }); if(p!=q) p->m=q->m; }
        else if(op==5 || op==6) { o=str("moveassign",p->id(),"[",p->size(),"]<-",q->id(),"[",q->size(),"]"); dispatch(p,[&](auto& B){ dispatch(q,[&](auto& C){ B.b=std::move(C.b); }); }); if(p!=q) { p->m=q->m; afterMove(q); } }
        else if(op==7) { o=str("reserve",p->id(),"(",n,")"); dispatch(p,[&](auto& B){ B.b.reserve(n); }); c.check(p->cap()>=n,"buf:reserve",o); }
        else if(op==8 || op==9) { o=str("resize",p->id(),"[",p->size(),"](",n,")"); dispatch(p,[&](auto& B){ B.b.resize(n); }); p->m.v.resize(n); p->m.known.resize(n,0); if(c.rng.chance(0.7)) for(size_t i=0;i<n;++i) if(!p->m.known[i]) { p->m.v[i]=val<T>(c.rng); p->m.known[i]=1; p->data()[i]=p->m.v[i]; } }
        else if(op==10) {
            o=str("resize_static",p->id(),"[",p->size(),"]"); const bool st=p->isStatic(); (void)st; dispatch(p,[&](auto& B){ B.b.resize_static(); });
            c.check(p->size()==p->id() && p->isStatic(),"buf:resize_static",o);
            p->m.v.resize(p->id()); p->m.known.resize(p->id(),0);
        }
        else if(op==11) { o=str("clear",p->id(),"[",p->size(),"]"); dispatch(p,[&](auto& B){ B.b.clear(); }); p->m.v.clear(); p->m.known.clear(); c.check(p->isStatic(),"buf:clear",o); }
        else if(op<=14) {
            const int k=int(c.rng.below(3)); const int cnt=int(c.rng.range(1,6)); o=str("push",p->id(),"[",p->size(),"]x",cnt,k==2?"alias":"");
            for(int i=0;i<cnt;++i) {
                size_t src=p->size()?size_t(c.rng.below(p->size())):0;
                if(k==2 && p->size() && p->m.known[src]) { dispatch(p,[&](auto& B){ B.b.push_back(static_cast<const T&>(B.b[src])); }); p->m.v.push_back(p->m.v[src]); p->m.known.push_back(1); }
                else { T x=val<T>(c.rng); dispatch(p,[&](auto& B){ if(k==0) B.b.push_back(x); else B.b.push_back(T(x)); }); p->m.v.push_back(x); p->m.known.push_back(1); }
            }
        }
        else if(op==15 && p->size()) { const size_t i=size_t(c.rng.below(p->size())); o=str("write",p->id(),"[",i,"]"); const T x=val<T>(c.rng); dispatch(p,[&](auto& B){ if(c.rng.chance(0.5)) B.b[i]=x; else B.b.at(i)=x; }); p->m.v[i]=x; p->m.known[i]=1; }
        else if(op==16) { // checked access outside the valid range must be refused, for any index type
            o=str("at-out",p->id(),"[",p->size(),"]"); bool thrown=true;
            const int64_t i=c.rng.chance(0.5)?-int64_t(c.rng.range(1,40)):int64_t(p->size())+int64_t(c.rng.below(50));
            dispatch(p,[&](auto& B){ const auto& cb=B.b; 
                try { lv::doNotOptimize(B.b.at(i)); thrown=false; } catch(const lv::Exception&) {}
                try { lv::doNotOptimize(cb.at(int(i))); thrown=false; } catch(const lv::Exception&) {}
                if(i>=0 && i<256) try { lv::doNotOptimize(cb.at(uint8_t(i))); thrown=false; } catch(const lv::Exception&) {}
                if(i>=0) try { lv::doNotOptimize(cb.at(size_t(i))); thrown=false; } catch(const lv::Exception&) {} });
            c.checkf(thrown,"buf:at-out-of-range",[&]{return str("at(",i,") accepted with size ",p->size());});
        }
        else if(op==17 && bufs.size()>1) { o="destroy"; bufs.erase(bufs.begin()+int(c.rng.below(bufs.size()))); }
        else if(op==18 && p->id()==q->id() && p!=q) { o=str("swap",p->id(),"[",p->size(),"]<->[",q->size(),"]"); switch(p->id()) { case 1: std::swap(static_cast<Buf<T,1>*>(p)->b,static_cast<Buf<T,1>*>(q)->b); break; case 4: std::swap(static_cast<Buf<T,4>*>(p)->b,static_cast<Buf<T,4>*>(q)->b); break; case 10: std::swap(static_cast<Buf<T,10>*>(p)->b,static_cast<Buf<T,10>*>(q)->b); break; default: std::swap(static_cast<Buf<T,33>*>(p)->b,static_cast<Buf<T,33>*>(q)->b); } std::swap(p->m,q->m); }
        else o="nop";
        if(bufs.size()>5) bufs.erase(bufs.begin()+int(c.rng.below(bufs.size())));
        trace+=o+" "; c.desc(str(tn,": ",trace));
        verify(c,bufs,o); c.stat("operations");
    }
    c.nontrivial(trace); c.sample(trace.substr(0,200));
}
struct Pod { int a; double b; bool operator==(const Pod& o) const { return a==o.a && b==o.b; } Pod() {} Pod(int64_t v) : a(int(v)),b(double(v)*0.5) {} explicit operator double() const { return a; } };
}
SCENARIO("autobuffer_ops",12000,200000) {
    lv::setVerbosity(-1);
    switch(c.rng.below(3)) { case 0: bufCase<uint8_t>(c,"uint8"); break; case 1: bufCase<Pod>(c,"pod"); break; default: bufCase<float>(c,"float"); }
}
SCENARIO("autobuffer_return",600,20000) { // values returned from functions / stored in containers outlive their source
    lv::setVerbosity(-1);
    const size_t n=size_t(c.rng.below(25)); const int mode=int(c.rng.below(4));
    c.desc(str("buffer of ",n," moved around, mode ",mode));
    typedef lv::AutoBuffer<int,10,16> B;
    std::vector<int> ref(n); for(auto& x : ref) x=int(c.rng.u32());
    auto mk=[&]{ std::unique_ptr<B> b(new B(n)); std::copy(ref.begin(),ref.end(),b->begin()); return b; };
    std::vector<std::unique_ptr<B>> keep;
    if(mode==0) { auto s=mk(); keep.emplace_back(new B(std::move(*s))); s.reset(); }
    else if(mode==1) { auto s=mk(); keep.emplace_back(new B(size_t(c.rng.below(30)))); *keep[0]=std::move(*s); s.reset(); }
    else if(mode==2) { auto s=mk(); keep.emplace_back(new B(*s)); s->clear(); s.reset(); }
    else { std::vector<B> v; for(int i=0;i<5;++i) { auto s=mk(); v.push_back(std::move(*s)); } keep.emplace_back(new B(std::move(v[size_t(c.rng.below(5))]))); }
    c.check(keep[0]->size()==n,"buf:moved-size",str(keep[0]->size()));
    for(size_t i=0;i<n;++i) c.checkf((*keep[0])[i]==ref[i],"buf:moved-value",[&]{return str("element ",i," is ",(*keep[0])[i]," expected ",ref[i]);});
    c.nontrivial(vh::mix(n*4+mode));
}
namespace {
template<size_t BINS, size_t SAFE, bool STAT, typename Tx> void lutCase(vh::Case& c) {
    const bool integral=std::is_integral<Tx>::value;
    Tx a,b;
    if(integral) { const int64_t lo=c.rng.range(-500,500),w=int64_t(BINS-1)*c.rng.range(1,5); a=Tx(lo); b=Tx(lo+w); } else { a=Tx(c.rng.real(-10,10)); b=Tx(a+c.rng.real(0.5,20)); }
    const int shape=int(c.rng.below(3));
    auto f=[shape](Tx x)->double{ return shape==0?double(x):shape==1?double(x)*double(x)*double(x)+2*double(x):std::atan(double(x)*0.3); }; // strictly increasing
    c.desc(str("lut bins=",BINS," safety=",SAFE," static=",STAT," int=",integral," [",double(a),",",double(b),"] shape ",shape));
    typedef lv::LUT<Tx,double,BINS,SAFE,STAT> L;
    std::unique_ptr<L> src(c.rng.chance(0.5)?new L(a,b,f):new L(b,a,f)),lut;
    const int mv=int(c.rng.below(5));
    if(mv==0) lut=std::move(src);
    else if(mv==1) { lut.reset(new L(*src)); src.reset(); }
    else if(mv==2) { lut.reset(new L(std::move(*src))); src.reset(); }
    else if(mv==3) { lut.reset(new L()); c.check(!lut->initialized(),"lut:uninit"); *lut=*src; src.reset(); }
    else { lut.reset(new L(Tx(1),Tx(5),[](Tx){return 42.0;})); *lut=std::move(*src); src.reset(); }
    c.check(lut->initialized() && lut->size()==BINS+2*SAFE && lut->domain_min()==a && lut->domain_max()==b,"lut:params");
    const double step=double(b-a)/(BINS-1);
    c.check(std::abs(lut->domain_index_step()-step)<1e-6*std::abs(step),"lut:step");
    auto at=[&](double x){ return Tx(std::min<double>(double(b),std::max<double>(double(a),x))); };
    const double tol=integral?1.0:0.0; // integral domains truncate bin positions
    auto ok=[&](double v, double x, double lo, double hi){ const double slack=1e-5*(std::abs(double(a))+std::abs(double(b))+1); const double l=f(at(x-lo*step-tol-slack)),h=f(at(x+hi*step+tol+slack)); const double e=1e-9*(std::abs(l)+std::abs(h)+1); return v>=l-e && v<=h+e; };
    for(int k=0;k<60;++k) {
        Tx x=k==0?a:k==1?b:Tx(integral?double(c.rng.range(int64_t(a),int64_t(b))):c.rng.real(double(a),double(b)));
        if(x>b) x=b;
        c.checkf(ok(lut->eval(x),double(x),1.0,0.0),"lut:eval",[&]{return str("eval(",double(x),")=",lut->eval(x)," f=",f(x));});
        c.checkf(ok(lut->eval_round(x),double(x),0.5,0.5),"lut:eval_round",[&]{return str("eval_round(",double(x),")=",lut->eval_round(x)," f=",f(x));});
        const double mo=double(lut->domain_offset_mid());
        if(SAFE>0 || BINS%2==1) { // the mid pointer of an even table is half a bin off: its top index needs a safety bin
            c.checkf(ok(lut->eval_mid(x),double(x),1.5+tol,1.5+tol),"lut:eval_mid",[&]{return str("eval_mid(",double(x),")=",lut->eval_mid(x)," f=",f(x));});
            if(double(x)<double(b)-step && double(x)>double(a)+step) c.checkf(ok(lut->eval_mid_round(x),double(x),1.5+tol,1.5+tol),"lut:eval_mid_round",[&]{return str("eval_mid_round(",double(x),")=",lut->eval_mid_round(x)," f=",f(x));});
        }
        (void)mo;
        const ptrdiff_t i=ptrdiff_t(c.rng.below(BINS));
        c.checkf(ok(lut->eval_raw(i),double(a)+double(i)*step,0.0,0.0),"lut:eval_raw",[&]{return str("eval_raw(",i,")=",lut->eval_raw(i));});
        c.check(lut->eval_raw(i)==lut->eval_mid_raw(i-ptrdiff_t(BINS/2)) && lut->data_raw()[SAFE+size_t(i)]==lut->eval_raw(i) && lut->data_low()[i]==lut->eval_raw(i) && lut->data_mid()[i-ptrdiff_t(BINS/2)]==lut->eval_raw(i),"lut:views");
    }
    for(size_t s=1;s<=SAFE;++s) c.check(lut->eval_raw(-ptrdiff_t(s))==f(a) && lut->eval_raw(ptrdiff_t(BINS+s-1))==f(b),"lut:safety");
    c.check(lut->eval_raw(0)==f(a) && lut->eval_raw(BINS-1)==f(b),"lut:ends");
    c.nontrivial(vh::mix(BINS*1000+SAFE*10+STAT)^vh::mix(mv*3+shape)^vh::mix(uint64_t(double(a)*1000)));
}
}
SCENARIO("lut",4000,40000) {
    lv::setVerbosity(-1);
    switch(c.rng.below(9)) {
        case 0: lutCase<2,0,true,double>(c); break; case 1: lutCase<10,2,true,float>(c); break; case 2: lutCase<11,0,true,double>(c); break; case 3: lutCase<256,5,false,double>(c); break;
        case 4: lutCase<101,1,false,float>(c); break; case 5: lutCase<64,3,true,int>(c); break; case 6: lutCase<33,0,false,int>(c); break; case 7: lutCase<1000,10,true,double>(c); break; default: lutCase<3,4,true,float>(c);
    }
}
SCENARIO("aligned_vector",800,40000) {
    const size_t ops=size_t(c.rng.range(3,40)); c.desc(str("aligned vectors, ",ops," operations"));
    lv::aligned_vector<float,32> v; lv::aligned_vector<uint8_t,64> w; std::vector<int16_t,lv::DefaultInitAllocator<int16_t>> d; std::vector<float> rv; std::vector<uint8_t> rw; std::vector<int16_t> rd;
    for(size_t i=0;i<ops;++i) {
        const int op=int(c.rng.below(6)); const size_t n=size_t(c.rng.below(300));
        if(op==0) { v.resize(n); rv.resize(n); w.resize(n); rw.resize(n); const size_t o=rd.size(); d.resize(n); rd.resize(n); for(size_t k=o;k<n;++k) d[k]=rd[k]; }
        else if(op==1) { const float x=float(c.rng.unit()); v.push_back(x); rv.push_back(x); w.push_back(uint8_t(n)); rw.push_back(uint8_t(n)); d.push_back(int16_t(n)); rd.push_back(int16_t(n)); }
        else if(op==2) { lv::aligned_vector<float,32> t(v); v=std::move(t); auto u=w; w.swap(u); auto e=d; d=e; }
        else if(op==3 && !rv.empty()) { const size_t k=size_t(c.rng.below(rv.size())); v.erase(v.begin()+long(k)); rv.erase(rv.begin()+long(k)); }
        else if(op==4) { v.assign(n,2.5f); rv.assign(n,2.5f); v.shrink_to_fit(); }
        else if(op==5) { v.reserve(n); w.reserve(n*2); }
        c.check(uintptr_t(v.data())%32==0 && uintptr_t(w.data())%64==0,"alloc:aligned");
        c.check(v.size()==rv.size() && std::equal(v.begin(),v.end(),rv.begin()) && w.size()==rw.size() && std::equal(w.begin(),w.end(),rw.begin()) && d.size()==rd.size() && std::equal(d.begin(),d.end(),rd.begin()),"alloc:content");
    }
    c.nontrivial(vh::mix(ops)^vh::mix(rv.size())^vh::mix(rw.size()<<20));
}
VH_MAIN
