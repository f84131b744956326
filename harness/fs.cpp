// C25 platform and general helpers
#include "vh.hpp"
#include "litiv/utils/platform.hpp"
#include "litiv/utils/console.hpp"
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <ftw.h>
#include <csignal>
using vh::str;
namespace {
int rmcb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
void rmtree(const std::string& d) { nftw(d.c_str(),rmcb,16,FTW_DEPTH|FTW_PHYS); }
std::string name(vh::Rng& r) {
    static const char* fixed[]={"Thumbs.db","thumbs.db",".hidden","..x","a b","a.png","a.png.bak","A","aa","b","img_001.jpg","img_01.jpg","img_1.jpg","100%s","tab\tname","é","-n","Thumbs.db2","gt","mask.bmp"};
    if(r.chance(0.5)) return fixed[r.below(sizeof(fixed)/sizeof(*fixed))];
    std::string s; const size_t n=size_t(r.range(1,12)); for(size_t i=0;i<n;++i) s+=char("abcdefXYZ0123456789._- %"[r.below(24)]); if(s=="." || s=="..") s="dot"; return s;
}
std::string vs(const std::vector<std::string>& v) { std::string o; for(auto& s : v) o+="'"+s+"' "; return o; }
volatile std::sig_atomic_t g_sig=0; void onsig(int s) { g_sig=s; }
}
SCENARIO("dirs",600,20000) {
    lv::setVerbosity(-1);
    const std::string root=c.workdir()+str("/d",c.idx); rmtree(root); mkdir(root.c_str(),0755);
    std::set<std::string> files,dirs; const int n=int(c.rng.below(14)); std::string listing;
    for(int i=0;i<n;++i) {
        const std::string nm=name(c.rng),full=root+"/"+nm; struct stat sb; if(lstat(full.c_str(),&sb)==0) continue;
        const int k=int(c.rng.below(7)); listing+=nm+"("+str(k)+") ";
        if(k<=2) { std::ofstream(full)<<"x"; if(nm!="Thumbs.db") files.insert(nm); }
        else if(k<=4) { mkdir(full.c_str(),0755); dirs.insert(nm); if(c.rng.chance(0.5)) std::ofstream(full+"/inner.txt")<<"y"; }
        else if(k==5) { const std::string t=root+"/_target"+str(i); if(c.rng.chance(0.5)) { mkdir(t.c_str(),0755); dirs.insert("_target"+str(i)); if(!symlink(t.c_str(),full.c_str())) dirs.insert(nm); } else { std::ofstream(t)<<"z"; files.insert("_target"+str(i)); if(!symlink(t.c_str(),full.c_str()) && nm!="Thumbs.db") files.insert(nm); } }
        else { if(!symlink((root+"/nowhere").c_str(),full.c_str())) {} }
    }
    c.desc(str("directory with ",listing));
    const std::string arg=c.rng.chance(0.5)?root:root+"/";
    std::vector<std::string> ef,ed; for(auto& f : files) ef.push_back(root+"/"+f); for(auto& d : dirs) ed.push_back(root+"/"+d);
    std::sort(ef.begin(),ef.end()); std::sort(ed.begin(),ed.end());
    auto gf=lv::getFilesFromDir(arg),gd=lv::getSubDirsFromDir(arg);
    c.checkf(gf==ef,"fs:files",[&]{return "got "+vs(gf)+" expected "+vs(ef);});
    c.checkf(gd==ed,"fs:dirs",[&]{return "got "+vs(gd)+" expected "+vs(ed);});
    c.check(lv::getFilesFromDir(root+"/missing").empty() && lv::getSubDirsFromDir(root+"/missing").empty(),"fs:missing");
    for(auto& f : ef) { c.check(lv::checkIfExists(f),"fs:exists",f); c.check(!lv::createDirIfNotExist(f),"fs:create-over-file",f); c.check(lv::getFilesFromDir(f).empty(),"fs:list-file",f); }
    for(auto& d : ed) { c.check(lv::checkIfExists(d),"fs:exists",d); c.check(lv::createDirIfNotExist(d),"fs:create-existing",d); }
    const std::string nd=root+"/new dir "+str(c.idx); c.check(!lv::checkIfExists(nd),"fs:not-exists",nd);
    c.check(lv::createDirIfNotExist(nd) && lv::checkIfExists(nd),"fs:create",nd); struct stat sb; c.check(stat(nd.c_str(),&sb)==0 && S_ISDIR(sb.st_mode),"fs:create-real",nd);
    c.check(lv::createDirIfNotExist(nd),"fs:create-again",nd);
    c.check(!lv::createDirIfNotExist(root+"/no/such/parent") && !lv::checkIfExists(root+"/no"),"fs:create-nested");
    // filters
    auto tok=[&]{ std::vector<std::string> t; const int k=int(c.rng.below(4)); static const char* T[]={".png",".jpg","a","img_","/d","nothing","","X"}; for(int i=0;i<k;++i) t.push_back(T[c.rng.below(8)]); return t; };
    const auto rem=tok(),keep=tok(); auto fl=gf,want=std::vector<std::string>();
    for(auto& p : gf) { bool r=false,k=keep.empty(); for(auto& t : rem) r|=p.find(t)!=std::string::npos; for(auto& t : keep) k|=p.find(t)!=std::string::npos; if(!r && k) want.push_back(p); }
    lv::filterFilePaths(fl,rem,keep);
    c.checkf(fl==want,"fs:filter",[&]{return "remove "+vs(rem)+" keep "+vs(keep)+" got "+vs(fl)+" expected "+vs(want);});
    c.stat("entries",ef.size()+ed.size()); c.nontrivial(listing+vs(rem)+vs(keep)); c.sample(listing);
    rmtree(root);
}
SCENARIO("prealloc",300,5000) {
    lv::setVerbosity(-1);
    const std::string f=c.workdir()+str("/p",c.idx); unlink(f.c_str());
    const size_t have=c.rng.chance(0.5)?size_t(c.rng.below(5000)):0,want=size_t(c.rng.below(6000)),w=size_t(c.rng.below(2000)); const bool zero=c.rng.chance(0.5),exists=have>0 || c.rng.chance(0.3);
    c.desc(str("preallocate ",want," over ",have," zero=",zero," write ",w));
    std::string init(have,0); for(auto& ch : init) ch=char(c.rng.u32()); if(exists) std::ofstream(f,std::ios::binary)<<init;
    std::string data(w,0); for(auto& ch : data) ch=char(c.rng.u32());
    { auto s=lv::createBinFileWithPrealloc(f,want,zero); c.check(s.is_open() && s.good() && size_t(s.tellp())==0,"prealloc:state"); s.write(data.data(),long(w)); }
    std::ifstream in(f,std::ios::binary); std::string got((std::istreambuf_iterator<char>(in)),std::istreambuf_iterator<char>());
    std::string exp=init; if(exp.size()<want) exp.resize(want,0); if(exp.size()<w) exp.resize(w); exp.replace(0,w,data);
    c.checkf(got.size()==exp.size(),"prealloc:size",[&]{return str("size ",got.size()," expected ",exp.size());});
    c.check(got.compare(0,std::max(have,w),exp,0,std::max(have,w))==0,"prealloc:content"); if(zero) c.check(got==exp,"prealloc:zero");
    unlink(f.c_str()); c.nontrivial(vh::mix(have)^vh::mix(want*3)^w);
    bool thrown=false; try { lv::createBinFileWithPrealloc(c.workdir()+"/no/such/dir/f",10); } catch(const lv::Exception&) { thrown=true; } c.check(thrown,"prealloc:bad-path");
}
SCENARIO("paths_misc",40,400) {
    const std::string d=name(c.rng); c.desc("path helpers on "+d);
    for(const std::string& s : {d,d+"/",d+"\\",std::string("/")+d,d+"/"+d}) {
        const std::string r=lv::addDirSlashIfMissing(s); const char l=s.back();
        c.check(r==((l=='/' || l=='\\')?s:s+"/"),"path:slash",r); c.check(lv::addDirSlashIfMissing(r)==r,"path:slash-idempotent",r);
    }
    c.check(lv::addDirSlashIfMissing("").empty() && lv::addDirSlashIfMissing(".")=="./" && lv::addDirSlashIfMissing("..")=="../" && lv::addDirSlashIfMissing("/")=="/","path:special");
    char buf[4096]; c.check(getcwd(buf,sizeof(buf)) && lv::getCurrentWorkDirPath()==buf,"path:cwd");
    c.check(lv::getCurrentPhysMemBytesUsed()>1024*1024,"path:mem");
    lv::registerAllConsoleSignals(onsig); g_sig=0; raise(SIGINT); c.check(g_sig==SIGINT,"signal:int"); g_sig=0; lv::registerAllConsoleSignals(onsig); raise(SIGTERM); c.check(g_sig==SIGTERM,"signal:term");
    signal(SIGTERM,SIG_DFL); signal(SIGINT,SIG_DFL);
    c.check(!lv::getTimeStamp().empty() && lv::getLogStamp().find(lv::getVersionStamp())!=std::string::npos,"stamp");
    lv::StopWatch w; timespec ts{0,2000000}; nanosleep(&ts,nullptr); const double e=w.elapsed(); c.check(e>=0.0019,"stopwatch:elapsed",str(e)); const double t=w.tock(); c.check(t>=e,"stopwatch:tock"); c.check(w.elapsed()<=t+5,"stopwatch:reset");
    c.nontrivial(d);
}
SCENARIO("strings",4000,200000) {
    std::string s; const size_t n=size_t(c.rng.below(20)); for(size_t i=0;i<n;++i) s+=char("ab, ;\nC"[c.rng.below(7)]);
    const char dl=c.rng.pick({',',' ',';','\n'});
    c.desc(str("string '",s,"' delimiter ",int(dl)));
    std::vector<std::string> exp; if(!s.empty()) { std::string cur; for(char ch : s) { if(ch==dl) { exp.push_back(cur); cur.clear(); } else cur+=ch; } if(!cur.empty()) exp.push_back(cur); }
    auto got=lv::split(s,dl); c.checkf(got==exp,"str:split",[&]{return "got "+vs(got)+" expected "+vs(exp);});
    std::vector<std::string> g2; lv::split(s,std::back_inserter(g2),dl); c.check(g2==exp,"str:split-iter");
    const size_t k=size_t(c.rng.below(30)); const std::string cl=lv::clampString(s,k,'#');
    c.check(cl.size()==k && (s.size()>k?cl==s.substr(0,k):cl==std::string(k-s.size(),'#')+s),"str:clamp",cl);
    std::string t; for(size_t i=0;i<n;++i) t+=char("abABzZ09_"[c.rng.below(9)]); std::string u; for(size_t i=0,m=c.rng.below(20);i<m;++i) u+=char("abABzZ09_"[c.rng.below(9)]);
    auto low=[](std::string x){ for(auto& ch : x) if(ch>='A' && ch<='Z') ch=char(ch+32); return x; };
    c.check(lv::compare_lowercase(t,u)==(low(t)<low(u)),"str:compare_lowercase",t+" "+u);
    std::vector<std::string> toks; for(int i=0,m=int(c.rng.below(4));i<m;++i) toks.push_back(t.substr(c.rng.below(t.size()+1),c.rng.below(3))+(c.rng.chance(0.5)?"q":""));
    bool has=false; for(auto& x : toks) has|=t.find(x)!=std::string::npos; c.check(lv::string_contains_token(t,toks)==has,"str:contains");
    std::string uni; for(int i=0,m=int(c.rng.below(12));i<m;++i) uni+=c.rng.pick({"a","é","漢","Z","\xf0\x9f\x98\x80"," "}); c.check(lv::convertWStrToStr(lv::convertStrToWStr(uni))==uni,"str:wide",uni);
    c.nontrivial(s+t+u);
}
SCENARIO("digits",6000,400000) {
    int64_t v=int64_t(c.rng.u64()>>c.rng.below(64)); if(c.rng.chance(0.4)) { int64_t p=1; for(int i=0,m=int(c.rng.below(19));i<m;++i) p*=10; v=p+c.rng.range(-1,1); } if(c.rng.chance(0.5) && v!=std::numeric_limits<int64_t>::min()) v=-v; if(c.rng.chance(0.01)) v=std::numeric_limits<int64_t>::min();
    c.desc(str("digits of ",v));
    c.checkf(lv::digit_count(v)==int(std::to_string(v).size()),"digits:int64",[&]{return str(v," -> ",lv::digit_count(v));});
    const uint64_t u=uint64_t(v); c.checkf(lv::digit_count(u)==int(std::to_string(u).size()),"digits:uint64",[&]{return str(u," -> ",lv::digit_count(u));});
    const int i=int(v); c.checkf(lv::digit_count(i)==int(std::to_string(i).size()),"digits:int",[&]{return str(i," -> ",lv::digit_count(i));});
    const int8_t b=int8_t(v); c.checkf(lv::digit_count(b)==int(std::to_string(int(b)).size()),"digits:int8",[&]{return str(int(b)," -> ",lv::digit_count(b));});
    const uint32_t q=uint32_t(v); c.checkf(lv::digit_count(q)==int(std::to_string(q).size()),"digits:uint32",[&]{return str(q," -> ",lv::digit_count(q));});
    const double d=double(int64_t(v>>20))+ (v<0?-0.25:0.25); if(std::abs(d)>=1) c.checkf(lv::digit_count(d)==int(std::to_string((long long)d).size()),"digits:double",[&]{return str(d," -> ",lv::digit_count(d));});
    c.nontrivial(vh::mix(u));
}
SCENARIO("vectors",4000,200000) {
    lv::setVerbosity(-1);
    const size_t n=size_t(c.rng.below(c.rng.chance(0.5)?8:80)); const int K=int(c.rng.range(1,12)); std::vector<int> v(n); for(auto& x : v) x=int(c.rng.below(K));
    c.desc(str("vector of ",n," values below ",K));
    auto si=lv::sort_indices(v); std::vector<char> seen(n,0); bool perm=si.size()==n,sorted=true;
    for(size_t i=0;i<si.size() && perm;++i) { perm=si[i]<n && !seen[si[i]]; if(perm) seen[si[i]]=1; if(perm && i) sorted&=v[si[i-1]]<=v[si[i]]; }
    c.check(perm,"vec:sort-perm"); c.check(sorted,"vec:sort-order");
    auto s2=lv::sort_indices(v,[&](size_t a, size_t b){return v[a]>v[b];}); sorted=s2.size()==n; for(size_t i=1;i<n && sorted;++i) sorted=v[s2[i-1]]>=v[s2[i]]; c.check(sorted,"vec:sort-functor");
    std::map<int,size_t> first; for(size_t i=0;i<n;++i) first.insert({v[i],i}); std::vector<size_t> ui; for(auto& p : first) ui.push_back(p.second);
    c.check(lv::unique_indices(v)==ui,"vec:unique_indices");
    c.check(lv::unique_indices(v,[&](size_t a, size_t b){return v[a]<v[b];},[&](size_t a, size_t b){return v[a]==v[b];})==ui,"vec:unique_indices-functor");
    std::vector<int> uq; for(auto& p : first) uq.push_back(p.first); c.check(lv::unique(v.begin(),v.end())==uq,"vec:unique");
    std::vector<int> refs; for(int i=0,m=int(c.rng.below(6));i<m;++i) refs.push_back(int(c.rng.below(K))); auto io=lv::indices_of(v,refs); bool ok=io.size()==n;
    for(size_t i=0;i<n && ok;++i) { auto it=std::find(refs.begin(),refs.end(),v[i]); ok=it==refs.end()?io[i]>=refs.size():io[i]==size_t(it-refs.begin()); } c.check(ok,"vec:indices_of");
    std::vector<int> in,out; for(int x : v) (std::find(refs.begin(),refs.end(),x)!=refs.end()?in:out).push_back(x); c.check(lv::filter_in(v,refs)==in && lv::filter_out(v,refs)==out,"vec:filter");
    auto cc=lv::concat<int>(v,refs); auto ex=v; ex.insert(ex.end(),refs.begin(),refs.end()); c.check(cc==ex,"vec:concat");
    std::vector<uint8_t> b(n); for(auto& x : b) x=uint8_t(c.rng.u32()); auto cs=lv::cumulativeSum(b); size_t acc=0; ok=cs.size()==n; for(size_t i=0;i<n && ok;++i) { acc+=b[i]; ok=cs[i]==acc; } c.check(ok,"vec:cumsum-u8");
    std::vector<float> f(n); for(auto& x : f) x=float(c.rng.below(1000)); auto cf=lv::cumulativeSum(f); double fa=0; ok=cf.size()==n; for(size_t i=0;i<n && ok;++i) { fa+=f[i]; ok=cf[i]==float(fa); } c.check(ok,"vec:cumsum-float");
    std::vector<int> iv(n); for(auto& x : iv) x=int(c.rng.range(-2000000000,2000000000)); auto ci=lv::cumulativeSum<int,int64_t>(iv); int64_t ia=0; ok=true; for(size_t i=0;i<n && ok;++i) { ia+=iv[i]; ok=ci[i]==ia; } c.check(ok,"vec:cumsum-int64");
    c.check(lv::accumulateMembers<int64_t>(iv,[](int x){return int64_t(x);})==ia,"vec:accumulate");
    const int a=int(c.rng.range(-100,100)),st=int(c.rng.range(1,5)),len=int(c.rng.below(20)); std::vector<int> rr; for(int i=0;i<=len;++i) rr.push_back(a+i*st);
    c.check(lv::make_range(a,a+len*st,st)==rr,"vec:range"); c.check(lv::make_range(a,a-1-len).empty(),"vec:range-empty"); c.check(lv::make_range(a,a+len)==lv::make_range(a,a+len,1),"vec:range-default"); bool thr=false; if(st>1) { try { lv::make_range(a,a+len*st+1,st); } catch(const lv::Exception&) { thr=true; } c.check(thr,"vec:range-bad"); }
    if(n>=5) { std::vector<int> five(v.begin(),v.begin()+5); auto ar=lv::convertVectorToArray<5>(five); c.check(lv::convertArrayToVector(ar)==five,"vec:array"); thr=false; try { lv::convertVectorToArray<4>(five); } catch(const lv::Exception&) { thr=true; } c.check(thr,"vec:array-size"); }
    c.nontrivial(vh::hbytes(v.data(),v.size()*4)); c.statmax("size",n);
}
namespace { struct Base { static int live; Base() { ++live; } Base(const Base&) { ++live; } virtual ~Base() { --live; } virtual int f() const { return 1; } }; int Base::live=0; struct Der : Base { int f() const override { return 2; } }; struct Oth : Base {}; struct Shr : lv::enable_shared_from_this<Shr> { virtual ~Shr() {} }; struct Shr2 : Shr {}; }
SCENARIO("meta",60,300) { // tuple/array helpers, unrolling, ownership casts
    const int x=int(c.rng.range(-1000,1000)); c.desc(str("meta helpers x=",x));
    std::vector<size_t> o; lv::unroll<7>([&](size_t i){o.push_back(i);}); c.check(o==std::vector<size_t>({0,1,2,3,4,5,6}),"meta:unroll"); o.clear(); lv::unroll<4,true>([&](size_t i){o.push_back(i);}); c.check(o==std::vector<size_t>({3,2,1,0}),"meta:unroll-inv"); o.clear(); lv::unroll<0>([&](size_t i){o.push_back(i);}); c.check(o.empty(),"meta:unroll0");
    double s=0; lv::for_each(std::make_tuple(x,2.5,3u),[&](auto v){s=s*10+double(v);}); c.check(s==(x*10+2.5)*10+3,"meta:for_each"); std::string t; lv::for_each_w_idx(std::array<int,3>{{x,x+1,x+2}},[&](int v, size_t i){t+=str(i,":",v,";");}); c.check(t==str("0:",x,";1:",x+1,";2:",x+2,";"),"meta:for_each_idx");
    c.check(lv::unpack_and_call(std::make_tuple(x,10,100),[](int a, int b, int d){return a+b*d;})==x+1000,"meta:unpack"); c.check(lv::unpack_and_call(std::array<int,2>{{x,3}},[](int a, int b){return a-b;})==x-3,"meta:unpack-array");
    std::array<int,4> ar{{x,x*2,-x,7}}; auto tr=lv::static_transform(ar,[](int v){return v*2+1;}); c.check(tr==std::array<int,4>{{x*2+1,x*4+1,-x*2+1,15}},"meta:transform"); auto t2=lv::static_transform(ar,tr,[](int a, int b){return a-b;}); c.check(t2[0]==x-(x*2+1) && t2[3]==7-15,"meta:transform2");
    c.check(lv::static_reduce(ar,[](int a, int b){return a+b;})==x+x*2-x+7,"meta:reduce"); c.check(lv::static_reduce(ar.data(),ar.data()+4,[](int a, int b){return std::max(a,b);})==*std::max_element(ar.begin(),ar.end()),"meta:reduce-ptr"); bool thr=false; try { lv::static_reduce(ar.data(),ar.data(),[](int a, int b){return a+b;}); } catch(const std::runtime_error&) { thr=true; } c.check(thr,"meta:reduce-empty");
    { std::unique_ptr<Base> b(new Der()); auto d=lv::dynamic_unique_ptr_cast<Der>(std::move(b)); c.check(d && !b && d->f()==2 && Base::live==1,"meta:dyncast"); std::unique_ptr<Base> b2(std::move(d)); auto q=lv::dynamic_unique_ptr_cast<Oth>(std::move(b2)); c.check(!q && b2 && Base::live==1,"meta:dyncast-fail"); auto z=lv::static_unique_ptr_cast<Der>(std::move(b2)); c.check(z && !b2 && Base::live==1,"meta:staticcast"); }
    c.check(Base::live==0,"meta:leak",str(Base::live));
    std::shared_ptr<Shr> sp=std::make_shared<Shr2>(); c.check(sp->shared_from_this_cast<Shr2>(true)==sp,"meta:shared"); auto plain=std::make_shared<Shr>(); c.check(!plain->shared_from_this_cast<Shr2>(false),"meta:shared-null"); try { c.check(!plain->shared_from_this_cast<Shr2>(),"meta:shared-default"); } catch(const std::bad_cast&) { c.fail("meta:shared-default","a failed cast throws by default"); } thr=false; try { plain->shared_from_this_cast<Shr2>(true); } catch(const std::bad_cast&) { thr=true; } c.check(thr,"meta:shared-throw");
    c.nontrivial(vh::mix(uint64_t(x+5000)));
}
SCENARIO("user_input",200,4000) {
    std::vector<std::string> opts; for(int i=0,m=int(c.rng.range(1,4));i<m;++i) opts.push_back(str("opt",i)); const bool empty=c.rng.chance(0.5); const std::string want=opts[c.rng.below(opts.size())];
    std::string feed; for(int i=0,m=int(c.rng.below(4));i<m;++i) feed+=c.rng.pick({"","bad","opt","OPT0"})+std::string("\n"); c.desc("interactive input "+vh::jesc(feed)+want);
    std::istringstream in(feed+want+"\nrest\n"); std::ostringstream out; auto* oi=std::cin.rdbuf(in.rdbuf()); auto* oo=std::cout.rdbuf(out.rdbuf()); lv::setVerbosity(0); std::string got=lv::query_user_input("msg",opts,c.rng.chance(0.5),empty,c.rng.chance(0.5)); std::string rest; std::getline(std::cin,rest); std::cin.rdbuf(oi); std::cout.rdbuf(oo);
    c.check(got==want && rest=="rest","input:option",got); c.check(out.str().find("msg")!=std::string::npos,"input:prompt");
    std::istringstream i2("\n\nvalue\n"); std::ostringstream o2; oi=std::cin.rdbuf(i2.rdbuf()); oo=std::cout.rdbuf(o2.rdbuf()); got=lv::query_user_input("msg",empty); std::cin.rdbuf(oi); std::cout.rdbuf(oo); c.check(got==(empty?"":"value"),"input:empty",got);
    c.nontrivial(feed+want);
}
VH_MAIN
