// C05: matrix archives and packing
#include "cvgen.hpp"
#include "litiv/utils/opencv.hpp"
#include <fstream>
using namespace cg;
static std::string slurp(const std::string& p) {std::ifstream f(p,std::ios::binary); return std::string((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>());}
static void spit(const std::string& p, const std::string& s) {std::ofstream f(p,std::ios::binary|std::ios::trunc); f.write(s.data(),(std::streamsize)s.size());}
static int randType(vh::Rng& r) {return CV_MAKETYPE((int)r.below(7),r.chance(15)?(int)r.range(5,16):(int)r.range(1,4));}
static void zero(cv::Mat& m) {const cv::Mat* a[]={&m,nullptr}; uchar* p=nullptr; cv::NAryMatIterator it(a,&p,1); for(size_t k=0; k<it.nplanes; ++k,++it) memset(p,0,it.size*m.elemSize());}
static const char* fname(int f) {return f==0?"bin":f==1?"txt":f==2?"yml":"xml";}
static lv::MatArchiveList farch(int f) {return f==0?lv::MatArchive_BINARY:f==1?lv::MatArchive_PLAINTEXT:lv::MatArchive_FILESTORAGE;}

SCENARIO("roundtrip",1500,30000) {
    auto& r = c.rng;
    const int f = (int)r.below(4);
    cv::Mat parent; const bool sub = r.chance(40); const int style=(int)r.below(4);
    int type = randType(r);
    if(f>=2) type = CV_MAKETYPE(CV_MAT_DEPTH(type),std::min(CV_MAT_CN(type),4));
    const cv::Mat m = randMat(r,randDims(r,5,r.chance(10)?40:7),type,sub,parent,style);
    c.desc(vh::str(fname(f)," ",shape(m)," style ",style));
    const auto before = bytes(sub?parent:m);
    const std::string path = c.workdir()+"/m."+fname(f);
    if(r.chance(20)) spit(path,std::string(r.below(2000),'x')); // overwriting a previous file
    lv::write(path,m,farch(f));
    c.check(bytes(sub?parent:m)==before,"write-modified-input","lv::write modified the matrix it was given");
    // destination states: fresh, same-shape, other shape, sub-view of a larger matrix of the same shape
    const int dst=(int)r.below(4);
    cv::Mat out,outParent;
    if(dst==1) {out.create(m.dims,m.size,m.type()); zero(out);}
    else if(dst==2) out = cv::Mat(3,5,CV_16UC2,cv::Scalar::all(3));
    else if(dst==3) {std::vector<int> sz(m.size.p,m.size.p+m.dims); out = view(r,sz,m.type(),outParent,1);}
    cv::Mat guard = outParent.clone(), orig = out;
    lv::read(path,out,farch(f));
    c.check(sameShape(m,out),"shape",vh::str("read ",shape(out)," for ",shape(m)));
    const bool exact = f==0;
    c.check(exact?sameBits(m,out):sameVals(m,out),vh::str("values-",fname(f)),vh::str(fname(f)," archive of ",shape(m)," reads back different values"));
    if(dst==3) { // nothing outside the destination view may change
        zero(orig);
        cv::Mat g2 = guard.clone();
        // clear the same view in the copy
        size_t off = size_t(orig.data-outParent.data);
        cv::Mat gv(orig.dims,orig.size.p,orig.type(),g2.data+off,orig.step.p);
        zero(gv);
        c.check(bytes(g2)==bytes(outParent),"parent-overwritten","reading into a sub-view changed its parent outside the view");
    }
    const cv::Mat again = lv::read(path,farch(f));
    c.check(sameVals(m,again),"reread","second read differs");
    c.stat(vh::str("fmt_",fname(f))); c.nontrivial(shape(m)+fname(f));
}

struct Header {bool ok=false; int type=0; std::vector<int> sz; size_t payload=0;};
static Header parseBin(const std::string& s) {
    Header h; size_t p=0;
    const auto get=[&](void* d, size_t n) {if(p+n>s.size()) return false; memcpy(d,&s[p],n); p+=n; return true;};
    int32_t t,nd; uint64_t es,ec;
    if(!get(&t,4)||!get(&es,8)||!get(&ec,8)||!get(&nd,4)) return h;
    if(nd<=0 || nd>32 || t<0 || t>CV_MAT_TYPE_MASK) return h;
    unsigned __int128 prod=1;
    for(int i=0; i<nd; ++i) {int32_t d; if(!get(&d,4)||d<=0) return h; prod*=(unsigned)d; if(prod>(1ull<<40)) return h; h.sz.push_back(d);}
    if(prod!=ec || es!=(uint64_t)CV_ELEM_SIZE(t) || s.size()-p<ec*es) return h;
    h.ok=true; h.type=t; h.payload=p;
    return h;
}
static void judgeBin(vh::Case& c, const std::string& path, const std::string& content, const char* how) {
    spit(path,content);
    const Header h = parseBin(content);
    cv::Mat out,outParent; 
    if(h.ok && h.sz.size()>1 && c.rng.chance(20)) out = view(c.rng,h.sz,h.type,outParent,1);
    bool threw=false;
    try {lv::read(path,out,lv::MatArchive_BINARY);} catch(const std::exception&) {threw=true;}
    c.stat(threw?"refused":"accepted");
    if(threw) return;
    c.checkf(h.ok,"accepted-damaged",[&]{return vh::str("a ",how," archive of ",content.size()," bytes was read as ",shape(out)," without an error");});
    if(!h.ok) return;
    c.check(bytes(out)==std::vector<uint8_t>(content.begin()+h.payload,content.begin()+h.payload+out.total()*out.elemSize()),"damaged-content",vh::str("matrix read from a ",how," archive does not hold the bytes stored in it"));
}
SCENARIO("damaged_binary",250,5000) {
    auto& r = c.rng;
    cv::Mat parent;
    const cv::Mat m = randMat(r,randDims(r,4,5),randType(r),false,parent,0);
    const std::string path = c.workdir()+"/d.bin";
    lv::write(path,m,lv::MatArchive_BINARY);
    const std::string good = slurp(path);
    c.desc(shape(m));
    c.check(parseBin(good).ok,"format","archive written by lv::write does not have the documented layout");
    const size_t hdr = 24+4*m.dims;
    // every truncation of the header, and sampled truncations of the data
    for(size_t n=0; n<good.size(); n+=(n<hdr?1:1+r.below(std::max<size_t>(1,good.size()/20)))) {
        spit(path,good.substr(0,n));
        bool t=throws([&]{cv::Mat o; lv::read(path,o,lv::MatArchive_BINARY);});
        c.checkf(t,"truncated",[&]{return vh::str("archive truncated to ",n," of ",good.size()," bytes was read without an error");});
        c.stat("truncations");
    }
    for(int k=0; k<40; ++k) {
        std::string s = good;
        const int kind=(int)r.below(5);
        const char* how="corrupted";
        if(kind==0) s[r.below(hdr)] ^= (char)(1<<r.below(8));
        else if(kind==1) for(int i=0; i<3; ++i) s[r.below(hdr)] = (char)r.u64();
        else if(kind==2) {const int32_t v[]={-1,0,1,2,3,32,33,64,1000,0x7fffffff,(int32_t)0x80000000,65536}; const int32_t x=v[r.below(12)]; const size_t o=r.pick({0,4,8,12,16,20,24,28}); if(o+4<=hdr) memcpy(&s[o],&x,4);}
        else if(kind==3) {s += std::string(r.below(50),'z'); how="padded";}
        else {s = std::string(r.below(200),'\0'); for(auto& ch : s) ch=(char)(r.chance(60)?0:r.u64()); how="random";}
        judgeBin(c,path,s,how);
    }
    c.nontrivial(shape(m));
}
SCENARIO("damaged_text",200,4000) {
    auto& r = c.rng;
    cv::Mat parent;
    const cv::Mat m = randMat(r,randDims(r,4,4),randType(r),false,parent,1);
    const std::string path = c.workdir()+"/d.txt";
    lv::write(path,m,lv::MatArchive_PLAINTEXT);
    const std::string good = slurp(path);
    c.desc(shape(m));
    size_t lastTok = good.find_last_not_of(" \n"); lastTok = good.find_last_of(" \n",lastTok)+1; // start of the last value
    for(int k=0; k<30; ++k) {
        const size_t n = r.below(lastTok);
        spit(path,good.substr(0,n));
        bool t=throws([&]{cv::Mat o; lv::read(path,o,lv::MatArchive_PLAINTEXT);});
        c.checkf(t,"truncated-text",[&]{return vh::str("text archive truncated to ",n," of ",good.size()," bytes was read without an error");});
        c.stat("truncations");
    }
    const size_t hdr = good.find("\n\n");
    for(int k=0; k<30; ++k) {
        std::string s = good;
        if(r.chance(50)) { // replace a number of the header with another one
            std::vector<std::pair<size_t,size_t>> nums; const size_t from=s.find("nDataType");
            for(size_t i=from; i<hdr; ++i) if(isdigit(s[i]) && !isdigit(s[i-1])) {size_t j=i; while(isdigit(s[j])) ++j; nums.emplace_back(i,j-i);}
            const auto q = nums[r.below(nums.size())];
            const char* v[]={"-1","0","1","2","3","5","8","32","33","100000","2147483647","-2147483648","99999999999999999999","abc","1.5"};
            s.replace(q.first,q.second,v[r.below(15)]);
        }
        else s[r.below(s.size())] = (char)r.range(32,126);
        spit(path,s);
        cv::Mat o; bool t=throws([&]{lv::read(path,o,lv::MatArchive_PLAINTEXT);});
        c.stat(t?"refused":"accepted");
        // a matrix cannot hold more values than the text that described it
        if(!t) c.check(o.total()*o.channels()<=s.size(),"text-accepted-oversize",vh::str("read ",shape(o)," from a text file of ",s.size()," bytes"));
    }
    c.nontrivial(shape(m));
}
SCENARIO("io_errors",60,600) {
    auto& r = c.rng;
    cv::Mat parent; const cv::Mat m = randMat(r,{(int)r.range(1,5),(int)r.range(1,400)},randType(r),false,parent,1);
    const std::string dir=c.workdir();
    for(int f=0; f<4; ++f) {
        c.check(throws([&]{lv::read(dir+"/missing."+fname(f),farch(f));}),"missing","reading a missing archive raised no error");
        c.check(throws([&]{lv::write(dir+"/nodir/x."+fname(f),m,farch(f));}),"nodir","writing in a missing directory raised no error");
        c.check(throws([&]{lv::write(dir+"/x."+fname(f),cv::Mat(),farch(f));}),"emptymat","writing an empty matrix raised no error");
        c.check(throws([&]{lv::write("",m,farch(f));}) && throws([&]{lv::read("",farch(f));}),"emptypath","empty path raised no error");
    }
    for(int f=0; f<2; ++f) // device that refuses every byte
        c.check(throws([&]{lv::write("/dev/full",m,farch(f));}),"full-device",vh::str("writing a ",m.total()*m.elemSize(),"-byte ",fname(f)," archive to a full device raised no error"));
    spit(dir+"/nomat.yml","%YAML:1.0\n---\nother: 3\n");
    c.check(throws([&]{lv::read(dir+"/nomat.yml",lv::MatArchive_FILESTORAGE);}),"nomat","storage file without a matrix raised no error");
    c.nontrivial(shape(m));
}
/// matrix infos refuse more than four channels
static int packType(vh::Rng& r) {return CV_MAKETYPE((int)r.below(7),(int)r.range(1,4));}
SCENARIO("pack",1500,30000) {
    auto& r = c.rng;
    const size_t n = r.below(7);
    std::vector<cv::Mat> v(n),parents(n),copies; const bool same=r.chance(40); const int t0=packType(r);
    std::string d;
    for(size_t i=0; i<n; ++i) {
        if(r.chance(20)) v[i]=cv::Mat();
        else if(r.chance(10)) v[i]=cv::Mat(0,(int)r.range(0,4),same?t0:packType(r));
        else v[i]=randMat(r,randDims(r,4,6),same?t0:packType(r),r.chance(40),parents[i],0);
        d += shape(v[i])+" "; copies.push_back(v[i].clone());
    }
    c.desc(d);
    std::vector<lv::MatInfo> info; if(r.chance(30)) info.resize(r.below(10));
    const cv::Mat p = lv::packData(v,&info);
    c.check(info.size()==n,"info-count","wrong number of packing infos");
    size_t tot=0; for(auto& m : v) tot += m.total()*m.elemSize();
    c.check((p.empty()?0:p.total()*p.elemSize())==tot,"pack-size",vh::str("packet holds ",p.total()*p.elemSize()," bytes for ",tot));
    for(size_t i=0; i<n; ++i) c.check(v[i].empty() || bytes(v[i])==bytes(copies[i]),"pack-modified","packing modified an input");
    for(auto& m : v) if(!m.empty()) zero(m); // packet must not alias its inputs
    if(n==0) return;
    const std::vector<cv::Mat> u = lv::unpackData(p,info);
    c.check(u.size()==n,"unpack-count","unpacked list has another length");
    for(size_t i=0; i<n; ++i) {
        if(copies[i].empty()) {c.check(u[i].empty(),"unpack-empty","an empty matrix came back non-empty"); continue;}
        c.check(sameBits(u[i],copies[i]),"unpack-values",vh::str("entry ",i," came back as ",shape(u[i])," for ",shape(copies[i]),(sameShape(u[i],copies[i])?" with other values":"")));
    }
    if(tot>0) { // mismatched packing infos must be refused
        auto bad = info; const int k=(int)r.below(3);
        if(k==0) bad.push_back(lv::MatInfo(cv::Mat(1,1,CV_8UC1))); else if(k==1) {size_t i=0; while(copies[i].empty()) ++i; bad.erase(bad.begin()+i);} else bad.clear();
        c.check(throws([&]{lv::unpackData(p,bad);}),"unpack-mismatch","unpacking with infos of another total size raised no error");
    }
    if(tot>0 && r.chance(30))
        c.check(throws([&]{lv::unpackData(cv::Mat(),info);}),"unpack-mismatch","unpacking an empty packet with non-empty infos raised no error");
    c.nontrivial(d);
}
VH_MAIN
