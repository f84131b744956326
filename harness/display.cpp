// C27 display windows (the window system is replaced by recording stand-ins) and progress bars
#define VH_SCHED_IMPL
#include "sched.hpp"
#include "cvgen.hpp"
#include "litiv/utils/opencv.hpp"
#include "litiv/utils/console.hpp"
#include <opencv2/highgui.hpp>
#include <opencv2/imgproc.hpp>
#include <atomic>
#include <deque>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/ioctl.h>
#include <thread>
using vh::str;

namespace {
    struct Shown {std::string win; cv::Mat img;};
    std::vector<Shown> g_shown;
    std::map<std::string,int> g_open; // windows created or shown, and not destroyed since
    std::map<std::string,std::pair<cv::MouseCallback,void*>> g_mouse;
    std::deque<int> g_keys; size_t g_waits; int g_lastDelay; bool g_starved;
}
namespace cv { // stand-ins for the window system
    void namedWindow(const String& w, int) {g_open[w] = 1;}
    void imshow(const String& w, InputArray m) {g_open[w] = 1; g_shown.push_back({w,m.getMat().clone()});}
    void destroyWindow(const String& w) {g_open.erase(w); g_mouse.erase(w);}
    void setMouseCallback(const String& w, MouseCallback f, void* d) {g_mouse[w] = {f,d};}
    int waitKey(int d) {++g_waits; g_lastDelay = d; if(g_keys.empty()) {g_starved = true; return 27;} const int k = g_keys.front(); g_keys.pop_front(); return k;}
}
namespace {
    void resetGui() {g_shown.clear(); g_open.clear(); g_mouse.clear(); g_keys.clear(); g_waits = 0; g_starved = false;}
    /// what an image should look like in a tile, without label and cursor
    cv::Mat tile(const cv::Mat& m, const cv::Size& s) {
        cv::Mat_<cv::Vec3b> o(s,cv::Vec3b(0,0,0));
        if(m.empty()) return o;
        cv::Mat_<cv::Vec3b> t(m.rows,m.cols);
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) for(int ch=0; ch<3; ++ch) {
            const int k = m.channels()==1?0:ch; double v = 0;
            switch(m.depth()) {
                case CV_8U: v = m.ptr<uchar>(y)[x*m.channels()+k]; break;
                case CV_16U: v = m.ptr<ushort>(y)[x*m.channels()+k]*(255.0/65535); break;
                case CV_32S: v = (double(m.ptr<int>(y)[x*m.channels()+k])-INT_MIN)*(255.0/4294967295.0); break;
                default: v = m.ptr<float>(y)[x*m.channels()+k]*255.0;
            }
            t(y,x)[ch] = cv::saturate_cast<uchar>(v);
        }
        if(t.size()==s) return t;
        cv::resize(t,o,s);
        return o;
    }
    struct Pic {cv::Mat parent,img; std::string name; std::vector<uint8_t> before;};
    Pic pic(vh::Rng& r, const cv::Size& hint, bool allowEmpty) {
        Pic p;
        if(allowEmpty && r.chance(0.12)) return p;
        cv::Size s = r.chance(0.6)?hint:cv::Size(1+(int)r.below(70),1+(int)r.below(60));
        static const int D[] = {CV_8U,CV_8U,CV_16U,CV_32S,CV_32F}, C[] = {1,3,4};
        const int d = D[r.below(5)], ch = C[r.below(3)];
        cv::Mat whole(s.height+(int)r.below(3),s.width+(int)r.below(3),CV_MAKETYPE(d,ch));
        const int style = r.chance(0.15)?1:0; // extremes or anything
        for(int y=0; y<whole.rows; ++y) for(int x=0; x<whole.cols*ch; ++x) switch(d) {
            case CV_8U: whole.ptr<uchar>(y)[x] = style?uchar(r.chance(0.5)*255):uchar(r.u32()); break;
            case CV_16U: whole.ptr<ushort>(y)[x] = style?ushort(r.chance(0.5)*65535):ushort(r.u32()); break;
            case CV_32S: whole.ptr<int>(y)[x] = style?(r.chance(0.5)?INT_MAX:INT_MIN):int(r.u32()); break;
            default: whole.ptr<float>(y)[x] = style?float(r.chance(0.5)):(float)r.real(-0.2,1.2);
        }
        p.parent = whole; p.img = whole(cv::Rect(0,0,s.width,s.height)); p.before = cg::bytes(whole);
        if(r.chance(0.4)) p.name = str("im",r.below(100));
        return p;
    }
    /// allowed[y,x] is set where something may be drawn over the images
    struct Overlay {
        cv::Mat_<uchar> any;
        explicit Overlay(const cv::Size& s) : any(s,uchar(0)) {}
        void text(const std::string& t, bool bottom, const cv::Point& off, int thick, double scale, const cv::Rect& where) {
            cv::Mat c(where.size(),CV_8UC3,cv::Scalar::all(0));
            cv::putText(c,t,cv::Point(off.x,bottom?(c.rows-off.y):off.y),cv::FONT_HERSHEY_PLAIN,scale,cv::Scalar::all(255),thick+2,cv::LINE_AA);
            cv::Mat g; cv::cvtColor(c,g,cv::COLOR_BGR2GRAY); cv::dilate(g>0,g,cv::Mat::ones(3,3,CV_8U));
            cv::bitwise_or(any(where),g,any(where));
        }
        void cursor(const cv::Point& p, const cv::Rect& where) {
            for(int y=0; y<where.height; ++y) for(int x=0; x<where.width; ++x) {
                const int d2 = (x-p.x)*(x-p.x)+(y-p.y)*(y-p.y);
                if(d2<=49) any(where.y+y,where.x+x) = 255;
                if(x==p.x || y==p.y) any(where.y+y,where.x+x) |= 128; // cross hair, where compiled in
            }
        }
    };
    void compare(vh::Case& c, const cv::Mat& got, const cv::Mat& want, const cv::Mat_<uchar>& any, int tol, const char* key, const std::string& what) {
        for(int y=0; y<want.rows; ++y) for(int x=0; x<want.cols; ++x) {
            if(any(y,x)) continue;
            const cv::Vec3b a = got.at<cv::Vec3b>(y,x), b = want.at<cv::Vec3b>(y,x);
            for(int k=0; k<3; ++k) if(std::abs(int(a[k])-int(b[k]))>tol) {c.fail(key,str(what,": pixel (",x,",",y,") channel ",k," shows ",int(a[k])," instead of ",int(b[k]))); return;}
        }
    }
    bool refuses(const std::function<void()>& f) {try {f();} catch(const std::exception&) {return true;} return false;}
}

#define NEED(cond,key,...) do {const bool need_=bool(cond); c.ck(need_,key,__VA_ARGS__); if(!need_) return;} while(0)

SCENARIO("tiles",400,8000) {
    auto& r = c.rng; resetGui();
    const std::string name = str("w",r.below(1000));
    const cv::Size maxSize = r.chance(0.15)?cv::Size(0,0):r.chance(0.3)?cv::Size(2560,1440):cv::Size(20+(int)r.below(200),20+(int)r.below(200));
    lv::DisplayHelperPtr p = lv::DisplayHelper::create(name,c.workdir()+(r.chance(0.5)?"/":""),maxSize);
    std::string d = str("max ",maxSize.width,"x",maxSize.height);
    bool cursor = true, continuous = false, first = true; size_t nCalls = 0, nCallbacks = 0;
    lv::DisplayHelper::CallbackData last; bool haveEvent = false; cv::Size lastTile(0,0), lastDisp(0,0);
    cv::Point evPos, evInner; cv::Size evTile(0,0);
    p->setMouseCallback([&](const lv::DisplayHelper::CallbackData& e) {++nCallbacks; last = e;});
    const size_t n = 1+r.below(5);
    for(size_t k=0; k<n; ++k) {
        if(r.chance(0.2)) {cursor = r.chance(0.5); p->setDisplayCursor(cursor); d += cursor?" cur+":" cur-";}
        if(r.chance(0.2)) {continuous = r.chance(0.5); p->setContinuousUpdates(continuous); d += continuous?" cont+":" cont-";}
        const cv::Size ts = lastTile.area()>0 && r.chance(0.5) && maxSize.area()==0?lastTile:cv::Size(1+(int)r.below(90),1+(int)r.below(90));
        size_t rows = 1+r.below(3), cols = 1+r.below(3); cv::Size want = ts; std::vector<std::vector<Pic>> v; int mode = (int)r.below(4);
        if(mode==0) {rows = cols = 1;} else if(mode==1) {rows = 1; cols = 3;}
        for(size_t y=0; y<rows; ++y) {v.emplace_back(); for(size_t x=0; x<cols; ++x) v.back().push_back(pic(r,ts,mode>1 || x>0));}
        if(mode<2) want = v[0][0].img.size();
        const bool fits = maxSize.area()<=0 || (int(want.width*cols)<=maxSize.width && int(want.height*rows)<=maxSize.height);
        if(!fits) { // where scaling leaves nothing of a tile, nothing is promised
            const double s = std::min(double(maxSize.width)/(want.width*cols),double(maxSize.height)/(want.height*rows));
            if(want.width*s<2 || want.height*s<2) continue;
        }
        d += str(" | ",rows,"x",cols," of ",want.width,"x",want.height);
        const size_t before = g_shown.size();
        try {
            if(mode==0) {v[0][0].name = "Image #7"; p->display(v[0][0].img,7);}
            else if(mode==1) {v[0][0].name = "Input #8"; v[0][1].name = "Debug"; v[0][2].name = "Output"; p->display(v[0][0].img,v[0][1].img,v[0][2].img,8);}
            else {
                std::vector<std::vector<std::pair<cv::Mat,std::string>>> a(rows);
                for(size_t y=0; y<rows; ++y) for(auto& q : v[y]) a[y].emplace_back(q.img,q.name);
                p->display(a,ts);
            }
        } catch(const std::exception& e) {c.desc(d); c.fail("tiles:refused",str("valid request refused: ",e.what())); return;}
        c.desc(d);
        NEED(g_shown.size()==before+1 && g_shown.back().win==name,"tiles:shown-once",g_shown.size()-before," images shown");
        const cv::Mat& got = g_shown.back().img;
        NEED(got.type()==CV_8UC3 && got.cols%int(cols)==0 && got.rows%int(rows)==0,"tiles:format",cg::shape(got));
        const cv::Size nt(got.cols/int(cols),got.rows/int(rows));
        if(fits) {
            NEED(nt==want,"tiles:size","tiles of ",nt.width,"x",nt.height);
        }
        else {
            NEED(got.cols<=maxSize.width && got.rows<=maxSize.height,"tiles:max-size","display of ",got.cols,"x",got.rows);
            const double s = std::min(double(maxSize.width)/(want.width*cols),double(maxSize.height)/(want.height*rows));
            NEED(std::abs(nt.width-want.width*s)<=1.01+1.0/cols && std::abs(nt.height-want.height*s)<=1.01+1.0/rows,"tiles:scaled-size","tiles of ",nt.width,"x",nt.height," for a scale of ",s);
            c.stat("scaled displays");
        }
        cv::Mat exp(got.size(),CV_8UC3); Overlay ov(got.size());
        const bool drawn = cursor && haveEvent && evTile==nt && evInner.x>=0 && evInner.y>=0 && evInner.x<nt.width && evInner.y<nt.height;
        for(size_t y=0; y<rows; ++y) for(size_t x=0; x<cols; ++x) {
            const cv::Rect w(int(x)*nt.width,int(y)*nt.height,nt.width,nt.height);
            tile(v[y][x].img,nt).copyTo(exp(w));
            if(!v[y][x].name.empty()) ov.text(v[y][x].name,false,cv::Point(4,15),2,1.2,w);
            if(drawn) ov.cursor(evInner,w);
        }
        const bool prompt = first && !continuous; if(prompt) {ov.text("[Press space to continue]",true,cv::Point(got.cols/2-100,15),1,1.0,cv::Rect(0,0,got.cols,got.rows)); first = false;}
        compare(c,got,exp,ov.any,nt==want?1:3,"tiles:content",d);
        for(auto& row : v) for(auto& q : row) {
            c.ck(q.img.empty() || cg::bytes(q.parent)==q.before,"tiles:input-modified","an input image was modified");
            if(!q.name.empty()) c.stat("labels");
        }
        for(size_t y=0; y<rows; ++y) for(size_t x=0; x<cols; ++x) { // labels and cursors are really drawn
            const cv::Rect w(int(x)*nt.width,int(y)*nt.height,nt.width,nt.height);
            if(!v[y][x].name.empty() && nt.width>=60 && nt.height>=25) {
                bool red = false; for(int i=0; i<25 && !red; ++i) for(int j=0; j<60; ++j) if(got.at<cv::Vec3b>(w.y+i,w.x+j)==cv::Vec3b(0,0,255)) {red = true; break;}
                c.ck(red,"tiles:label","no label in tile (",x,",",y,")");
            }
            if(drawn && !prompt && evInner.x+5<nt.width) { // the prompt goes over the cursors
                const cv::Vec3b q = got.at<cv::Vec3b>(w.y+evInner.y,w.x+evInner.x+5);
                const bool own = evPos.x/nt.width==int(x) && evPos.y/nt.height==int(y);
                c.ck(q==(own?cv::Vec3b(83,83,255):cv::Vec3b::all(172)),"tiles:cursor","cursor of tile (",x,",",y,") missing: ",int(q[0]),",",int(q[1]),",",int(q[2])); c.stat("cursors");
            }
        }
        ++nCalls; lastTile = nt; lastDisp = got.size();
        for(size_t e=r.below(3); e>0; --e) { // mouse events
            NEED(g_mouse.count(name)==1,"mouse:registered","no mouse callback on the window");
            const int x = (int)r.range(-3,got.cols+3), y = (int)r.range(-3,got.rows+3), ev = (int)r.below(7), fl = (int)r.below(32); const size_t nb = nCallbacks;
            g_mouse[name].first(ev,x,y,fl,g_mouse[name].second);
            const bool in = x>=0 && y>=0 && x<got.cols && y<got.rows;
            evPos = cv::Point(x,y); evInner = in?cv::Point(x%nt.width,y%nt.height):evPos; evTile = nt; haveEvent = true;
            c.ck(nCallbacks==nb+1,"mouse:once",nCallbacks-nb," notifications");
            c.ck(last.oPosition==evPos && last.oInternalPosition==evInner && last.oTileSize==nt && last.oDisplaySize==lastDisp && last.nEvent==ev && last.nFlags==fl,"mouse:data","event at (",x,",",y,") reported at (",last.oPosition.x,",",last.oPosition.y,") inner (",last.oInternalPosition.x,",",last.oInternalPosition.y,")");
            c.stat("mouse events");
        }
        if(r.chance(0.3)) { // keys
            const int key = r.chance(0.5)?' ':r.chance(0.3)?-1:r.chance(0.5)?int(0x100000+r.range(33,126)):(int)r.range(33,126); const int delay = 1+(int)r.below(50);
            g_keys.push_back(key); const int k2 = p->waitKey(delay);
            c.ck(k2==(key==-1?-1:key&255),"keys:value","key ",key," reported as ",k2);
            c.ck(g_lastDelay==(continuous?delay:0),"keys:delay","waited ",g_lastDelay," with continuous updates ",continuous);
            if(key==' ') continuous = !continuous;
            c.stat("keys");
        }
    }
    p->m_oFS << "note" << 17;
    p = nullptr;
    c.ck(g_open.empty(),"tiles:window-left-open","window still open after the helper is gone");
    const std::string f = c.workdir()+"/"+name+".yml";
    cv::FileStorage fs(f,cv::FileStorage::READ);
    c.ck(fs.isOpened() && !fs["htag"].empty() && !fs["date"].empty() && int(fs["note"])==17,"tiles:storage","debug storage not readable");
    if(nCalls) {c.nontrivial(d); c.stat("displays",nCalls);}
}

SCENARIO("album",200,4000) {
    auto& r = c.rng; resetGui();
    const std::string name = "album";
    const cv::Size maxSize = r.chance(0.3)?cv::Size(0,0):cv::Size(30+(int)r.below(200),30+(int)r.below(200));
    lv::DisplayHelperPtr p = lv::DisplayHelper::create(name,c.workdir(),maxSize);
    if(r.chance(0.5)) p->setDisplayCursor(false);
    std::vector<Pic> v; std::vector<std::pair<cv::Mat,std::string>> a; const size_t n = 1+r.below(5);
    const cv::Size hint(30+(int)r.below(80),30+(int)r.below(80));
    for(size_t i=0; i<n; ++i) {v.push_back(pic(r,hint,false)); a.emplace_back(v[i].img,v[i].name);}
    cv::Size want = v[0].img.size(); bool fits = maxSize.area()<=0 || (want.width<=maxSize.width && want.height<=maxSize.height);
    const double s = fits?1.0:std::min(double(maxSize.width)/want.width,double(maxSize.height)/want.height);
    if(want.width*s<2 || want.height*s<2) {p = nullptr; return;}
    std::vector<size_t> order{0}; std::string d = str(n," images, keys"); bool full = r.chance(0.3);
    for(size_t k=r.below(14); k>0; --k) {
        const size_t what = r.below(5); int key; size_t cur = order.back();
        if(what<2) {key = r.chance(0.7)?'d':1113939; cur = (cur+1)%n; d += " >";}
        else if(what<4) {key = r.chance(0.7)?'a':1113937; cur = (cur+n-1)%n; d += " <";}
        else {key = r.chance(0.5)?-1:'x'; d += " .";}
        if(cur!=order.back()) order.push_back(cur);
        if(full && key<256 && key>0) key |= 0x100000; // modifier bits
        g_keys.push_back(key);
    }
    g_keys.push_back(27); const size_t nKeys = g_keys.size();
    c.desc(d);
    try {p->displayAlbumAndWaitKey(a,1);} catch(const std::exception& e) {c.fail("album:refused",e.what()); return;}
    c.ck(!g_starved && g_waits==nKeys,"album:escape",g_waits," keys consumed of ",nKeys);
    c.ck(g_open.empty(),"album:window-left-open","window still open after escape");
    NEED(g_shown.size()==order.size(),"album:shown",g_shown.size()," images shown instead of ",order.size());
    for(size_t i=0; i<order.size(); ++i) {
        const cv::Mat& got = g_shown[i].img;
        NEED(got.type()==CV_8UC3 && (fits?got.size()==want:(got.cols<=maxSize.width && got.rows<=maxSize.height && std::abs(got.cols-want.width*s)<=1.01 && std::abs(got.rows-want.height*s)<=1.01)),"album:size","shown as ",cg::shape(got)," scale ",s);
        Overlay ov(got.size()); const cv::Rect all(0,0,got.cols,got.rows);
        ov.text(str(a[order[i]].second," [",order[i]+1,"/",n,"]"),false,cv::Point(4,15),2,1.2,all);
        if(i==0) ov.text("[Press escape to exit album]",true,cv::Point(got.cols/2-115,15),1,1.0,all);
        compare(c,got,tile(v[order[i]].img,got.size()),ov.any,got.size()==v[order[i]].img.size()?1:3,"album:content",str(d,", image ",order[i]));
    }
    for(auto& q : v) c.ck(cg::bytes(q.parent)==q.before,"album:input-modified","an input image was modified");
    c.ck(refuses([&]{p->displayAlbumAndWaitKey({},1);}),"album:empty-accepted","an empty album was accepted");
    p = nullptr;
    c.nontrivial(d+str(" ",want.width,"x",want.height)); c.stat("albums"); c.stat("album images",order.size());
}

SCENARIO("refused",150,1500) {
    auto& r = c.rng; resetGui();
    lv::DisplayHelperPtr p = lv::DisplayHelper::create("r",c.workdir());
    std::vector<std::vector<std::pair<cv::Mat,std::string>>> a; cv::Size ts(8,8); std::string what; cv::Mat ok(8,8,CV_8UC1,cv::Scalar(3));
    const size_t rows = 1+r.below(3), cols = 1+r.below(3);
    a.assign(rows,std::vector<std::pair<cv::Mat,std::string>>(cols,std::make_pair(ok,std::string("n"))));
    switch(r.below(6)) {
        case 0: a.clear(); what = "no row"; break;
        case 1: a[r.below(rows)].clear(); what = "empty row"; break;
        case 2: a.resize(rows+1,a[0]); a[r.below(rows+1)].push_back(a[0][0]); what = "uneven rows"; break;
        case 3: a[r.below(rows)][r.below(cols)].first = cv::Mat(8,8,CV_8UC2,cv::Scalar::all(0)); what = "two channels"; break;
        case 4: a[r.below(rows)][r.below(cols)].first = cv::Mat(8,8,r.chance(0.5)?CV_64FC1:CV_16SC3,cv::Scalar::all(0)); what = "unsupported depth"; break;
        default: ts = r.chance(0.5)?cv::Size(0,8):cv::Size(8,0); what = "empty tile size";
    }
    c.desc(what);
    c.ck(refuses([&]{p->display(a,ts);}),"refused:accepted","accepted");
    c.ck(g_shown.empty(),"refused:shown","something was shown");
    p = nullptr;
    c.ck(g_open.empty(),"refused:window","window left open");
    c.nontrivial(str(what," ",rows,"x",cols)); c.stat("refusals");
}

namespace {
    struct Capture { // everything written to the standard output goes to a file; the standard input is given as well
        int so,si; std::string path;
        Capture(const std::string& f, int in) : path(f) {
            std::cout.flush(); fflush(stdout); so = dup(1); si = dup(0);
            const int fd = open(f.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,1); close(fd); dup2(in,0);
        }
        std::string done() {
            std::cout.flush(); fflush(stdout); dup2(so,1); dup2(si,0); close(so); close(si);
            std::ifstream f(path); return std::string(std::istreambuf_iterator<char>(f),std::istreambuf_iterator<char>());
        }
    };
    std::string strip(const std::string& s) { // removes colour sequences
        std::string o; for(size_t i=0; i<s.size(); ++i) {
            if(s[i]=='\033' && i+1<s.size() && s[i+1]=='[') {i += 2; while(i<s.size() && !isalpha((unsigned char)s[i])) ++i; continue;}
            o += s[i];
        }
        return o;
    }
    struct Term { // a pseudo terminal of the given size, or no terminal at all
        int m = -1, s = -1;
        explicit Term(bool tty) {
            if(tty) {
                m = posix_openpt(O_RDWR|O_NOCTTY);
                if(m>=0 && grantpt(m)==0 && unlockpt(m)==0) s = open(ptsname(m),O_RDWR|O_NOCTTY);
                if(s>=0) {struct winsize w; memset(&w,0,sizeof(w)); w.ws_row = 24; w.ws_col = 70; ioctl(s,TIOCSWINSZ,&w);}
            }
            if(s<0) s = open("/dev/null",O_RDONLY);
        }
        ~Term() {if(s>=0) close(s); if(m>=0) close(m);}
    };
}

SCENARIO("bars",300,6000) { // one thread: what is drawn, and when
    auto& r = c.rng;
    Term t(r.chance(0.4)); const size_t cols = 1+r.below(40); const bool cr = r.chance(0.5); const double init = r.chance(0.5)?0.0:r.chance(0.5)?-1.0:0.02, rate = r.chance(0.7)?1e-9:0.02;
    const std::string prefix = r.chance(0.8)?str("job",r.below(1000)):str("50%d ",r.below(9)); std::string d = str(cols," columns cr=",cr," init=",init," rate=",rate," prefix ",prefix,":");
    std::vector<float> reqs; std::vector<bool> shown; float v = 0; size_t nReset = 0; std::vector<std::pair<bool,float>> drawn; // reset / update
    std::vector<double> at; const auto t0 = std::chrono::high_resolution_clock::now();
    const auto now = [&]{return std::chrono::duration<double>(std::chrono::high_resolution_clock::now()-t0).count();};
    Capture cap(c.workdir()+"/out",t.s);
    std::string err;
    {
        const double tc = now(); lv::ProgressBarManager m(prefix,init,rate,cr,cols); double lastEnd = tc; bool any = false; size_t lastBars = 0; float lastVal = 0;
        if(init<=0) drawn.emplace_back(true,0.0f);
        for(size_t k=r.below(30); k>0; --k) {
            if(r.chance(0.05)) {m.reset(); drawn.emplace_back(true,0.0f); lastEnd = now(); lastVal = 0; lastBars = 0; any = false; ++nReset; d += " reset"; continue;}
            v = r.chance(0.2)?(float)r.unit():r.chance(0.1)?1.0f:std::min(1.0f,lastVal+(float)r.unit()*0.2f); d += str(" ",v);
            const double before = now(); const bool b = m.update(v); const double after = now();
            const size_t bars = size_t(v*cols);
            if(b) {
                if(!(v>lastVal && bars>lastBars) && err.empty()) err = str("redrawn at ",v," after ",lastVal);
                if(any && after-lastEnd<rate && rate<1e-3 && err.empty()) {} // too fast a clock to tell
                else if(any && after-lastEnd+1e-3<rate && err.empty()) err = str("redrawn ",after-lastEnd," s after the last drawing");
                if(!any && lastBars==0 && after-tc+1e-3<init && err.empty()) err = str("first drawn ",after-tc," s after its creation");
                drawn.emplace_back(false,v); lastVal = v; lastBars = bars; any = true; lastEnd = before;
            }
            else if(v>lastVal && bars>lastBars && before-lastEnd>std::max(init,rate)+0.5 && err.empty()) err = str("not redrawn at ",v," after ",lastVal);
            if(rate>1e-3 && r.chance(0.3)) std::this_thread::sleep_for(std::chrono::milliseconds(25));
        }
    }
    std::string out = cap.done(); const std::string plain = strip(out);
    c.desc(d);
    c.ck(err.empty(),"bars:when",err);
    std::string left = plain; size_t pos = 0, lastMarks = 0;
    for(size_t i=0; i<drawn.size(); ++i) {
        const size_t a = plain.find(prefix,pos), b = a==std::string::npos?a:plain.find('[',a+prefix.size()), e = b==std::string::npos?b:plain.find(']',b);
        NEED(e!=std::string::npos,"bars:missing","drawing ",i," of ",drawn.size()," missing in ",vh::str(plain.substr(0,200)));
        const std::string bar = plain.substr(b+1,e-b-1); size_t marks = 0; while(marks<bar.size() && bar[marks]=='=') ++marks;
        c.ck(bar.size()==cols && bar.find_first_not_of(' ',marks)==std::string::npos,"bars:width","bar '",bar,"' for ",cols," columns");
        const float q = drawn[i].second; const double x = double(q)*cols;
        c.ck(marks+0.01>=std::floor(x) && marks<=std::floor(x)+1.01,"bars:marks",marks," marks of ",cols," for ",q);
        if(q>=1.0f) c.ck(marks==cols,"bars:full",marks," marks of ",cols," when complete");
        if(!drawn[i].first) c.ck(marks>=lastMarks,"bars:decreasing",marks," marks after ",lastMarks);
        lastMarks = marks; pos = e+1;
        c.ck(e+1<plain.size() && plain[e+1]==(cr?' ':'\n'),"bars:end","bar not ended");
        if(cr) c.ck(a>0 && plain.rfind('\r',a)!=std::string::npos,"bars:carriage","bar does not overwrite the last one");
    }
    c.ck(plain.find('[',pos)==std::string::npos,"bars:extra","more drawings than updates");
    if(drawn.size()) c.nontrivial(vh::hbytes(plain.data(),plain.size())); c.stat("drawings",drawn.size());
}

SCENARIO("bars_threads",60,1200) { // many threads update bars and log; every line stays in one piece
    auto& r = c.rng;
    Term t(r.chance(0.4)); const size_t cols = 5+r.below(30), T = 2+r.below(5), N = 5+r.below(40); const uint64_t seed = r.u64();
    c.desc(str(T," threads ",N," updates each, ",cols," columns")); std::atomic<size_t> nDrawn(0), nLines(0);
    Capture cap(c.workdir()+"/out",t.s);
    {
        vh::JitterScope js(1+int(r.below(3)),0,seed);
        lv::ProgressBarManager m("BAR",0.0,1e-9,false,cols); std::vector<std::thread> th;
        for(size_t k=0; k<T; ++k) th.emplace_back([&,k]{
            vh::Rng q(seed+k);
            for(size_t i=0; i<N; ++i) {
                if(q.chance(0.5)) {if(m.update(float(q.unit()*(i+1)/N))) ++nDrawn;}
                else {lvCout_(0) << "MSG" << k << ":" << i << ":" << std::string(q.below(20),char('a'+k)) << ";\n"; ++nLines;}
            }
        });
        for(auto& x : th) x.join();
    }
    const std::string plain = strip(cap.done());
    size_t bars = 0, msgs = 0, lastMarks = 0; std::istringstream is(plain); std::string l; 
    while(std::getline(is,l)) {
        if(l.empty()) continue;
        if(l.compare(0,3,"MSG")==0) {c.ck(l.back()==';' && l.find_first_not_of("MSG:;0123456789abcdefghij")==std::string::npos && l.find("MSG",1)==std::string::npos,"bars:interleaved","line '",l,"'"); ++msgs;}
        else {
            const size_t a = l.find("BAR"), b = l.find('['), e = l.find(']'); const bool ok = a!=std::string::npos && b!=std::string::npos && e==b+cols+1 && e+1==l.size() && l.find_first_not_of("= ",b+1)==e && l.find("BAR",a+1)==std::string::npos;
            c.ck(ok,"bars:interleaved","line '",l,"'"); if(!ok) break;
            size_t marks = 0; while(l[b+1+marks]=='=') ++marks;
            c.ck(marks>=lastMarks,"bars:decreasing",marks," marks after ",lastMarks); lastMarks = marks; ++bars;
        }
    }
    c.ck(bars==nDrawn+1 && msgs==nLines,"bars:count",bars," bars and ",msgs," messages instead of ",size_t(nDrawn)+1," and ",size_t(nLines));
    c.nontrivial(vh::hbytes(plain.data(),plain.size())); c.stat("bars",bars); c.stat("messages",msgs);
}
VH_MAIN
