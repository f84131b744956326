// C30: OpenGL/GLSL code, run on Mesa's software renderer (see glctx.hpp)
#include "glctx.hpp"
#include "cvgen.hpp"
#include "litiv/utils/opengl-imgproc.hpp"
#include "litiv/utils/math.hpp"
#include "litiv/features2d/LBSP.hpp"
#include "litiv/video/BackgroundSubtractorLOBSTER.hpp"
#include "litiv/datasets.hpp"
using vh::Case;
#define fmt cv::format
#define CK(ok,key,msg) do {if(ok) c.ck(true,key,""); else c.ck(false,key,msg);} while(0) // the message is only built when needed

namespace {
    const int WINW = 256, WINH = 128;
    lv::gl::Context& ctx() {
        static auto p = std::make_unique<lv::gl::Context>(cv::Size(WINW,WINH),"vh",true);
        return *p;
    }
    /// a continuous matrix in the middle of guard bytes
    struct Guarded {
        std::vector<uint8_t> buf; cv::Mat m; size_t n;
        Guarded(cv::Size s,int t) {
            n = (size_t)s.area()*CV_ELEM_SIZE(t);
            buf.assign(n+512,0xA7);
            m = cv::Mat(s,t,buf.data()+256);
        }
        bool intact() const {
            for(size_t i=0; i<256; ++i)
                if(buf[i]!=0xA7 || buf[256+n+i]!=0xA7)
                    return false;
            return true;
        }
    };
    struct Kind {int type; bool integral;};
    const Kind KINDS[] = {{CV_8UC1,true},{CV_8UC1,false},{CV_8UC3,true},{CV_8UC3,false},{CV_8UC4,true},{CV_8UC4,false},
        {CV_32FC1,false},{CV_32FC3,false},{CV_32FC4,false},{CV_32SC1,true},{CV_32SC3,true},{CV_32SC4,true}};
    void fillFinite(cv::Mat& m, vh::Rng& r) {
        if(m.depth()==CV_32F) {
            for(int y=0; y<m.rows; ++y)
                for(int x=0; x<m.cols*m.channels(); ++x)
                    m.ptr<float>(y)[x] = r.chance(30)?(float)r.range(-5,5):(float)r.real(-1000,1000);
        }
        else
            cg::fill(m,r,(int)r.below(2));
    }
    cv::Size pickSize(vh::Rng& r, int mx) {
        if(r.chance(15)) return cv::Size((int)r.range(1,3),(int)r.range(1,3));
        if(r.chance(20)) return cv::Size(12*(int)r.range(1,4),8*(int)r.range(1,4));
        return cv::Size((int)r.range(1,mx),(int)r.range(1,mx*2/3));
    }
    std::string firstDiff(const cv::Mat& a, const cv::Mat& b) {
        if(!cg::sameShape(a,b)) return "shape "+cg::shape(a)+" vs "+cg::shape(b);
        const auto x = cg::bytes(a), y = cg::bytes(b);
        for(size_t i=0; i<x.size(); ++i)
            if(x[i]!=y[i])
                return fmt("byte %zu of %zu: %d instead of %d (row %zu)",i,x.size(),x[i],y[i],i/(a.cols*a.elemSize()));
        return "same";
    }
    template<typename F> bool refuses(F f) {
        try {f();} catch(const lv::Exception&) {while(glGetError()!=GL_NO_ERROR); return true;} catch(const cv::Exception&) {return true;}
        return false;
    }
}

SCENARIO("transfers",60,600) {
    ctx();
    auto& r = c.rng;
    const Kind k = KINDS[r.below(12)];
    const cv::Size s = pickSize(r,70);
    const int layers = (int)r.range(1,4);
    c.desc(fmt("%dx%d type %d integral %d layers %d",s.width,s.height,k.type,(int)k.integral,layers));
    auto make = [&]{auto g = std::make_unique<Guarded>(s,k.type); fillFinite(g->m,r); return g;};
    auto a = make();
    const cv::Mat a0 = a->m.clone();
    auto cmp = [&](Guarded& got,const cv::Mat& want,const char* key){
        CK(got.intact(),(std::string(key)+"-bounds").c_str(),fmt("%s wrote outside its destination",key));
        CK(cg::sameBits(got.m,want),key,fmt("%s: %s",key,firstDiff(got.m,want).c_str()));
    };
    auto noErr = [&](const char* what){const GLenum e = glGetError(); CK(e==GL_NO_ERROR,"gl-error",fmt("%s left GL error 0x%x",what,e));};
    {
        GLDynamicTexture2D t((GLsizei)(r.chance(20)&&k.type!=CV_32SC3&&!k.integral?2:1),a->m,k.integral);
        auto g = make(); t.fetchTexture(g->m); noErr("fetchTexture"); cmp(*g,a0,"texture-init");
        cv::Mat cur = a0;
        GLPixelBufferObject up(a0,GL_PIXEL_UNPACK_BUFFER,GL_STREAM_DRAW), down(a0,GL_PIXEL_PACK_BUFFER,GL_STREAM_READ);
        CK(up.type()==k.type && up.size()==s,"pbo-info","pixel buffer size/type");
        for(int step=0; step<4; ++step) {
            auto b = make(); const cv::Mat b0 = b->m.clone();
            if(r.chance(50)) {t.updateTexture(b->m,true);}
            else {
                CK(up.updateBuffer(b->m,r.chance(50),true),"pbo-update","updateBuffer refused");
                t.updateTexture(up,true);
            }
            noErr("update");
            CK(cg::sameBits(b->m,b0) && b->intact(),"source-unmodified","upload modified its source");
            fillFinite(b->m,r); // the texture holds its own copy
            cur = b0;
            auto g2 = make();
            if(r.chance(50)) t.fetchTexture(g2->m);
            else {t.fetchTexture(down,true); CK(down.fetchBuffer(g2->m,true),"pbo-fetch","fetchBuffer refused");}
            noErr("fetch");
            cmp(*g2,cur,"texture-fetch");
        }
    }
    {
        std::vector<cv::Mat> init, cur;
        for(int i=0; i<layers; ++i) {auto b = make(); init.push_back(b->m.clone()); cur.push_back(init.back().clone());}
        GLDynamicTexture2DArray t(1,init,k.integral);
        GLPixelBufferObject up(a0,GL_PIXEL_UNPACK_BUFFER,GL_STREAM_DRAW), down(a0,GL_PIXEL_PACK_BUFFER,GL_STREAM_READ);
        for(int step=0; step<4; ++step) {
            if(step>0) {
                const int l = (int)r.below(layers); auto b = make();
                if(r.chance(50)) t.updateTexture(b->m,l,true);
                else {up.updateBuffer(b->m,false,true); t.updateTexture(up,l,true);}
                cur[l] = b->m.clone();
                noErr("array update");
            }
            for(int l=0; l<layers; ++l) {
                auto g = make();
                if(r.chance(50)) t.fetchTexture(g->m,l);
                else {t.fetchTexture(down,l,true); down.fetchBuffer(g->m,true);}
                noErr("array fetch");
                cmp(*g,cur[l],"array-fetch");
            }
        }
    }
    c.nontrivial(fmt("%dx%d t%d i%d l%d",s.width,s.height,k.type,(int)k.integral,layers));
    c.stat("transfers",8+4*layers);
    c.sample(fmt("%dx%d t%d i%d l%d",s.width,s.height,k.type,(int)k.integral,layers));
}

namespace {
    struct PassThrough : GLImagePassThroughAlgo {
        using GLImagePassThroughAlgo::GLImagePassThroughAlgo;
        using GLImageProcAlgo::initialize_gl;
        using GLImageProcAlgo::apply_gl;
    };
    std::vector<cv::Mat> makeFrames(vh::Rng& r, cv::Size s, int type, int n) {
        std::vector<cv::Mat> v;
        for(int i=0; i<n; ++i) {cv::Mat m(s,type); fillFinite(m,r); v.push_back(m);}
        return v;
    }
    bool loadable(int type) {return type!=CV_32FC3 && type!=CV_32SC3;} // three-channel images have no GLSL image format
}

SCENARIO("pass-through",28,280) {
    ctx();
    auto& r = c.rng;
    Kind k = KINDS[r.below(12)];
    const cv::Size s = pickSize(r,60);
    const int n = (int)r.range(1,6);
    const bool rebind = r.chance(40), timers = r.chance(20), display = CV_MAT_DEPTH(k.type)==CV_8U && 2*s.width<=WINW && s.height<=WINH && r.chance(50);
    c.desc(fmt("%dx%d type %d integral %d frames %d rebind %d timers %d display %d",s.width,s.height,k.type,(int)k.integral,n,(int)rebind,(int)timers,(int)display));
    const auto frames = makeFrames(r,s,k.type,n+1);
    const cv::Mat roi(s,CV_8UC1,cv::Scalar(255));
    PassThrough p(k.type,display,timers,k.integral);
    CK(!p.getIsGLInitialized(),"pipeline-state","initialized before initialize_gl");
    CK(refuses([&]{p.apply_gl(frames[0]);}),"pipeline-refusal","apply_gl accepted before initialize_gl");
    CK(refuses([&]{p.initialize_gl(frames[0],cv::Mat());}),"pipeline-refusal","empty ROI accepted");
    CK(refuses([&]{p.initialize_gl(frames[0],cv::Mat(s.height+1,s.width,CV_8UC1,cv::Scalar(255)));}),"pipeline-refusal","ROI of another size accepted");
    CK(refuses([&]{p.initialize_gl(cv::Mat(),roi);}),"pipeline-refusal","empty input accepted");
    if(!loadable(k.type)) {
        CK(refuses([&]{p.initialize_gl(frames[0],roi);}),"pipeline-refusal","format without GLSL image support accepted");
        c.nontrivial(c.desc_);
        return;
    }
    std::vector<cv::Mat> copies; for(auto& f : frames) copies.push_back(f.clone());
    const int rounds = r.chance(30)?2:1;
    for(int round=0; round<rounds; ++round) {
        p.initialize_gl(frames[0],roi);
        CK(p.getIsGLInitialized(),"pipeline-state","not initialized after initialize_gl");
        CK(refuses([&]{p.apply_gl(cv::Mat(s.height,s.width+1,k.type,cv::Scalar::all(0)));}),"pipeline-refusal","input of another size accepted");
        CK(refuses([&]{p.apply_gl(cv::Mat(s,k.type==CV_8UC1?CV_8UC4:CV_8UC1,cv::Scalar::all(0)));}),"pipeline-refusal","input of another type accepted");
        p.setOutputFetching(false);
        cv::Mat dummy;
        CK(refuses([&]{p.fetchLastOutput(dummy);}),"pipeline-refusal","output handed over while fetching is off");
        CK(!p.setDebugFetching(true),"pipeline-state","debug fetching accepted by a pipeline without debug output");
        CK(p.setOutputFetching(true),"pipeline-state","output fetching refused");
        const int skip = (r.chance(30) && n>1)?(int)r.below(n):-1; // a frame whose output is not asked for
        for(int i=0; i<n; ++i) {
            p.setOutputFetching(i!=skip);
            if(display) {glViewport(0,0,2*s.width,s.height); glClearColor(0.5f,0.25f,0.75f,1); glClear(GL_COLOR_BUFFER_BIT);}
            p.apply_gl(frames[i+1],rebind);
            if(display) { // the input and the output are shown side by side
                cv::Mat shown(s.height,2*s.width,CV_8UC4);
                glBindBuffer(GL_PIXEL_PACK_BUFFER,0); glPixelStorei(GL_PACK_ALIGNMENT,1);
                glReadPixels(0,0,2*s.width,s.height,GL_BGRA,GL_UNSIGNED_BYTE,shown.data);
                cv::flip(shown,shown,0);
                const int ch = frames[i].channels();
                for(int y=0; y<s.height; ++y) for(int x=0; x<2*s.width; ++x) for(int q=0; q<3; ++q) {
                    const int want = frames[i].data[((size_t)y*s.width+x%s.width)*ch+(ch==1?0:q)], got = shown.at<cv::Vec4b>(y,x)[q];
                    CK(std::abs(want-got)<=1,"pipeline-display",fmt("frame %d, %s panel: pixel (%d,%d) channel %d shown as %d instead of %d",i,x<s.width?"input":"output",x%s.width,y,q,got,want));
                }
                glViewport(0,0,WINW,WINH);
                c.stat("displayed_pixels",2*s.area());
            }
            if(i==skip) continue;
            cv::Mat out;
            if(r.chance(50)) {out.create(s,k.type); out = cv::Scalar::all(77);}
            const size_t idx = p.fetchLastOutput(out);
            CK(idx==(size_t)i,"pipeline-index",fmt("output %d tagged with index %zu",i,idx));
            CK(cg::sameBits(out,frames[i]),"pipeline-output",fmt("output %d of the pass-through pipeline differs from input %d: %s",i,i,firstDiff(out,frames[i]).c_str()));
            cv::Mat again; p.fetchLastOutput(again);
            CK(cg::sameBits(again,out),"pipeline-refetch","fetching the same output twice gives two results");
        }
        if(n!=skip+1) {
            p.setOutputFetching(true);
            p.apply_gl(cv::Mat(),rebind);
            cv::Mat out; const size_t idx = p.fetchLastOutput(out);
            CK(idx==(size_t)n && cg::sameBits(out,frames[n]),"pipeline-flush",fmt("the last input does not come out (index %zu)",idx));
        }
    }
    for(size_t i=0; i<frames.size(); ++i)
        CK(cg::sameBits(frames[i],copies[i]),"source-unmodified","the pipeline modified its input");
    const GLenum e = glGetError(); CK(e==GL_NO_ERROR,"gl-error",fmt("GL error 0x%x",e));
    c.nontrivial(c.desc_);
    c.stat("frames",n*rounds);
}

namespace {
    /// one shader storage buffer of 32-bit words
    struct SSBO {
        GLuint id = 0; size_t n; GLuint slot;
        SSBO(GLuint slot_,std::vector<uint32_t> init) : n(init.size()),slot(slot_) {
            glGenBuffers(1,&id);
            glBindBuffer(GL_SHADER_STORAGE_BUFFER,id);
            glBufferData(GL_SHADER_STORAGE_BUFFER,n*4,init.data(),GL_DYNAMIC_COPY);
            glBindBufferBase(GL_SHADER_STORAGE_BUFFER,slot,id);
        }
        ~SSBO() {glDeleteBuffers(1,&id);}
        std::vector<uint32_t> get() const {
            std::vector<uint32_t> v(n);
            glMemoryBarrier(GL_ALL_BARRIER_BITS);
            glBindBuffer(GL_SHADER_STORAGE_BUFFER,id);
            glGetBufferSubData(GL_SHADER_STORAGE_BUFFER,0,n*4,v.data());
            return v;
        }
    };
    /// compiles, links, runs; a source handed out by the library must compile
    bool runCompute(Case& c, const char* what, const std::string& src, int gx, int gy) {
        try {
            GLShader sh;
            sh.addSource(src,GL_COMPUTE_SHADER);
            const bool ok = sh.link() && sh.isLinked() && sh.activate() && sh.isActive();
            CK(ok,"shader-build",fmt("%s: link or activation refused",what));
            if(!ok) return false;
            glDispatchCompute(gx,gy,1);
            glMemoryBarrier(GL_ALL_BARRIER_BITS);
            const GLenum e = glGetError();
            CK(e==GL_NO_ERROR,"gl-error",fmt("%s: GL error 0x%x",what,e));
        } catch(const lv::Exception& e) {
            while(glGetError()!=GL_NO_ERROR);
            c.fail("shader-build",fmt("%s: the shader source handed out by the library does not build: %s",what,[&]{const std::string m = e.what(); return m.substr(m.size()>500?m.size()-500:0);}().c_str()));
            return false;
        }
        return true;
    }
    uint32_t tmtNext(uint32_t* s,uint32_t m1,uint32_t m2,uint32_t tm) {
        uint32_t y = s[3], x = (s[0]&0x7fffffffu)^s[1]^s[2];
        x ^= x<<1; y ^= (y>>1)^x;
        s[0] = s[1]; s[1] = s[2]; s[2] = x^(y<<10); s[3] = y;
        if(y&1) {s[1] ^= m1; s[2] ^= m2;}
        uint32_t t1 = s[0]+(s[2]>>8), t0 = s[3]^t1;
        if(t1&1) t0 ^= tm;
        return t0;
    }
}

SCENARIO("shader-math",14,140) {
    ctx();
    auto& r = c.rng;
    const int n = 64*(int)r.range(1,20);
    const bool builtin = r.chance(50), wide = r.chance(30);
    c.desc(fmt("%d value pairs, built-in distance %d, wide %d",n,(int)builtin,(int)wide));
    std::vector<uint32_t> in((size_t)n*8), out((size_t)n*16,0xdeadbeef);
    for(auto& v : in) v = r.chance(20)?(uint32_t)r.pick(std::vector<int>{0,1,127,128,254,255}):(uint32_t)r.below(wide?65536:256);
    SSBO bi(0,in), bo(1,out);
    std::string src = "#version 430\nlayout(local_size_x=64) in;\n"
        "layout(binding=0, std430) readonly buffer bI {uvec4 i[];};\nlayout(binding=1, std430) writeonly buffer bO {uint o[];};\n"
        +lv::getShaderFunctionSource_absdiff(builtin)+lv::getShaderFunctionSource_L1dist()+lv::getShaderFunctionSource_L2dist(builtin)+lv::getShaderFunctionSource_hdist()+GLShader::getShaderFunctionSource_urand()+
        "void main() {\n    uint k = gl_GlobalInvocationID.x;\n    uvec3 a = i[k*2].xyz, b = i[k*2+1].xyz;\n"
        "    uvec3 d = absdiff(a,b); o[k*16] = d.x; o[k*16+1] = d.y; o[k*16+2] = d.z; o[k*16+3] = absdiff(a.x,b.x);\n"
        "    o[k*16+4] = L1dist(a,b); o[k*16+5] = L2dist(a,b);\n"
        "    uvec3 h = hdist(a,b); o[k*16+6] = h.x; o[k*16+7] = h.y; o[k*16+8] = h.z; o[k*16+9] = hdist(a.y,b.y);\n"
        "    uint s = a.x*65537u+b.z; o[k*16+10] = urand(s); o[k*16+11] = s; o[k*16+12] = urand(s);\n}\n";
    if(!runCompute(c,"distance functions",src,n/64,1)) return;
    const auto o = bo.get();
    auto jenk = [](uint32_t s){s += s<<10; s ^= s>>6; s += s<<3; s ^= s>>11; s += s<<15; return s;};
    for(int k=0; k<n; ++k) {
        const uint32_t *a = &in[k*8], *b = a+4, *g = &o[k*16];
        uint32_t l1 = 0; double l2 = 0;
        for(int j=0; j<3; ++j) {
            const uint32_t d = (uint32_t)std::abs((int)a[j]-(int)b[j]);
            l1 += d; l2 += (double)d*d;
            CK(g[j]==d,"absdiff",fmt("absdiff(%u,%u)=%u",a[j],b[j],g[j]));
            CK(g[6+j]==(uint32_t)__builtin_popcount(a[j]^b[j]),"hdist",fmt("hdist(%u,%u)=%u",a[j],b[j],g[6+j]));
        }
        l2 = std::sqrt(l2);
        CK(g[3]==g[0],"absdiff",fmt("scalar absdiff(%u,%u)=%u",a[0],b[0],g[3]));
        CK(g[4]==l1,"L1dist",fmt("L1dist %u instead of %u",g[4],l1));
        CK(g[5]==(uint32_t)(l2+0.02) || g[5]==(uint32_t)std::max(0.0,l2-0.02),"L2dist",fmt("L2dist %u instead of %f",g[5],l2));
        CK(g[9]==g[7],"hdist",fmt("scalar hdist(%u,%u)=%u",a[1],b[1],g[9]));
        const uint32_t s = a[0]*65537u+b[2];
        CK(g[10]==jenk(s) && g[11]==jenk(s) && g[12]==jenk(jenk(s)),"urand",fmt("urand sequence from seed %u",s));
    }
    c.nontrivial(c.desc_);
    c.stat("shader_invocations",n);
}

SCENARIO("shader-random",10,100) {
    ctx();
    auto& r = c.rng;
    const int w = (int)r.range(1,24), h = (int)r.range(1,24), z = (int)r.range(1,2), steps = (int)r.range(1,40);
    const int border = r.chance(50)?0:(int)r.range(0,(std::min(w,h)-1)/2);
    c.desc(fmt("%dx%dx%d generators, %d steps, border %d",w,h,z,steps,border));
    srand((unsigned)r.u32());
    lv::aligned_vector<lv::gl::TMT32GenParams,32> gens;
    lv::gl::TMT32GenParams::initTinyMT32Generators(glm::uvec3(w,h,z),gens);
    const int n = w*h*z;
    CK((int)gens.size()==n,"generators",fmt("%zu generators instead of %d",gens.size(),n));
    if((int)gens.size()!=n) return;
    std::set<std::vector<uint32_t>> states;
    std::vector<uint32_t> words((size_t)n*8);
    for(int i=0; i<n; ++i) {
        std::vector<uint32_t> st(gens[i].status,gens[i].status+4);
        CK((st[0]&0x7fffffffu) || st[1] || st[2] || st[3],"generators","a generator in the all-zero state yields only zeros");
        states.insert(st);
        for(int j=0; j<4; ++j) words[i*8+j] = st[j];
        words[i*8+4] = gens[i].mat1; words[i*8+5] = gens[i].mat2; words[i*8+6] = gens[i].tmat; words[i*8+7] = gens[i].pad;
        CK(gens[i].mat1==0xF20D1B78u && gens[i].mat2==0xFF90FFE5u && gens[i].tmat==0x30FBDFFFu,"generators","generator parameters are not the published set");
    }
    CK((int)states.size()>=n-2,"generators",fmt("only %zu distinct generator states among %d",states.size(),n));
    SSBO bg(0,words), bo(1,std::vector<uint32_t>((size_t)n*steps,0)), bn(2,std::vector<uint32_t>((size_t)w*h*16,0));
    std::string src = "#version 430\nlayout(local_size_x=1) in;\n"+GLShader::getShaderFunctionSource_urand_tinymt32()+
        GLShader::getShaderFunctionSource_getRandNeighbor3x3((size_t)border,cv::Size(w,h))+
        "layout(binding=0, std430) buffer bG {TMT32Model g[];};\nlayout(binding=1, std430) writeonly buffer bO {uint o[];};\nlayout(binding=2, std430) writeonly buffer bN {int p[];};\n"
        "void main() {\n    uint k = gl_GlobalInvocationID.x;\n    for(uint i=0;i<"+std::to_string(steps)+";++i) o[k*"+std::to_string(steps)+"+i] = urand(g[k]);\n"
        "    if(k<"+std::to_string(w*h)+") for(uint i=0;i<8;++i) {\n        ivec2 q = getRandNeighbor3x3(ivec2(k%"+std::to_string(w)+",k/"+std::to_string(w)+"),i+8*(k%5));\n        p[k*16+i*2] = q.x; p[k*16+i*2+1] = q.y;\n    }\n}\n";
    if(!runCompute(c,"random functions",src,n,1)) return;
    const auto o = bo.get(), st = bg.get(), nb = bn.get();
    for(int i=0; i<n; ++i) {
        uint32_t s[4]; for(int j=0; j<4; ++j) s[j] = gens[i].status[j];
        bool same = true;
        for(int k=0; k<steps; ++k)
            same = (o[(size_t)i*steps+k]==tmtNext(s,gens[i].mat1,gens[i].mat2,gens[i].tmat)) && same;
        CK(same,"tinymt",fmt("generator %d leaves the reference sequence",i));
        CK(std::equal(s,s+4,&st[i*8]) && st[i*8+4]==gens[i].mat1,"tinymt-state",fmt("state of generator %d",i));
    }
    for(int y=0; y<h; ++y) for(int x=0; x<w; ++x) {
        std::set<std::pair<int,int>> seen;
        for(int i=0; i<8; ++i) {
            const int qx = (int)nb[(y*w+x)*16+i*2], qy = (int)nb[(y*w+x)*16+i*2+1];
            CK(qx>=border && qy>=border && qx<w-border && qy<h-border,"neighbor-bounds",fmt("neighbour (%d,%d) of (%d,%d) outside the %dx%d frame (border %d)",qx,qy,x,y,w,h,border));
            if(x>=border && y>=border && x<w-border && y<h-border)
                CK(std::abs(qx-x)<=1 && std::abs(qy-y)<=1,"neighbor-distance",fmt("neighbour (%d,%d) of (%d,%d)",qx,qy,x,y));
            seen.insert({qx,qy});
        }
        if(x>border && y>border && x<w-border-1 && y<h-border-1)
            CK(seen.size()==8 && !seen.count({x,y}),"neighbor-cover","the eight random values do not reach the eight neighbours");
    }
    c.nontrivial(c.desc_);
    c.stat("shader_invocations",n);
}

namespace {
    int at(const cv::Mat& m,int y,int x,int ch) {
        return (y<0 || x<0 || y>=m.rows || x>=m.cols)?0:m.ptr<uchar>(y)[x*m.channels()+ch];
    }
    const int PATT[16][2] = {{-2,0},{2,0},{0,-2},{0,2},{-2,2},{2,-2},{2,2},{-2,-2},{0,1},{-1,0},{0,-1},{1,0},{-1,-1},{1,1},{1,-1},{-1,1}}; // bit n -> (dx,dy)
    glm::uvec2 pickGroup(vh::Rng& r) {
        if(r.chance(40)) return glm::uvec2(12,8);
        for(;;) {
            const glm::uvec2 g((unsigned)r.range(4,32),(unsigned)r.range(4,32));
            if(g.x*g.y<=1024) return g;
        }
    }
    std::string groupDecl(glm::uvec2 g) {return fmt("layout(local_size_x=%u,local_size_y=%u) in;\n",g.x,g.y);}
}

SCENARIO("shader-images",24,240) {
    ctx();
    auto& r = c.rng;
    const cv::Size s = pickSize(r,60);
    const glm::uvec2 g = pickGroup(r);
    const int gx = (s.width+g.x-1)/g.x, gy = (s.height+g.y-1)/g.y;
    const int kind = (int)r.below(4);
    const bool shared = r.chance(50);
    auto outImg = [&](cv::Size sz){return std::make_unique<GLDynamicTexture2D>(1,cv::Mat(sz,CV_32SC4,cv::Scalar::all(-7)),true);};
    const std::string hdr = "#version 430\n"+groupDecl(g);
    if(kind==0) { // descriptor
        const int ch = r.chance(50)?1:4; const int t = (int)r.range(0,60);
        c.desc(fmt("lbsp %dx%d, %d channels, group %ux%u, shared %d, threshold %d",s.width,s.height,ch,g.x,g.y,(int)shared,t));
        cv::Mat img(s,CV_8UC(ch)); cg::fill(img,r,(int)r.below(3));
        GLDynamicTexture2D ti(1,img,true); auto to = outImg(s);
        ti.bindToImage(0,0,GL_READ_ONLY); to->bindToImage(1,0,GL_WRITE_ONLY);
        const std::string f = ch==4?"rgba8ui":"r8ui";
        const std::string src = hdr+"layout(binding=0, "+f+") readonly uniform uimage2D mI;\nlayout(binding=1, rgba32ui) writeonly uniform uimage2D mO;\n"
            +LBSP::getShaderFunctionSource((size_t)ch,shared,g)+
            "void main() {\n    ivec2 p = ivec2(gl_GlobalInvocationID.xy);\n    uvec3 ref = imageLoad(mI,p).rgb;\n"
            +(shared?"    preload_data(mI);\n    barrier();\n":"")+
            "    uvec3 d = lbsp(uvec3("+std::to_string(t)+"),ref,"+(shared?"":"mI,")+"p);\n    imageStore(mO,p,uvec4(d,7));\n}\n";
        if(!runCompute(c,"lbsp",src,gx,gy)) return;
        cv::Mat o; o.create(s,CV_32SC4); to->fetchTexture(o);
        for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x) {
            const cv::Vec4i v = o.at<cv::Vec4i>(y,x); // stored as b,g,r,a
            for(int k=0; k<(ch==4?3:1); ++k) {
                int want = 0;
                for(int b=0; b<16; ++b)
                    want |= (std::abs(at(img,y+PATT[b][1],x+PATT[b][0],k)-at(img,y,x,k))>t)<<b;
                const int got = ch==4?v[k]:v[2];
                CK(got==want,"lbsp-shader",fmt("descriptor at (%d,%d) channel %d: 0x%04x instead of 0x%04x",x,y,k,got,want));
                if(x>=2 && y>=2 && x<s.width-2 && y<s.height-2) {
                    LBSP::desc_t d;
                    if(ch==4) LBSP::computeDescriptor<4>(img,(uchar)at(img,y,x,k),x,y,(size_t)k,(uchar)t,d);
                    else LBSP::computeDescriptor<1>(img,(uchar)at(img,y,x,k),x,y,(size_t)k,(uchar)t,d);
                    CK(got==(int)d,"lbsp-cpu",fmt("GPU and CPU descriptors at (%d,%d) differ: 0x%04x, 0x%04x",x,y,got,(int)d));
                }
            }
        }
    }
    else if(kind==1) { // median
        const int k = 2*(int)r.range(0,4)+1; const int dens = (int)r.range(0,100);
        c.desc(fmt("median %dx%d, kernel %d, group %ux%u, shared %d, density %d",s.width,s.height,k,g.x,g.y,(int)shared,dens));
        cv::Mat img(s,CV_8UC1); for(int i=0; i<s.area(); ++i) img.data[i] = r.chance(dens/100.0)?255:0;
        GLDynamicTexture2D ti(1,img,true); auto to = outImg(s);
        ti.bindToImage(0,0,GL_READ_ONLY); to->bindToImage(1,0,GL_WRITE_ONLY);
        const std::string src = hdr+"layout(binding=0, r8ui) readonly uniform uimage2D mI;\nlayout(binding=1, rgba32ui) writeonly uniform uimage2D mO;\n"
            +GLShader::getComputeShaderFunctionSource_BinaryMedianBlur((size_t)k,shared,g)+
            "void main() {\n    ivec2 p = ivec2(gl_GlobalInvocationID.xy);\n"+(shared?"    preload_data(mI);\n    barrier();\n":"")+
            "    imageStore(mO,p,uvec4(BinaryMedianBlur("+(shared?"":"mI,")+"p)));\n}\n";
        if(!runCompute(c,"median",src,gx,gy)) return;
        cv::Mat o; o.create(s,CV_32SC4); to->fetchTexture(o);
        for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x) {
            int cnt = 0;
            for(int dy=-k/2; dy<=k/2; ++dy) for(int dx=-k/2; dx<=k/2; ++dx) cnt += at(img,y+dy,x+dx,0)>128;
            const int got = o.at<cv::Vec4i>(y,x)[2], want = cnt>k*k/2?255:0;
            CK(got==want,"median-shader",fmt("median at (%d,%d): %d instead of %d",x,y,got,want));
        }
    }
    else if(kind==2) { // work-group preload
        const int ch = r.chance(50)?1:4; const int b = (int)r.range(0,4);
        const int pw = (int)g.x+2*b, ph = (int)g.y+2*b;
        c.desc(fmt("preload %dx%d, %d channels, group %ux%u, border %d",s.width,s.height,ch,g.x,g.y,b));
        cv::Mat img(s,CV_8UC(ch)); cg::fill(img,r,0);
        GLDynamicTexture2D ti(1,img,true); ti.bindToImage(0,0,GL_READ_ONLY);
        SSBO bo(1,std::vector<uint32_t>((size_t)gx*gy*pw*ph*4,0xdeadbeef));
        const std::string src = hdr+"layout(binding=0, "+(ch==4?"rgba8ui":"r8ui")+") readonly uniform uimage2D mI;\nlayout(binding=1, std430) writeonly buffer bO {uvec4 o[];};\n"
            +GLShader::getComputeShaderFunctionSource_SharedDataPreLoad((size_t)ch,g,(size_t)b)+
            fmt("void main() {\n    preload_data(mI);\n    barrier();\n    if(gl_LocalInvocationIndex==0)\n        for(uint y=0;y<%d;++y) for(uint x=0;x<%d;++x)\n            o[((gl_WorkGroupID.y*%d+gl_WorkGroupID.x)*%d+y)*%d+x] = avPreloadData[y][x];\n}\n",ph,pw,gx,ph,pw);
        if(!runCompute(c,"preload",src,gx,gy)) return;
        const auto o = bo.get();
        for(int wy=0; wy<gy; ++wy) for(int wx=0; wx<gx; ++wx) for(int y=0; y<ph; ++y) for(int x=0; x<pw; ++x) {
            const int iy = wy*(int)g.y+y-b, ix = wx*(int)g.x+x-b;
            const uint32_t* q = &o[(((size_t)(wy*gx+wx)*ph+y)*pw+x)*4];
            for(int k=0; k<(ch==4?4:1); ++k) {
                const int mk = (ch==4&&k<3)?2-k:k; // red first on the GPU, blue first in the matrix
                CK(q[k]==(uint32_t)at(img,iy,ix,mk),"preload",fmt("preloaded value (%d,%d) of group (%d,%d): %u instead of %d",x,y,wx,wy,q[k],at(img,iy,ix,mk)));
            }
        }
    }
    else { // transpose
        const int bs = (int)r.range(2,16); const int ty = r.pick(std::vector<int>{CV_8UC1,CV_8UC4,CV_32SC1,CV_32FC1,CV_32FC4,CV_32SC4});
        c.desc(fmt("transpose %dx%d type %d block %d",s.width,s.height,ty,bs));
        cv::Mat img(s,ty); fillFinite(img,r);
        const bool integral = CV_MAT_DEPTH(ty)!=CV_32F;
        GLDynamicTexture2D ti(1,img,integral), to(1,cv::Mat(s.width,s.height,ty,cv::Scalar::all(3)),integral);
        ti.bindToImage(0,0,GL_READ_ONLY); to.bindToImage(1,0,GL_WRITE_ONLY);
        if(!runCompute(c,"transpose",GLShader::getComputeShaderSource_Transpose((size_t)bs,lv::gl::getInternalFormatFromMatType(ty,integral),0,1),(s.width+bs-1)/bs,(s.height+bs-1)/bs)) return;
        cv::Mat o; o.create(s.width,s.height,ty); to.fetchTexture(o);
        const size_t es = img.elemSize();
        for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x)
            CK(!memcmp(img.ptr(y)+x*es,o.ptr(x)+y*es,es),"transpose",fmt("element (%d,%d)",x,y));
    }
    c.nontrivial(c.desc_);
    c.stat("shader_invocations",s.area());
}

SCENARIO("evaluator",16,160) {
    ctx();
    auto& r = c.rng;
    const bool longrun = c.idx==0, display = !longrun && r.chance(40);
    const cv::Size s = longrun?cv::Size(5,3):pickSize(r,60);
    const int n = longrun?2800:(int)r.range(1,6);
    const bool rebind = r.chance(30), fullROI = r.chance(30);
    c.desc(fmt("%dx%d, %d frames, display %d, rebind %d, full ROI %d",s.width,s.height,n,(int)display,(int)rebind,(int)fullROI));
    const std::vector<int> GTV{0,255,50,85,170,128};
    auto mask = [&](bool gt){cv::Mat m(s,CV_8UC1); for(int i=0; i<s.area(); ++i) m.data[i] = gt?(uchar)(r.chance(10)?(int)r.below(256):r.pick(GTV)):(uchar)(!display && r.chance(10)?(int)r.below(256):(r.chance(50)?255:0)); return m;};
    cv::Mat roi(s,CV_8UC1,cv::Scalar(255));
    if(!fullROI) for(int i=0; i<s.area(); ++i) if(r.chance(30)) roi.data[i] = 0;
    auto parent = std::make_shared<PassThrough>(CV_8UC1,display,false,true);
    lv::GLBinaryClassifierEvaluator ev(parent,(size_t)n);
    c.ck(refuses([&]{lv::GLBinaryClassifierEvaluator(parent,0);}),"eval-refusal","an evaluator of zero frames was accepted");
    c.ck(refuses([&]{ev.getEvaluationAtomicCounterBuffer();}),"eval-refusal","counters handed over before initialization");
    for(int round=0; round<(longrun?1:1+(int)r.below(2)); ++round) {
        std::vector<cv::Mat> in, gt;
        for(int i=0; i<=(longrun?7:n); ++i) {in.push_back(mask(false)); gt.push_back(mask(true));}
        auto IN = [&](int i)->const cv::Mat&{return in[i%in.size()];};
        auto GT = [&](int i)->const cv::Mat&{return gt[(i*3)%gt.size()];};
        ev.initialize_gl(IN(0),GT(0),roi);
        const bool dbg = display && ev.setDebugFetching(true);
        CK(dbg==display,"eval-state","debug fetching");
        lv::BinClassif total; total.nTP = total.nTN = total.nFP = total.nFN = total.nSE = total.nDC = 0;
        std::vector<std::array<uint64_t,6>> want;
        for(int i=0; i<n; ++i) {
            ev.apply_gl(IN(i+1),GT(i+1),rebind);
            std::array<uint64_t,6> w{}; const cv::Mat &a = IN(i), &g = GT(i);
            for(int k=0; k<s.area(); ++k) {
                if(!roi.data[k] || g.data[k]==85 || g.data[k]==170) {++w[lv::BinClassif::Counter_DC]; continue;}
                const bool pos = a.data[k]==255, truth = g.data[k]==255;
                ++w[pos?(truth?lv::BinClassif::Counter_TP:lv::BinClassif::Counter_FP):(truth?lv::BinClassif::Counter_FN:lv::BinClassif::Counter_TN)];
                if(pos && g.data[k]==50) ++w[lv::BinClassif::Counter_SE];
            }
            want.push_back(w);
            total.accumulate(a,g,roi);
            if(dbg) {
                cv::Mat d; const size_t idx = ev.fetchLastDebug(d);
                const cv::Mat cpu = lv::BinClassif::getColoredMask(a,g,roi);
                CK(idx==(size_t)i && d.type()==CV_8UC4 && d.size()==s,"eval-mask",fmt("coloured mask of frame %d has index %zu",i,idx));
                for(int k=0; k<s.area(); ++k) for(int ch=0; ch<3; ++ch)
                    CK(std::abs(d.data[k*4+ch]-cpu.data[k*3+ch])<=1,"eval-mask",fmt("coloured mask of frame %d, pixel %d, channel %d: %d on the GPU, %d on the CPU",i,k,ch,d.data[k*4+ch],cpu.data[k*3+ch]));
            }
            if(!longrun && r.chance(30)) ev.getEvaluationAtomicCounterBuffer(); // a look at the counters half-way changes nothing
        }
        c.ck(refuses([&]{ev.apply_gl(GT(0),rebind);}),"eval-refusal","a frame beyond the announced total was accepted");
        const cv::Mat q = ev.getEvaluationAtomicCounterBuffer().clone();
        CK(q.rows==n && q.cols==(int)lv::BinClassif::nCountersCount && q.type()==CV_32SC1,"eval-shape",fmt("counter table of %dx%d",q.cols,q.rows));
        if(q.rows!=n || q.cols!=(int)lv::BinClassif::nCountersCount) return;
        for(int i=0; i<n; ++i) for(int k=0; k<6; ++k)
            CK((uint32_t)q.at<int>(i,k)==want[i][k],"eval-counters",fmt("counter %d of frame %d: %u on the GPU, %u by definition",k,i,(uint32_t)q.at<int>(i,k),(uint32_t)want[i][k]));
        const auto m = ev.getMetricsBase();
        CK(m->m_oCounters.nTP==total.nTP && m->m_oCounters.nTN==total.nTN && m->m_oCounters.nFP==total.nFP && m->m_oCounters.nFN==total.nFN && m->m_oCounters.nSE==total.nSE && m->m_oCounters.nDC==total.nDC,
            "eval-totals","totals of the GPU and CPU evaluators differ");
    }
    const GLenum e = glGetError(); CK(e==GL_NO_ERROR,"gl-error",fmt("GL error 0x%x",e));
    c.nontrivial(c.desc_);
    c.stat("frames",n);
}

// Flat regions: where the scene is of one colour around a pixel, the background model can only hold that colour, whatever the
// random draws, so the expected mask is known there. MARGIN covers sample positions (3), descriptor patches (2), median (2x4).
SCENARIO("lobster",10,100) {
    ctx();
    auto& r = c.rng;
    const int ch = r.chance(50)?1:4, MARGIN = 14;
    cv::Size s((int)r.range(40,90),(int)r.range(40,90));
    if(r.chance(40)) s = r.chance(50)?cv::Size(40,110):cv::Size(110,40);
    const bool rebind = r.chance(30);
    srand((unsigned)r.u32());
    const int type = CV_8UC(ch);
    auto colour = [&]{cv::Scalar v; for(int k=0; k<4; ++k) v[k] = (double)r.range(45,140); return v;}; // a shade of 3 stays under the (relative) LBSP threshold
    const cv::Scalar bg = colour();
    cv::Scalar fg = bg; for(int k=0; k<3; ++k) fg[k] = bg[k]+100;
    // a rectangle that changes, away from the region outside the ROI
    const cv::Rect rc = s.width>=s.height?cv::Rect(0,0,s.width/2,s.height):cv::Rect(0,0,s.width,s.height/2);
    cv::Mat roi(s,CV_8UC1,cv::Scalar(255));
    const bool hole = r.chance(50);
    const cv::Rect hr = s.width>=s.height?cv::Rect(s.width-s.width/4,0,s.width/4,s.height):cv::Rect(0,s.height-s.height/4,s.width,s.height/4);
    if(hole) roi(hr) = 0;
    const int quiet = (int)r.range(1,3), moved = (int)r.range(1,3);
    c.desc(fmt("%dx%d, %d channels, colours %g/%g/%g, hole %d, %d+%d frames, rebind %d",s.width,s.height,ch,bg[0],bg[1],bg[2],(int)hole,quiet,moved,(int)rebind));
    const cv::Mat still(s,type,bg); cv::Mat change = still.clone(); change(rc) = fg;
    BackgroundSubtractorLOBSTER_GLSL algo;
    cv::Mat tmp;
    CK(refuses([&]{algo.apply(still,tmp);}),"bgs-refusal","apply before initialize accepted");
    CK(refuses([&]{algo.getBackgroundImage(tmp);}),"bgs-refusal","getBackgroundImage before initialize accepted");
    CK(refuses([&]{algo.refreshModel(0.5f);}),"bgs-refusal","refreshModel before initialize accepted");
    algo.initialize(still,(hole||r.chance(50))?roi:cv::Mat());
    auto dist = [](const cv::Rect& q,int x,int y){ // >0 inside, distance to the border of the rectangle
        return std::min(std::min(x-q.x,q.x+q.width-1-x),std::min(y-q.y,q.y+q.height-1-y));
    };
    auto outside = [](const cv::Rect& q,int x,int y){return std::max(std::max(q.x-x,x-(q.x+q.width-1)),std::max(q.y-y,y-(q.y+q.height-1)));};
    const cv::Rect all(0,0,s.width,s.height);
    int nFG = 0, nBG = 0;
    auto checkMask = [&](const cv::Mat& m,bool changed,const char* when){
        CK(m.type()==CV_8UC1 && m.size()==s,"bgs-mask-shape","mask shape");
        if(m.type()!=CV_8UC1 || m.size()!=s) return;
        for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x) {
            const int v = m.at<uchar>(y,x);
            CK(v==0 || v==255,"bgs-binary",fmt("%s: mask value %d at (%d,%d)",when,v,x,y));
            const bool still_ = !changed || outside(rc,x,y)>MARGIN;
            if(still_) {++nBG; CK(v==0,"bgs-static",fmt("%s: foreground at (%d,%d) where nothing ever changed",when,x,y));}
            else {
                // the changed half touches three frame sides; descriptors end 2 px and the median reads zeros beyond the frame
                const int in = s.width>=s.height?std::min(rc.width-1-x,std::min(std::min(x,y),s.height-1-y)):std::min(rc.height-1-y,std::min(std::min(x,y),s.width-1-x));
                if(in>=MARGIN) {++nFG; CK(v==255,"bgs-change",fmt("%s: a change of 100 at (%d,%d) is not foreground",when,x,y));}
            }
        }
    };
    auto checkModel = [&](const cv::Scalar& want,const cv::Rect& q,const char* when){
        cv::Mat b; algo.getBackgroundImage(b);
        CK(b.type()==type && b.size()==s,"bgs-model-shape","background image shape");
        if(b.type()!=type || b.size()!=s) return;
        for(int y=0; y<s.height; ++y) for(int x=0; x<s.width; ++x) {
            if(dist(q,x,y)<MARGIN || (hole && outside(hr,x,y)<=MARGIN) || dist(all,x,y)<MARGIN) continue;
            for(int k=0; k<std::min(ch,3); ++k)
                CK(std::abs(b.data[(y*s.width+x)*ch+k]-want[k])<=1,"bgs-model",fmt("%s: background image at (%d,%d) channel %d is %d, the scene was always %g",when,x,y,k,b.data[(y*s.width+x)*ch+k],want[k]));
        }
    };
    checkModel(bg,all,"after initialization");
    bool lazy = r.chance(30); // masks are not asked for at first
    auto step = [&](const cv::Mat& next,bool changedBefore,const char* when,double lr=-1){
        cv::Mat in = next.clone(), m;
        if(lazy) {algo.apply_gl(in,rebind,lr); return;}
        if(r.chance(30)) {m.create(s,CV_8UC1); m = cv::Scalar(77);}
        if(rebind) algo.apply_gl(in,m,true,lr); else algo.apply(in,m,lr);
        CK(cg::sameBits(in,next),"source-unmodified","the input frame was modified");
        checkMask(m,changedBefore,when);
    };
    for(int i=0; i<quiet; ++i) step(still,false,fmt("static frame %d",i).c_str());
    step(change,false,"last static frame");
    for(int i=0; i<moved-1; ++i) step(change,true,fmt("changed frame %d",i).c_str());
    lazy = false;
    step(still,true,"last changed frame");
    step(still,false,"back to the static scene");
    checkModel(bg,all,"after the change was undone");
    // a small lasting difference is absorbed, and refreshing a part of the model keeps what was absorbed
    cv::Scalar bg2 = bg; for(int k=0; k<4; ++k) bg2[k] = bg[k]+3;
    const cv::Mat still2(s,type,bg2);
    const bool partial = r.chance(50);
    if(partial) {
        for(int i=0; i<420; ++i) algo.apply(still2,tmp,1);
        algo.refreshModel(0.1f,r.chance(50));
        checkModel(bg2,all,"after absorbing a new shade and refreshing a tenth of the model");
    }
    else {
        algo.apply(still2,tmp,16); algo.apply(still2,tmp,16);
        const bool force = r.chance(50);
        algo.refreshModel(1.0f,force);
        checkModel(bg2,all,"after refreshing the whole model on a new shade");
    }
    const GLenum e = glGetError(); CK(e==GL_NO_ERROR,"gl-error",fmt("GL error 0x%x",e));
    CK(nBG>0,"bgs-coverage","no pixel observed");
    c.nontrivial(c.desc_);
    c.stat("mask_pixels_bg",nBG); c.stat("mask_pixels_fg",nFG);
}

// a shader object keeps its promises through any sequence of calls: what is active is what was activated last, uniforms are set only
// where they exist and read back as set, sources that do not build are refused
SCENARIO("shader-object",30,300) {
    ctx();
    auto& r = c.rng;
    const std::string good = "#version 430\nlayout(local_size_x=1) in;\nuniform float uf; uniform int ui; uniform uint uu; uniform vec4 uv; uniform mat4 um;\n"
        "layout(binding=3,std430) buffer B {float o[];};\n"
        "void main() {o[0]=uf; o[1]=float(ui); o[2]=float(uu); for(int i=0;i<4;++i) o[3+i]=uv[i]; for(int i=0;i<16;++i) o[7+i]=um[i/4][i%4];}\n";
    const std::string bad = r.chance(50)?"#version 430\nvoid main() {this is not glsl}\n":"#version 430\nlayout(local_size_x=1) in;\nvoid main() {undefined_name = 1;}\n";
    struct Obj {std::unique_ptr<GLShader> s; bool has = false, linked = false, bad = false; float v[23] = {};};
    std::vector<Obj> objs((size_t)r.range(1,3));
    for(auto& o : objs) o.s = std::make_unique<GLShader>();
    int active = -1;
    std::string trace;
    const int n = (int)r.range(5,25);
    SSBO out(3,std::vector<uint32_t>(23,0));
    auto current = [&]{GLint p = 0; glGetIntegerv(GL_CURRENT_PROGRAM,&p); return (GLuint)p;};
    for(int i=0; i<n; ++i) {
        const size_t k = r.below(objs.size());
        Obj& o = objs[k];
        const int op = (int)r.below(8);
        trace += fmt("%d%c ",(int)k,"aalvvcdx"[op]);
        if(op<=1) {
            if(!o.has && !o.linked) {o.bad = r.chance(15); o.s->addSource(o.bad?bad:good,GL_COMPUTE_SHADER); o.has = true;}
            if(o.bad) {
                CK(refuses([&]{o.s->link();}),"shader-refusal","a source that does not compile was linked");
                CK(refuses([&]{o.s->activate();}),"shader-refusal","a source that does not compile was activated");
                CK(!o.s->isCompiled() && !o.s->isLinked() && !o.s->isActive(),"shader-refusal","a refused shader counts as built");
                o.s->clear(); o.has = o.bad = false;
                CK(o.s->isEmpty(),"shader-state","clear left sources behind");
            }
            else if(o.has || o.linked) {
                const bool a = o.s->activate();
                CK(a,"shader-state","activation of a valid shader refused");
                o.linked = true; o.has = false; active = (int)k;
            }
        }
        else if(op==2) {
            if(o.has) {CK(o.s->link(r.chance(50)),"shader-state","link of a valid shader refused"); if(!o.s->isEmpty()) {o.s->link(true);} o.linked = true; o.has = false; if(active==(int)k && !o.s->isActive()) active = -1;}
            CK(o.s->isLinked()==o.linked,"shader-state",fmt("isLinked()=%d",(int)o.s->isLinked()));
        }
        else if(op<=4) {
            auto val = [&]{return (float)r.range(0,5000);};
            const float f = val(), q = val(), u = val(); glm::vec4 v(val(),val(),val(),val()); glm::mat4 m;
            for(int a=0; a<4; ++a) for(int b=0; b<4; ++b) m[a][b] = val();
            const bool byLoc = r.chance(40);
            auto L = [&](const char* nm){return o.s->getUniformLocFromName(nm);};
            auto S = [&](bool res,const char* nm){CK(res==o.linked,"uniform-set",fmt("setUniform(%s) answered %d on a %s shader",nm,(int)res,o.linked?"linked":"unlinked"));};
            if(byLoc) {
                S(o.s->setUniform1f(L("uf"),f),"uf"); S(o.s->setUniform1i(L("ui"),(GLint)q),"ui"); S(o.s->setUniform1ui(L("uu"),(GLuint)u),"uu");
                S(o.s->setUniform4fv(L("uv"),v),"uv"); S(o.s->setUniform4fm(L("um"),m),"um");
            }
            else {
                S(o.s->setUniform1f("uf",f),"uf"); S(o.s->setUniform1i("ui",(GLint)q),"ui"); S(o.s->setUniform1ui("uu",(GLuint)u),"uu");
                S(o.s->setUniform4fv("uv",v),"uv"); S(o.s->setUniform4fm("um",m),"um");
            }
            CK(!o.s->setUniform1f("nothere",f) && !o.s->setUniform1i("nothere",1) && !o.s->setUniform1ui("nothere",1u) && !o.s->setUniform4fv("nothere",v) && !o.s->setUniform4fm("nothere",m),"uniform-unknown","a uniform that does not exist was set");
            if(o.linked) {
                o.v[0] = f; o.v[1] = q; o.v[2] = u; for(int a=0; a<4; ++a) o.v[3+a] = v[a];
                for(int a=0; a<16; ++a) o.v[7+a] = m[a/4][a%4];
                const GLint l = L("uu"); GLuint got = 0; glGetUniformuiv(o.s->getProgID(),l,&got);
                CK(got==(GLuint)u,"uniform-value",fmt("uniform uu is %u instead of %g",got,u));
            }
        }
        else if(op==5) {
            o.s = std::make_unique<GLShader>(); // the old object goes away
            o = [&]{Obj z; z.s = std::move(o.s); return z;}();
            if(active==(int)k) active = -1;
            CK(o.s->isEmpty() && !o.s->isLinked() && !o.s->isActive() && !o.s->isCompiled(),"shader-state","a new shader is not blank");
        }
        else if(op==6 && active>=0) { // what runs is the active program with its own uniforms
            CK(current()==objs[active].s->getProgID(),"active-program",fmt("program %u in use instead of %u",current(),objs[active].s->getProgID()));
            glDispatchCompute(1,1,1); glMemoryBarrier(GL_ALL_BARRIER_BITS);
            const auto g = out.get();
            for(int a=0; a<23; ++a) {float f; memcpy(&f,&g[a],4); CK(f==objs[active].v[a],"uniform-value",fmt("value %d seen by the shader is %g instead of %g",a,f,objs[active].v[a]));}
            c.stat("dispatches",1);
        }
        for(size_t a=0; a<objs.size(); ++a)
            CK(objs[a].s->isActive()==((int)a==active),"active-flag",fmt("after %s: isActive()=%d of shader %zu, the active one is %d",trace.c_str(),(int)objs[a].s->isActive(),a,active));
        const GLenum e = glGetError(); CK(e==GL_NO_ERROR,"gl-error",fmt("after %s: GL error 0x%x",trace.c_str(),e));
    }
    {
        GLShader fixed(true);
        CK(refuses([&]{fixed.addSource(good,GL_COMPUTE_SHADER);}),"shader-refusal","a source was added to the default pipeline");
        CK(fixed.link() && fixed.activate() && current()==0,"active-program","the default pipeline was not activated");
    }
    c.desc(trace);
    c.nontrivial(trace);
}

// what the pass-through draw shaders put on screen is the picture they were given
SCENARIO("render",40,400) {
    ctx();
    auto& r = c.rng;
    const cv::Size s((int)r.range(1,WINW/2),(int)r.range(1,WINH));
    const int kind = (int)r.below(8);
    const bool integral = r.chance(50), topleft = r.chance(50);
    static const char* names[] = {"ConstColor","PassedColor","TexSampler2D","TexelFetch","ImgLoad","SxSTexSampler2DArray","SxSImgArrayLoad","ConstArray"};
    c.desc(fmt("%s %dx%d integral %d top-left %d",names[kind],s.width,s.height,(int)integral,(int)topleft));
    cv::Mat img(s,CV_8UC4); cg::fill(img,r,0);
    cv::Mat img2(s,CV_8UC4); cg::fill(img2,r,0);
    const bool pair = kind==5 || kind==6;
    const cv::Size vp(pair?s.width*2:s.width,s.height);
    glViewport(0,0,vp.width,vp.height);
    glClearColor(0,0,0,0); glClear(GL_COLOR_BUFFER_BIT);
    const GLenum fi = integral?GL_RGBA8UI:GL_RGBA8;
    const glm::vec4 col((float)r.below(256)/255,(float)r.below(256)/255,(float)r.below(256)/255,(float)r.below(256)/255);
    auto draw = [&](const std::string& vs,const std::string& fs)->cv::Mat{
        cv::Mat got(vp,CV_8UC4,cv::Scalar::all(9));
        try {
            GLShader sh; sh.addSource(vs,GL_VERTEX_SHADER); sh.addSource(fs,GL_FRAGMENT_SHADER);
            CK(sh.link() && sh.activate(),"shader-build","link or activation refused");
            GLScreenBillboard b; b.render();
            glBindBuffer(GL_PIXEL_PACK_BUFFER,0); glPixelStorei(GL_PACK_ALIGNMENT,1);
            glReadPixels(0,0,vp.width,vp.height,GL_BGRA,GL_UNSIGNED_BYTE,got.data);
        } catch(const lv::Exception& e) {
            while(glGetError()!=GL_NO_ERROR);
            c.fail("shader-build",fmt("%s: the shader source handed out by the library does not build: %s",names[kind],[&]{const std::string m = e.what(); return m.substr(m.size()>500?m.size()-500:0);}().c_str()));
        }
        const GLenum e = glGetError(); CK(e==GL_NO_ERROR,"gl-error",fmt("%s: GL error 0x%x",names[kind],e));
        return got;
    };
    const std::string vsT = r.chance(50)?GLShader::getVertexShaderSource_PassThrough(false,false,true):GLShader::getVertexShaderSource_PassThrough_ConstArray(GLScreenBillboard::s_nVertexCount,GLScreenBillboard::s_aVertices,r.chance(50),r.chance(50),true);
    auto near_ = [&](const cv::Mat& got,const cv::Mat& want){ // got has its first row at the bottom
        cv::Mat g; cv::flip(got,g,0);
        for(int y=0; y<vp.height; ++y) for(int x=0; x<vp.width; ++x) for(int k=0; k<4; ++k) {
            const int a = g.at<cv::Vec4b>(y,x)[k], b = want.at<cv::Vec4b>(y,x)[k];
            CK(std::abs(a-b)<=1,"render",fmt("%s: pixel (%d,%d) channel %d shown as %d instead of %d",names[kind],x,y,k,a,b));
        }
    };
    auto constant = [&](const glm::vec4& v){return cv::Mat(vp,CV_8UC4,cv::Scalar(std::round(v[2]*255),std::round(v[1]*255),std::round(v[0]*255),std::round(v[3]*255)));};
    if(kind==0)
        near_(draw(GLShader::getVertexShaderSource_PassThrough(r.chance(50),r.chance(50),r.chance(50)),GLShader::getFragmentShaderSource_PassThrough_ConstColor(col)),constant(col));
    else if(kind==1) // the billboard is white
        near_(draw(GLShader::getVertexShaderSource_PassThrough(r.chance(50),true,r.chance(50)),GLShader::getFragmentShaderSource_PassThrough_PassedColor()),constant(glm::vec4(1)));
    else if(kind==7) {
        std::vector<GLVertex> v(GLScreenBillboard::s_aVertices,GLScreenBillboard::s_aVertices+GLScreenBillboard::s_nVertexCount);
        for(auto& q : v) q.vColor = col;
        near_(draw(GLShader::getVertexShaderSource_PassThrough_ConstArray((GLuint)v.size(),v.data(),r.chance(50),true,r.chance(50)),GLShader::getFragmentShaderSource_PassThrough_PassedColor()),constant(col));
    }
    else if(!pair) {
        GLTexture2D t(1,img,integral);
        const GLuint unit = (GLuint)r.below(4);
        if(kind==2) {
            t.bindToSampler(unit);
            near_(draw(vsT,GLShader::getFragmentShaderSource_PassThrough_TexSampler2D(unit,integral)),img);
        }
        else {
            cv::Mat want; if(topleft) want = img; else cv::flip(img,want,0);
            // the upper left corner is that of the drawing surface, not of the viewport
            if(topleft) glViewport(0,WINH-vp.height,vp.width,vp.height);
            if(kind==3) t.bindToSampler(unit); else t.bindToImage(unit,0,GL_READ_ONLY);
            cv::Mat got = draw(vsT,kind==3?GLShader::getFragmentShaderSource_PassThrough_TexelFetchSampler2D(topleft,unit,0,integral):GLShader::getFragmentShaderSource_PassThrough_ImgLoad(topleft,fi,unit,integral));
            if(topleft) glReadPixels(0,WINH-vp.height,vp.width,vp.height,GL_BGRA,GL_UNSIGNED_BYTE,got.data);
            near_(got,want);
        }
    }
    else {
        GLTexture2DArray t(1,std::vector<cv::Mat>{img,img2},integral);
        const GLuint unit = (GLuint)r.below(4);
        cv::Mat want; cv::hconcat(img,img2,want);
        if(kind==5) {
            t.bindToSamplerArray(unit);
            near_(draw(vsT,GLShader::getFragmentShaderSource_PassThrough_SxSTexSampler2DArray(unit,2,integral)),want);
        }
        else {
            if(!topleft) cv::flip(want,want,0);
            else glViewport(0,WINH-vp.height,vp.width,vp.height);
            t.bindToImageArray(unit,0,GL_READ_ONLY);
            cv::Mat got = draw(vsT,GLShader::getFragmentShaderSource_PassThrough_SxSImgArrayLoad(topleft,fi,unit,2,integral));
            if(topleft) glReadPixels(0,WINH-vp.height,vp.width,vp.height,GL_BGRA,GL_UNSIGNED_BYTE,got.data);
            near_(got,want);
        }
    }
    glViewport(0,0,WINW,WINH);
    c.nontrivial(c.desc_);
    c.stat("pixels_shown",vp.area());
}
VH_MAIN
