// Virtual PTZ camera: projection geometry, camera state, rendered views, playback and tracker evaluation.
// OpenGL, GLU, GLFW and GLEW are answered by the small software renderer below (one textured sphere seen from its
// centre), so that the real camera code runs here and the pictures it returns can be compared with the panorama.
#include "litiv/vptz/virtualptz.hpp"
#include "cvgen.hpp"
#include <opencv2/imgcodecs.hpp>
#include <unistd.h>
#include <sys/stat.h>
#include <memory>

// ------------------------------------------------------------------------------------------------ software GL
namespace sgl {
    struct M4 {double m[16]; M4() {for(int i=0; i<16; ++i) m[i]=(i%5)?0.0:1.0;}}; // column major
    M4 mul(const M4& a, const M4& b) {M4 r; for(int c=0; c<4; ++c) for(int q=0; q<4; ++q) {double s=0; for(int k=0; k<4; ++k) s+=a.m[k*4+q]*b.m[c*4+k]; r.m[c*4+q]=s;} return r;}
    M4 rot(double deg, double x, double y, double z) {
        const double n=std::sqrt(x*x+y*y+z*z); x/=n; y/=n; z/=n; const double a=deg*M_PI/180, c=std::cos(a), s=std::sin(a); M4 r;
        r.m[0]=x*x*(1-c)+c; r.m[4]=x*y*(1-c)-z*s; r.m[8]=x*z*(1-c)+y*s;
        r.m[1]=y*x*(1-c)+z*s; r.m[5]=y*y*(1-c)+c; r.m[9]=y*z*(1-c)-x*s;
        r.m[2]=x*z*(1-c)-y*s; r.m[6]=y*z*(1-c)+x*s; r.m[10]=z*z*(1-c)+c; return r;
    }
    struct Tex {int w=0,h=0; std::vector<unsigned char> px;};
    struct Ctx {
        int w,h; std::vector<M4> mv{M4()}, pr{M4()}; GLenum mode=GL_MODELVIEW; std::map<GLuint,Tex> tex; GLuint bound=0, next=1; bool tex2d=false;
        bool drawn=false; M4 dmv,dpr; Tex dtex; // last sphere
        int persp=0;
    };
    Ctx* cur=nullptr; std::set<Ctx*> live; long orphan=0, badDelete=0, quadrics=0, reads=0, uploads=0;
    std::vector<M4>& st() {return cur->mode==GL_PROJECTION?cur->pr:cur->mv;}
    void ap(const M4& m) {if(!cur) {++orphan; return;} st().back()=mul(st().back(),m);}
}
extern "C" {
GLboolean glewExperimental = 0;
GLenum glewInit(void) {return GLEW_OK;}
const GLubyte* glewGetErrorString(GLenum) {return (const GLubyte*)"";}
GLboolean glewIsSupported(const char*) {return GL_TRUE;}
int glfwInit(void) {return 1;}
void glfwTerminate(void) {}
void glfwWindowHint(int,int) {}
GLFWwindow* glfwCreateWindow(int w, int h, const char*, GLFWmonitor*, GLFWwindow*) {auto* c=new sgl::Ctx; c->w=w; c->h=h; sgl::live.insert(c); return (GLFWwindow*)c;}
void glfwDestroyWindow(GLFWwindow* p) {auto* c=(sgl::Ctx*)p; if(sgl::cur==c) sgl::cur=nullptr; sgl::live.erase(c); delete c;}
void glfwMakeContextCurrent(GLFWwindow* p) {sgl::cur=(sgl::Ctx*)p;}
GLFWwindow* glfwGetCurrentContext(void) {return (GLFWwindow*)sgl::cur;}
GLenum glGetError(void) {return GL_NO_ERROR;}
const GLubyte* gluErrorString(GLenum) {return (const GLubyte*)"";}
void glMatrixMode(GLenum m) {if(sgl::cur) sgl::cur->mode=m; else ++sgl::orphan;}
void glLoadIdentity(void) {if(sgl::cur) sgl::st().back()=sgl::M4(); else ++sgl::orphan;}
void glPushMatrix(void) {if(sgl::cur) sgl::st().push_back(sgl::st().back());}
void glPopMatrix(void) {if(sgl::cur && sgl::st().size()>1) sgl::st().pop_back();}
void glRotatef(GLfloat a, GLfloat x, GLfloat y, GLfloat z) {sgl::ap(sgl::rot(a,x,y,z));}
void glRotated(GLdouble a, GLdouble x, GLdouble y, GLdouble z) {sgl::ap(sgl::rot(a,x,y,z));}
void glScalef(GLfloat x, GLfloat y, GLfloat z) {sgl::M4 m; m.m[0]=x; m.m[5]=y; m.m[10]=z; sgl::ap(m);}
void glScaled(GLdouble x, GLdouble y, GLdouble z) {sgl::M4 m; m.m[0]=x; m.m[5]=y; m.m[10]=z; sgl::ap(m);}
void glMultMatrixd(const GLdouble* p) {sgl::M4 m; std::copy(p,p+16,m.m); sgl::ap(m);}
void glMultMatrixf(const GLfloat* p) {sgl::M4 m; std::copy(p,p+16,m.m); sgl::ap(m);}
void glLoadMatrixd(const GLdouble* p) {if(sgl::cur) std::copy(p,p+16,sgl::st().back().m);}
void gluPerspective(GLdouble fov, GLdouble asp, GLdouble zn, GLdouble zf) {
    sgl::M4 m; const double f=1/std::tan(fov*M_PI/360); m.m[0]=f/asp; m.m[5]=f; m.m[10]=(zf+zn)/(zn-zf); m.m[11]=-1; m.m[14]=2*zf*zn/(zn-zf); m.m[15]=0; sgl::ap(m); if(sgl::cur) ++sgl::cur->persp;
}
void glEnable(GLenum e) {if(sgl::cur && e==GL_TEXTURE_2D) sgl::cur->tex2d=true;}
void glDisable(GLenum e) {if(sgl::cur && e==GL_TEXTURE_2D) sgl::cur->tex2d=false;}
void glTexEnvf(GLenum,GLenum,GLfloat) {}
void glTexEnvi(GLenum,GLenum,GLint) {}
void glTexParameteri(GLenum,GLenum,GLint) {}
void glPixelStorei(GLenum,GLint) {}
void glViewport(GLint,GLint,GLsizei,GLsizei) {}
void glClear(GLbitfield) {}
void glClearColor(GLfloat,GLfloat,GLfloat,GLfloat) {}
void glFlush(void) {}
void glFinish(void) {}
void glGenTextures(GLsizei n, GLuint* p) {for(int i=0; i<n; ++i) {if(!sgl::cur) {++sgl::orphan; p[i]=0;} else {p[i]=sgl::cur->next++; sgl::cur->tex[p[i]];}}}
void glBindTexture(GLenum, GLuint t) {if(sgl::cur) sgl::cur->bound=t; else ++sgl::orphan;}
void glDeleteTextures(GLsizei n, const GLuint* p) {for(int i=0; i<n; ++i) {if(!sgl::cur) {++sgl::orphan; continue;} if(!sgl::cur->tex.erase(p[i])) ++sgl::badDelete; else if(sgl::cur->bound==p[i]) sgl::cur->bound=0;}}
void glTexImage2D(GLenum, GLint, GLint, GLsizei w, GLsizei h, GLint, GLenum fmt, GLenum, const GLvoid* data) {
    if(!sgl::cur) {++sgl::orphan; return;}
    const int ch = (fmt==GL_BGRA||fmt==GL_RGBA)?4:3; auto& t=sgl::cur->tex[sgl::cur->bound]; t.w=w; t.h=h; t.px.resize((size_t)w*h*4); ++sgl::uploads;
    const unsigned char* s=(const unsigned char*)data; // every byte the real call would read is read (and watched by the memory-error detector)
    for(size_t i=0; i<(size_t)w*h; ++i) {for(int k=0; k<ch; ++k) t.px[i*4+k]=s[i*ch+k]; if(ch==3) t.px[i*4+3]=255; if(fmt==GL_RGBA||fmt==GL_RGB) std::swap(t.px[i*4],t.px[i*4+2]);}
}
GLUquadric* gluNewQuadric(void) {++sgl::quadrics; return (GLUquadric*)new int(1);}
void gluDeleteQuadric(GLUquadric* q) {--sgl::quadrics; delete (int*)q;}
void gluQuadricDrawStyle(GLUquadric*,GLenum) {}
void gluQuadricOrientation(GLUquadric*,GLenum) {}
void gluQuadricTexture(GLUquadric*,GLboolean) {}
void gluQuadricNormals(GLUquadric*,GLenum) {}
void gluSphere(GLUquadric*, GLdouble, GLint, GLint) {
    if(!sgl::cur) {++sgl::orphan; return;}
    auto& c=*sgl::cur; c.drawn=true; c.dmv=c.mv.back(); c.dpr=c.pr.back(); c.dtex=c.tex2d&&c.tex.count(c.bound)?c.tex[c.bound]:sgl::Tex();
}
void glReadPixels(GLint x0, GLint y0, GLsizei w, GLsizei h, GLenum fmt, GLenum, GLvoid* out) {
    if(!sgl::cur) {++sgl::orphan; return;}
    auto& c=*sgl::cur; unsigned char* o=(unsigned char*)out; ++sgl::reads;
    const double fx=c.dpr.m[0], fy=c.dpr.m[5];
    const cv::Matx33d A(c.dmv.m[0],c.dmv.m[4],c.dmv.m[8],c.dmv.m[1],c.dmv.m[5],c.dmv.m[9],c.dmv.m[2],c.dmv.m[6],c.dmv.m[10]);
    const cv::Matx33d inv=A.inv();
    for(int y=0; y<h; ++y) for(int x=0; x<w; ++x) {
        unsigned char* p=o+((size_t)y*w+x)*4; p[0]=p[1]=p[2]=0; p[3]=255;
        if(!c.drawn || c.dtex.w<1 || c.dtex.h<1) continue;
        const cv::Vec3d cam(((x0+x+0.5)/c.w*2-1)/fx,((y0+y+0.5)/c.h*2-1)/fy,-1.0);
        cv::Vec3d d=inv*cam; d*=1/cv::norm(d);
        // as libGLU generates them (checked against the installed library): s runs from +y over -x, t from -z to +z
        double s=1-std::atan2(d[0],d[1])/(2*M_PI), t=1-std::acos(std::max(-1.0,std::min(1.0,d[2])))/M_PI; s-=std::floor(s);
        const int i=std::min(c.dtex.w-1,(int)(s*c.dtex.w)), j=std::min(c.dtex.h-1,(int)(t*c.dtex.h));
        const unsigned char* q=&c.dtex.px[((size_t)j*c.dtex.w+i)*4]; for(int k=0; k<4; ++k) p[k]=q[k];
        if(fmt==GL_RGBA) std::swap(p[0],p[2]);
    }
}
}
// ------------------------------------------------------------------------------------------------ independent geometry
typedef long double LD;
struct V3 {LD x,y,z;};
static const LD PI_=acosl(-1.0L);
static LD rad(LD d) {return d*PI_/180;}
static LD dot(const V3& a, const V3& b) {return a.x*b.x+a.y*b.y+a.z*b.z;}
static V3 dirOf(LD h, LD v) {return V3{sinl(rad(v))*cosl(rad(h)),sinl(rad(v))*sinl(rad(h)),cosl(rad(v))};}
// camera axes when looking at (h,v): the vertical axis of the world stays vertical in the picture
struct Axes {V3 f,r,u;};
static Axes axesOf(LD h, LD v) {Axes a; a.f=dirOf(h,v); a.r=V3{sinl(rad(h)),-cosl(rad(h)),0}; a.u=V3{-cosl(rad(v))*cosl(rad(h)),-cosl(rad(v))*sinl(rad(h)),sinl(rad(v))}; return a;}
static V3 unit(V3 a) {const LD n=sqrtl(dot(a,a)); return V3{a.x/n,a.y/n,a.z/n};}
static LD angleDeg(const V3& a, const V3& b) { // accurate for small angles
    const V3 c{a.y*b.z-a.z*b.y,a.z*b.x-a.x*b.z,a.x*b.y-a.y*b.x}; return atan2l(sqrtl(dot(c,c)),dot(a,b))*180/PI_;
}
struct View {int w,h; double fov,H,V; std::string str() const {return vh::str(w,"x",h," fov ",fov," at (",H,",",V,")");}};
static V3 rayOf(const View& q, LD x, LD y) {
    const Axes a=axesOf(q.H,q.V); const LD fl=q.h/2.0L/tanl(rad(q.fov)/2), cx=x-q.w/2.0L, cy=-(y-q.h/2.0L);
    return unit(V3{a.f.x*fl+a.r.x*cx+a.u.x*cy,a.f.y*fl+a.r.y*cx+a.u.y*cy,a.f.z*fl+a.r.z*cx+a.u.z*cy});
}
// picture position of a direction; false when it is behind (or beside) the camera
static bool projOf(const View& q, const V3& d, LD& x, LD& y) {
    const Axes a=axesOf(q.H,q.V); const LD z=dot(d,a.f); if(z<=0) return false;
    const LD fl=q.h/2.0L/tanl(rad(q.fov)/2); x=q.w/2.0L+dot(d,a.r)/z*fl; y=q.h/2.0L-dot(d,a.u)/z*fl; return true;
}
namespace {
    struct Quiet {Quiet() {std::cerr.rdbuf(nullptr);}} g_quiet; // exceptions of this library describe themselves on stderr
    template<typename F> bool refused(F f) {try {f(); return false;} catch(const lv::Exception&) {return true;}}
    double hAngle(vh::Rng& r) {switch(r.below(8)) {case 0: return 180.0; case 1: return 0.0; case 2: return (r.chance(0.5)?1:-1)*90.0; case 3: return -180.0+r.real(1e-9,1e-3); case 4: return 180.0-r.real(0,1e-3); case 5: return (double)r.range(-179,180); default: return r.real(-179.999,180.0);}}
    double vAngle(vh::Rng& r) {switch(r.below(8)) {case 0: return 90.0; case 1: return 0.0; case 2: return 180.0; case 3: return (double)r.range(0,180); default: return r.real(0.0,180.0);}}
    double fovOf(vh::Rng& r) {switch(r.below(6)) {case 0: return 90.0; case 1: return r.real(0.5,5); case 2: return r.real(150,179); default: return r.real(5,150);}}
    View viewOf(vh::Rng& r) {View q; q.w=r.chance(0.3)?r.range(1,8):r.range(8,1280); q.h=r.chance(0.3)?r.range(1,8):r.range(8,960); if(r.chance(0.2)) {q.w=640; q.h=480;} q.fov=fovOf(r); q.H=hAngle(r); q.V=vAngle(r); return q;}
    double badH(vh::Rng& r) {switch(r.below(4)) {case 0: return -180.0; case 1: return 180.0+r.real(1e-6,400); case 2: return -180.0-r.real(0,400); default: return r.chance(0.5)?1e9:-1e9;}}
    double badV(vh::Rng& r) {switch(r.below(3)) {case 0: return -r.real(1e-9,300); case 1: return 180.0+r.real(1e-6,300); default: return -1e9;}}
    double badFov(vh::Rng& r) {switch(r.below(4)) {case 0: return 0.0; case 1: return 180.0; case 2: return -r.real(0,300); default: return 180.0+r.real(0,300);}}
    LD wrapDiff(LD a, LD b) {LD d=fmodl(a-b,360); if(d>180) d-=360; if(d<=-180) d+=360; return d;}
}

// picture position -> angles, and back
SCENARIO("angles-of-pixels",8000,120000) {
    auto& r=c.rng; const View q=viewOf(r);
    const int x=r.chance(0.2)?(r.chance(0.5)?0:q.w-1):r.chance(0.2)?q.w/2:(int)r.below(q.w), y=r.chance(0.2)?(r.chance(0.5)?0:q.h-1):r.chance(0.2)?q.h/2:(int)r.below(q.h);
    c.desc(vh::str(q.str()," pixel ",x,",",y));
    double H=1e9,V=1e9; vptz::PTZPointXYtoHV(x,y,H,V,q.w,q.h,q.fov,q.H,q.V);
    c.ck(H>-180.0 && H<=180.0 && V>=0.0 && V<=180.0,"angle-range",vh::str("angles ",H,",",V," of the pixel are outside (-180,180]x[0,180]"));
    const V3 e=rayOf(q,x,y), g=dirOf(H,V); const LD err=angleDeg(e,g);
    c.ck(err<1e-5L,"angle-value",vh::str("angles ",H,",",V," are ",(double)err," degrees off the direction of the pixel"));
    cv::Point2d hv(1e9,1e9); vptz::PTZPointXYtoHV(cv::Point2i(x,y),hv,q.w,q.h,q.fov,q.H,q.V);
    c.ck(hv.x==H && hv.y==V,"overload","the point overload gives other angles");
    if(H>-180.0 && H<=180.0 && V>=0.0 && V<=180.0) {
        int bx=-7777,by=-7777; const bool ok=vptz::PTZPointHVtoXY(H,V,bx,by,q.w,q.h,q.fov,q.H,q.V);
        c.ck(ok,"round-trip-visible","a direction taken from the picture is reported out of sight");
        // the position is only as accurate as an angle in degrees is representable (very wide views compress it)
        if(ok) c.ck(bx==x && by==y,"round-trip",vh::str("pixel comes back as ",bx,",",by));
    }
    c.nontrivial(vh::mix(vh::mix(vh::hbytes(&q.fov,8),vh::hbytes(&q.H,8)),(uint64_t)x*4096+y)); c.stat("round-trips",1);
}

// angles -> picture position (in or out of the picture), refusal behind the camera
SCENARIO("pixels-of-angles",8000,120000) {
    auto& r=c.rng; const View q=viewOf(r);
    double H=hAngle(r),V=vAngle(r);
    if(r.chance(0.5)) { // close to the view direction, to the picture border or to the limit of the half space
        const V3 t=r.chance(0.7)?rayOf(q,r.real(-1.2*q.w,2.2*q.w),r.real(-1.2*q.h,2.2*q.h)):V3{0,0,0};
        if(dot(t,t)>0.5L) {H=(double)(atan2l(t.y,t.x)*180/PI_); V=(double)(acosl(t.z)*180/PI_); if(H<=-180) H=180;}
        else {H=(double)wrapDiff(q.H+(r.chance(0.5)?90:-90)+(r.chance(0.5)?0.0:r.real(-1e-6,1e-6)),0); if(H<=-180) H=180;}
    }
    c.desc(vh::str(q.str()," target ",H,",",V));
    int x=-7777,y=-7777; const bool ok=vptz::PTZPointHVtoXY(H,V,x,y,q.w,q.h,q.fov,q.H,q.V);
    const V3 d=dirOf(H,V); const LD ang=angleDeg(d,axesOf(q.H,q.V).f);
    LD ex=0,ey=0; const bool front=projOf(q,d,ex,ey);
    const bool huge = !front || fabsl(ex)>1e9L || fabsl(ey)>1e9L;
    if(ang>90.000001L) c.ck(!ok,"behind-accepted",vh::str("a target ",(double)ang," degrees away from the view direction is reported visible at ",x,",",y));
    else if(ang<89.9999L && !huge) c.ck(ok,"front-refused",vh::str("a target ",(double)ang," degrees away from the view direction is reported out of sight"));
    if(!ok) c.ck(x==INT_MAX && y==INT_MAX,"out-of-sight-mark","an invisible target leaves other coordinates than the documented ones");
    else if(ang<89.9999L && !huge) {
        const LD tx=0.5L+1e-7L*(1+fabsl(ex))/cosl(rad(ang)), ty=0.5L+1e-7L*(1+fabsl(ey))/cosl(rad(ang));
        c.ck(fabsl(x-ex)<=tx && fabsl(y-ey)<=ty,"position",vh::str("position ",x,",",y," is not the nearest pixel of ",(double)ex,",",(double)ey));
        c.stat(ex<-0.5L||ey<-0.5L?"projected.negative":ex>q.w||ey>q.h?"projected.beyond":"projected.inside",1);
    }
    else c.ck(false==ok || ang<=90.000001L,"edge",""); 
    cv::Point2i xy(-7777,-7777); const bool ok2=vptz::PTZPointHVtoXY(cv::Point2d(H,V),xy,q.w,q.h,q.fov,q.H,q.V);
    c.ck(ok2==ok && xy.x==x && xy.y==y,"overload","the point overload gives another position");
    c.nontrivial(vh::mix(vh::mix(vh::hbytes(&H,8),vh::hbytes(&V,8)),vh::hbytes(&q.fov,8))); if(!ok) c.stat("out-of-sight",1);
}

SCENARIO("refusals",1500,15000) {
    auto& r=c.rng; View q=viewOf(r); double H=hAngle(r),V=vAngle(r); int x=r.below(q.w),y=r.below(q.h); double oh,ov; int ox,oy; std::string what;
    auto xyhv=[&]{oh=5.25; ov=6.25; return refused([&]{vptz::PTZPointXYtoHV(x,y,oh,ov,q.w,q.h,q.fov,q.H,q.V);}) && oh==5.25 && ov==6.25;};
    auto hvxy=[&]{ox=11; oy=12; return refused([&]{vptz::PTZPointHVtoXY(H,V,ox,oy,q.w,q.h,q.fov,q.H,q.V);}) && ox==11 && oy==12;};
    const int k=r.below(10); bool both=true, ok=true;
    switch(k) {
        case 0: q.w=-r.range(0,5); what="width"; break;
        case 1: q.h=-r.range(0,5); what="height"; break;
        case 2: q.fov=badFov(r); what="field of view"; break;
        case 3: q.H=badH(r); what="camera pan"; break;
        case 4: q.V=badV(r); what="camera tilt"; break;
        case 5: x=r.chance(0.5)?-r.range(1,9):q.w+r.range(0,9); both=false; ok=xyhv(); what="column"; break;
        case 6: y=r.chance(0.5)?-r.range(1,9):q.h+r.range(0,9); both=false; ok=xyhv(); what="row"; break;
        case 7: H=badH(r); both=false; ok=hvxy(); what="target pan"; break;
        case 8: V=badV(r); both=false; ok=hvxy(); what="target tilt"; break;
        default: both=false; ok=!refused([&]{vptz::PTZPointXYtoHV(x,y,oh,ov,q.w,q.h,q.fov,q.H,q.V); vptz::PTZPointHVtoXY(H,V,ox,oy,q.w,q.h,q.fov,q.H,q.V);}); what="nothing invalid"; break;
    }
    c.desc(vh::str(what," ",q.str()," pixel ",x,",",y," target ",H,",",V));
    if(both) ok=xyhv()&&hvxy();
    c.ck(ok,"refusal",k==9?"valid parameters were refused":"an invalid parameter was accepted (or results were written before the refusal)");
    c.nontrivial(vh::str(what,q.str(),x,y,H,V));
}

// ground truth translation without a camera
SCENARIO("translator",4000,50000) {
    auto& r=c.rng; View cur=viewOf(r), bgt=viewOf(r); bgt.w=std::max(bgt.w,4); bgt.h=std::max(bgt.h,4);
    if(r.chance(0.5)) {bgt.w=640; bgt.h=480; bgt.fov=90;}
    std::string d=vh::str("view ",cur.str()," ground truth ",bgt.w,"x",bgt.h," fov ",bgt.fov);
    if(r.chance(0.3)) {
        // invalid construction, on memory that held a valid (or an invalid) translator before
        alignas(16) unsigned char mem[sizeof(vptz::GTTranslator)];
        auto* old=new(mem) vptz::GTTranslator(); old->~GTTranslator();
        View v=cur, b=bgt; const int k=r.below(8); switch(k) {case 0: v.H=badH(r); break; case 1: v.V=badV(r); break; case 2: v.fov=badFov(r); break; case 3: v.w=-r.range(0,3); break; case 4: v.h=-r.range(0,3); break; case 5: b.w=-r.range(0,3); break; case 6: b.h=-r.range(0,3); break; default: b.fov=badFov(r);}
        c.desc(vh::str("construction with invalid value #",k," ",v.str()," / ",b.w,"x",b.h," fov ",b.fov));
        bool thrown=refused([&]{auto* t=new(mem) vptz::GTTranslator(v.w,v.h,v.fov,v.H,v.V,b.w,b.h,b.fov); t->~GTTranslator();});
        c.ck(thrown,"invalid-construction","a translator was built from an invalid value");
    }
    c.desc(d);
    // memory left by something else: the outcome may only depend on the arguments
    alignas(16) unsigned char mem[sizeof(vptz::GTTranslator)]; const int junk=r.below(3); std::memset(mem,junk==0?0:junk==1?0x7f:0xff,sizeof(mem));
    vptz::GTTranslator* pt=nullptr; const bool thrown=refused([&]{pt=new(mem) vptz::GTTranslator(cur.w,cur.h,cur.fov,cur.H,cur.V,bgt.w,bgt.h,bgt.fov);});
    c.ck(!thrown,"valid-construction","a translator was refused although every value is valid"); if(thrown) return;
    vptz::GTTranslator& t=*pt; const int n=r.range(1,5);
    for(int i=0; i<n; ++i) {
        if(r.chance(0.4)) {
            if(r.chance(0.4)) {
                const bool h=r.chance(0.5); const double bh=h?badH(r):hAngle(r), bv=h?vAngle(r):badV(r); d+=vh::str(" !(",bh,",",bv,")");
                c.desc(d); c.ck(refused([&]{t.UpdateViewAngle(bh,bv);}),"invalid-update",vh::str("view angles ",bh,",",bv," were accepted"));
            } else {
                const double nh=hAngle(r), nv=vAngle(r); d+=vh::str(" ->(",nh,",",nv,")"); c.desc(d);
                const bool th=refused([&]{t.UpdateViewAngle(nh,nv);}); c.ck(!th,"valid-update",vh::str("view angles ",nh,",",nv," were refused")); cur.H=nh; cur.V=nv;
            }
        }
        double H=hAngle(r),V=vAngle(r); if(r.chance(0.6)) {const V3 q=rayOf(cur,r.real(0,cur.w),r.real(0,cur.h)); H=(double)(atan2l(q.y,q.x)*180/PI_); V=(double)(acosl(q.z)*180/PI_); if(H<=-180) H=180;}
        d+=vh::str(" target(",H,",",V,")"); c.desc(d);
        cv::Point p(-1,-1); const bool vis=t.GetGTTargetPoint(H,V,p);
        int ex,ey; const bool evis=vptz::PTZPointHVtoXY(H,V,ex,ey,cur.w,cur.h,cur.fov,cur.H,cur.V);
        c.ck(vis==evis && p.x==ex && p.y==ey,"target-point",vh::str("target point ",p.x,",",p.y," instead of ",ex,",",ey));
        // bounding box: corners of the ground truth picture carried over to the current picture, then averaged per side
        const int bw=r.chance(0.15)?bgt.w:r.chance(0.1)?0:r.range(0,bgt.w), bh=r.chance(0.15)?bgt.h:r.chance(0.1)?0:r.range(0,bgt.h);
        d+=vh::str(" box ",bw,"x",bh); c.desc(d);
        View gv=bgt; gv.H=H; gv.V=V; const int lx=(bgt.w-bw)/2, rx=(bgt.w+bw)/2, ty=(bgt.h-bh)/2, by=(bgt.h+bh)/2;
        const int cx[4]={lx,lx,rx,rx}, cy[4]={ty,by,ty,by}; LD X[4],Y[4]; bool sure=true, allFront=true; LD worst=0;
        for(int k=0; k<4; ++k) {const V3 q=rayOf(gv,cx[k],cy[k]); const LD a=angleDeg(q,axesOf(cur.H,cur.V).f); worst=std::max(worst,a); if(fabsl(a-90)<0.01L) sure=false; const bool f=projOf(cur,q,X[k],Y[k]); allFront&=f; if(f && (fabsl(X[k])>1e8L||fabsl(Y[k])>1e8L)) sure=false;}
        cv::Rect b(-5,-5,1,1); bool res=false; const bool thr=refused([&]{res=t.GetGTBoundingBox(H,V,bw,bh,b);});
        c.ck(!thr,"box-refused",vh::str("a ",bw,"x",bh," box of a ",bgt.w,"x",bgt.h," ground truth was refused"));
        if(!thr && sure) {
            c.ck(res==allFront,"box-visible",vh::str("box visibility is ",res," although the farthest corner is ",(double)worst," degrees away"));
            if(res && allFront) {
                const LD l=(X[0]+X[1])/2, rr=(X[2]+X[3])/2, tt=(Y[0]+Y[2])/2, bb=(Y[1]+Y[3])/2; // cv::Rect orders its corners
                const LD el=std::min(l,rr), et=std::min(tt,bb), er=std::max(l,rr), eb=std::max(tt,bb); const LD tol=1.6L+1e-6L*(fabsl(el)+fabsl(er)+fabsl(et)+fabsl(eb))/std::max((LD)1e-3L,cosl(rad(worst)));
                c.ck(fabsl(b.x-el)<=tol && fabsl(b.y-et)<=tol && fabsl(b.x+b.width-er)<=tol && fabsl(b.y+b.height-eb)<=tol,"box",vh::str("box ",b.x,",",b.y," ",b.width,"x",b.height," instead of ",(double)el,",",(double)et," to ",(double)er,",",(double)eb));
                c.stat("boxes",1);
            }
        }
        // invalid requests
        if(r.chance(0.3)) {
            const int k=r.below(4); double qh=H,qv=V; int qw=bw,qq=bh; if(k==0) qh=badH(r); else if(k==1) qv=badV(r); else if(k==2) qw=r.chance(0.5)?-r.range(1,5):bgt.w+r.range(1,5); else qq=r.chance(0.5)?-r.range(1,5):bgt.h+r.range(1,5);
            cv::Rect b2; c.ck(refused([&]{t.GetGTBoundingBox(qh,qv,qw,qq,b2);}),"invalid-box",vh::str("box ",qw,"x",qq," at ",qh,",",qv," was accepted"));
            if(k<2) {cv::Point p2; c.ck(refused([&]{t.GetGTTargetPoint(qh,qv,p2);}),"invalid-target",vh::str("target ",qh,",",qv," was accepted"));}
        }
    }
    t.~GTTranslator(); c.nontrivial(d);
}

// ------------------------------------------------------------------------------------------------ camera
namespace {
    const int PW=240, PH=120; // panorama: blue = column, green = row, red = tag
    cv::Mat pano(int tag, int ch=3) {cv::Mat m(PH,PW,CV_8UC3); for(int y=0; y<PH; ++y) for(int x=0; x<PW; ++x) m.at<cv::Vec3b>(y,x)=cv::Vec3b((uchar)x,(uchar)y,(uchar)tag); if(ch==4) {cv::Mat q; cv::cvtColor(m,q,cv::COLOR_BGR2BGRA); return q;} return m;}
    // a picture shows the panorama: pixel by pixel, the panorama cell seen there lies in the direction of the pixel
    bool seesPano(const cv::Mat& f, const View& q, int tag, std::string& why, vh::Rng& r, int samples=60) {
        if(f.type()!=CV_8UC4 || f.cols!=q.w || f.rows!=q.h) {why=vh::str("picture is ",f.cols,"x",f.rows," type ",f.type()); return false;}
        for(int k=0; k<samples; ++k) {
            const int x=k==0?q.w/2:r.below(q.w), y=k==0?q.h/2:r.below(q.h); const cv::Vec4b p=f.at<cv::Vec4b>(y,x);
            if(p[2]!=tag) {why=vh::str("pixel ",x,",",y," shows panorama #",(int)p[2]," instead of #",tag); return false;}
            const V3 e=rayOf(q,x+0.5L,y+0.5L), g=dirOf(180-360.0L*(p[0]+0.5L)/PW,180.0L*(p[1]+0.5L)/PH);
            const LD cell=1.1L, px=std::max(angleDeg(e,rayOf(q,x+1.0L,y+1.0L)),angleDeg(e,rayOf(q,x,y)));
            const LD err=angleDeg(e,g); if(err>cell+px) {why=vh::str("pixel ",x,",",y," shows panorama cell ",(int)p[0],",",(int)p[1],", ",(double)err," degrees off"); return false;}
        }
        return true;
    }
    std::string panoFile(vh::Case& c, int tag) {const std::string p=vh::str(c.workdir(),"/pano",tag,".png"); struct stat s; if(stat(p.c_str(),&s)) cv::imwrite(p,pano(tag)); return p;}
    // an image sequence of n panoramas tagged by their position
    std::string panoSeq(vh::Case& c, int n) {
        const std::string dir=vh::str(c.workdir(),"/seq",n); struct stat s;
        if(stat(dir.c_str(),&s)) {mkdir(dir.c_str(),0755); for(int i=0; i<n; ++i) cv::imwrite(cv::format("%s/f%04d.png",dir.c_str(),i),pano(i+1)); cv::FileStorage fs(dir+"/metadata.yml",cv::FileStorage::WRITE); fs << "nFrameCount" << n;}
        return dir+"/f%04d.png";
    }
    struct Model {View v; double hs,vs,comm,ratio,dh=0,dv=0; int tag; double rate; int pos;};
}

SCENARIO("camera",300,4000) {
    using namespace vptz; auto& r=c.rng; sgl::orphan=sgl::badDelete=0;
    struct Cam {std::unique_ptr<Camera> p; Model m;}; std::vector<Cam> cams; std::string d;
    auto open=[&]{
        Cam k; k.m.v.w=r.range(8,64); k.m.v.h=r.range(8,64); k.m.v.fov=r.real(10,140); k.m.v.H=hAngle(r); k.m.v.V=vAngle(r); k.m.hs=r.real(1,500); k.m.vs=r.real(1,500); k.m.comm=r.real(0,2); k.m.ratio=1; k.m.tag=r.range(1,6); k.m.pos=0;
        d+=vh::str(" open[",k.m.v.str(),"]"); c.desc(d);
        k.p.reset(new Camera(panoFile(c,k.m.tag),k.m.v.fov,k.m.v.w,k.m.v.h,k.m.v.H,k.m.v.V,k.m.hs,k.m.vs,k.m.comm)); cams.push_back(std::move(k));
    };
    open(); const int n=r.range(6,20); std::string why; uint64_t h=0;
    for(int i=0; i<n; ++i) {
        if(cams.empty() || (cams.size()<3 && r.chance(0.12))) {open(); continue;}
        Cam& k=cams[r.below(cams.size())]; Camera& cam=*k.p; Model& m=k.m; const int op=r.below(14);
        switch(op) {
            case 0: case 1: case 2: {
                d+=vh::str(" frame#",&k-&cams[0]); c.desc(d); const cv::Mat f=cam.GetFrame().clone();
                c.ck(seesPano(f,m.v,m.tag,why,r),"view",vh::str("view ",m.v.str(),": ",why)); c.ck(cam.Get(PTZ_CAM_GET_FRAME_OVERHEAD)>=0,"overhead","negative frame overhead");
                h=vh::mix(h,vh::hbytes(f.data,f.total()*4)); c.stat("views",1);
            } break;
            case 3: case 4: {
                const int x=r.below(m.v.w), y=r.below(m.v.h); d+=vh::str(" goto#",&k-&cams[0],"(",x,",",y,")"); c.desc(d);
                const V3 e=rayOf(m.v,x,y); const double oh=m.v.H, ov=m.v.V; if(r.chance(0.5)) cam.GoToPosition(x,y); else cam.GoToPosition(cv::Point(x,y));
                const double gh=cam.Get(PTZ_CAM_HORI_ANGLE), gv=cam.Get(PTZ_CAM_VERTI_ANGLE);
                c.ck(gh>-180.0 && gh<=180.0 && gv>=0 && gv<=180,"goto-range",vh::str("camera angles are ",gh,",",gv)); c.ck(angleDeg(dirOf(gh,gv),e)<1e-5L,"goto",vh::str("camera went to ",gh,",",gv," which is not the requested pixel"));
                m.v.H=gh; m.v.V=gv; m.dh=(double)wrapDiff(gh,oh); m.dv=gv-ov;
            } break;
            case 5: {
                const int x=r.chance(0.5)?-r.range(1,4):m.v.w+r.range(0,4), y=r.below(m.v.h); d+=vh::str(" badgoto#",&k-&cams[0],"(",x,",",y,")"); c.desc(d); c.ck(refused([&]{cam.GoToPosition(x,y);}),"bad-goto","a position out of the picture was accepted");
            } break;
            case 6: {
                double v=r.chance(0.4)?hAngle(r):r.chance(0.5)?180.0*r.range(-9,9):r.real(-2000,2000); d+=vh::str(" pan#",&k-&cams[0],"=",v); c.desc(d); const double o=m.v.H; cam.Set(PTZ_CAM_HORI_ANGLE,v);
                const double g=cam.Get(PTZ_CAM_HORI_ANGLE); c.ck(g>-180.0 && g<=180.0 && fabsl(wrapDiff(g,v))<1e-9L*(1+std::abs(v)),"pan",vh::str("pan ",v," became ",g)); m.v.H=g; m.dh=(double)wrapDiff(g,o); if(!(g>-180.0 && g<=180.0)) return;
            } break;
            case 7: {const double v=vAngle(r); d+=vh::str(" tilt#",&k-&cams[0],"=",v); c.desc(d); m.dv=v-m.v.V; cam.Set(PTZ_CAM_VERTI_ANGLE,v); m.v.V=v;} break;
            case 8: {const double v=r.real(10,140); d+=vh::str(" fov#",&k-&cams[0],"=",v); c.desc(d); cam.Set(PTZ_CAM_VERTI_FOV,v); m.v.fov=v;} break;
            case 9: {const double v=r.real(0.1,400); if(r.chance(0.5)) {cam.Set(PTZ_CAM_HORI_SPEED,v); m.hs=v;} else {cam.Set(PTZ_CAM_VERTI_SPEED,v); m.vs=v;} const double w=r.chance(0.3)?0:r.real(0,3); if(r.chance(0.5)) {cam.Set(PTZ_CAM_COMMUNICATION_DELAY,w); m.comm=w;} else {cam.Set(PTZ_CAM_EXECUTION_DELAY_RATIO,w); m.ratio=w;} d+=" rates";} break;
            case 10: {
                struct B {CameraPropertyFlag f; double v;}; const double nan=std::nan(""), inf=std::numeric_limits<double>::infinity();
                const B bs[]={{PTZ_CAM_VERTI_FOV,0},{PTZ_CAM_VERTI_FOV,180},{PTZ_CAM_VERTI_FOV,nan},{PTZ_CAM_VERTI_ANGLE,-1e-6},{PTZ_CAM_VERTI_ANGLE,180.001},{PTZ_CAM_VERTI_ANGLE,nan},{PTZ_CAM_HORI_ANGLE,nan},{PTZ_CAM_HORI_ANGLE,inf},{PTZ_CAM_HORI_ANGLE,-inf},{PTZ_CAM_HORI_SPEED,0},{PTZ_CAM_HORI_SPEED,-3},{PTZ_CAM_HORI_SPEED,nan},{PTZ_CAM_VERTI_SPEED,0},{PTZ_CAM_VERTI_SPEED,nan},{PTZ_CAM_EXECUTION_DELAY_RATIO,-1},{PTZ_CAM_EXECUTION_DELAY_RATIO,nan},{PTZ_CAM_COMMUNICATION_DELAY,-0.1},{PTZ_CAM_COMMUNICATION_DELAY,nan},{PTZ_CAM_FRAME_POS,-1},{PTZ_CAM_FRAME_POS,1},{PTZ_CAM_FRAME_POS,nan},{PTZ_CAM_FRAME_RATE,0},{PTZ_CAM_FRAME_RATE,-5},{PTZ_CAM_FRAME_RATE,nan},{PTZ_CAM_IS_VIDEO,1},{PTZ_CAM_FRAME_NUM,3},{PTZ_CAM_MOTION_DELAY,1}};
                const B b=bs[r.below(sizeof(bs)/sizeof(bs[0]))]; d+=vh::str(" bad",(int)b.f,"=",b.v); c.desc(d); c.ck(refused([&]{cam.Set(b.f,b.v);}),"bad-set",vh::str("property ",(int)b.f," accepted ",b.v));
            } break;
            case 11: {
                if(r.chance(0.6)) {const int tag=r.range(7,200); d+=vh::str(" pano#",&k-&cams[0],"=",tag); c.desc(d); cv::Mat img=pano(tag,r.chance(0.5)?4:3); const cv::Mat was=img.clone(); cam.UpdatePanoImage(img); m.tag=tag; c.ck(img.size()==was.size() && img.type()==was.type() && !std::memcmp(img.data,was.data,was.total()*was.elemSize()),"pano-modified","the given panorama was modified"); img=cv::Scalar::all(3);}
                else {d+=" badpano"; c.desc(d); cv::Mat img=r.chance(0.5)?cv::Mat(PH,PW,CV_8UC1,cv::Scalar(9)):r.chance(0.5)?cv::Mat():cv::Mat(PH,PW,CV_8UC2,cv::Scalar(1,2)); bool th=false; try {cam.UpdatePanoImage(img);} catch(const std::exception&) {th=true;} c.ck(th,"bad-pano","a picture that cannot be used as a panorama was accepted");}
            } break;
            default: if(cams.size()>1 && r.chance(0.5)) {d+=vh::str(" close#",&k-&cams[0]); c.desc(d); cams.erase(cams.begin()+(&k-&cams[0]));} break;
        }
        for(auto& q : cams) { // every camera keeps its own state whatever happened to the others
            const double e[]={(double)q.m.v.w,(double)q.m.v.h,q.m.v.fov,q.m.v.H,q.m.v.V,q.m.hs,q.m.vs,q.m.comm,q.m.ratio,0,1}; const CameraPropertyFlag f[]={PTZ_CAM_OUTPUT_WIDTH,PTZ_CAM_OUTPUT_HEIGHT,PTZ_CAM_VERTI_FOV,PTZ_CAM_HORI_ANGLE,PTZ_CAM_VERTI_ANGLE,PTZ_CAM_HORI_SPEED,PTZ_CAM_VERTI_SPEED,PTZ_CAM_COMMUNICATION_DELAY,PTZ_CAM_EXECUTION_DELAY_RATIO,PTZ_CAM_IS_VIDEO,PTZ_CAM_FRAME_NUM};
            for(int j=0; j<11; ++j) c.ck(q.p->Get(f[j])==e[j],"property",vh::str("property ",(int)f[j]," of camera #",&q-&cams[0]," is ",q.p->Get(f[j])," instead of ",e[j]));
            double dh=1e9,dv=1e9; const bool th=refused([&]{dh=q.p->Get(PTZ_CAM_HORI_ANGLE_CHANGE); dv=q.p->Get(PTZ_CAM_VERTI_ANGLE_CHANGE);});
            c.ck(!th,"angle-change-unreadable","the readable angle change properties were refused");
            if(!th) c.ck(dh>-180.0 && dh<=180.0 && fabsl(wrapDiff(dh,q.m.dh))<1e-6L && std::abs(dv-q.m.dv)<1e-6,"angle-change",vh::str("angle changes are ",dh,",",dv," instead of ",q.m.dh,",",q.m.dv));
        }
        c.ck(sgl::orphan==0 && sgl::badDelete==0,"context",vh::str(sgl::orphan," drawing calls without a context, ",sgl::badDelete," deletions of objects of another context"));
    }
    for(auto& q : cams) {const cv::Mat f=q.p->GetFrame().clone(); c.ck(seesPano(f,q.m.v,q.m.tag,why,r),"view",vh::str("final view of #",&q-&cams[0]," ",q.m.v.str(),": ",why));}
    while(!cams.empty()) cams.erase(cams.begin()+r.below(cams.size()));
    c.ck(sgl::orphan==0 && sgl::badDelete==0,"context",vh::str("closing: ",sgl::orphan," drawing calls without a context, ",sgl::badDelete," deletions of objects of another context"));
    c.ck(sgl::live.empty() && sgl::quadrics==0,"leak",vh::str(sgl::live.size()," windows and ",sgl::quadrics," quadrics left after the cameras"));
    c.nontrivial(d); c.statmax("steps",n);
}

// translators attached to a camera follow its current view
SCENARIO("attached",300,4000) {
    using namespace vptz; auto& r=c.rng; std::string d; std::string why;
    View v; v.w=r.range(8,400); v.h=r.range(8,300); v.fov=r.real(10,140); v.H=hAngle(r); v.V=vAngle(r); const int bw=r.range(8,400),bh=r.range(8,400); const double bf=r.real(10,120);
    d=vh::str("camera ",v.str()," gt ",bw,"x",bh,"/",bf); c.desc(d);
    Camera cam(panoFile(c,1),v.fov,v.w,v.h,v.H,v.V,90,90,0); GTTranslator t(&cam,bw,bh,bf);
    c.ck(refused([&]{GTTranslator x(&cam,r.chance(0.5)?0:-3,bh,bf);}) && refused([&]{GTTranslator x(&cam,bw,0,bf);}) && refused([&]{GTTranslator x(&cam,bw,bh,r.chance(0.5)?0.0:180.0);}),"attached-bad","invalid arguments accepted");
    for(int i=0,n=r.range(3,12); i<n; ++i) {
        switch(r.below(5)) {
            case 0: {const double a=r.real(-180,180); cam.Set(PTZ_CAM_HORI_ANGLE,a); d+=vh::str(" pan=",a);} break;
            case 1: {const double a=r.real(0,180); cam.Set(PTZ_CAM_VERTI_ANGLE,a); d+=vh::str(" tilt=",a);} break;
            case 2: {const double a=r.real(10,140); cam.Set(PTZ_CAM_VERTI_FOV,a); d+=vh::str(" fov=",a);} break;
            case 3: {const int x=r.below(v.w),y=r.below(v.h); cam.GoToPosition(x,y); d+=vh::str(" goto ",x,",",y);} break;
            default: if(r.chance(0.3)) {cam.GetFrame(); d+=" frame";} break;
        }
        c.desc(d);
        GTTranslator f(v.w,v.h,cam.Get(PTZ_CAM_VERTI_FOV),cam.Get(PTZ_CAM_HORI_ANGLE),cam.Get(PTZ_CAM_VERTI_ANGLE),bw,bh,bf);
        double H=cam.Get(PTZ_CAM_HORI_ANGLE)+r.real(-40,40),V=cam.Get(PTZ_CAM_VERTI_ANGLE)+r.real(-30,30); if(H>180) H-=360; if(H<=-180) H+=360; V=std::min(180.0,std::max(0.0,V)); if(r.chance(0.1)) {H=hAngle(r); V=vAngle(r);}
        const int w=r.range(0,bw),h=r.range(0,bh); cv::Point p(-777,-777),q=p; cv::Rect a,b; bool g[2],e[2];
        const auto point=[&]{g[0]=t.GetGTTargetPoint(H,V,p); e[0]=f.GetGTTargetPoint(H,V,q); c.ck(g[0]==e[0] && (!g[0] || p==q),"attached-point",vh::str("target ",H,",",V," at ",p," instead of ",q));};
        const auto box=[&]{g[1]=t.GetGTBoundingBox(H,V,w,h,a); e[1]=f.GetGTBoundingBox(H,V,w,h,b); c.ck(g[1]==e[1] && (!g[1] || a==b),"attached-box",vh::str("box ",w,"x",h," of ",H,",",V," at ",a," instead of ",b)); if(g[1]) c.stat("boxes",1);};
        if(r.chance(0.5)) {point(); box();} else {box(); point();}
        if(r.chance(0.1)) c.ck(refused([&]{t.GetGTTargetPoint(181,V,p);}) && refused([&]{t.GetGTBoundingBox(H,-1,w,h,a);}) && refused([&]{t.GetGTBoundingBox(H,V,bw+1,h,a);}),"attached-refusals","invalid request accepted");
    }
    c.nontrivial(d);
}

// playback: the simulated clock decides which frame is next
SCENARIO("playback",160,2000) {
    using namespace vptz; auto& r=c.rng; const bool video=!r.chance(0.15); const int N=video?(int)(r.chance(0.5)?r.range(3,8):r.range(12,30)):1;
    const std::string path=video?panoSeq(c,N):panoFile(c,1);
    View v; v.w=r.range(8,40); v.h=r.range(8,40); v.fov=r.real(20,120); v.H=hAngle(r); v.V=r.real(20,160); const double hs=r.real(20,500), vs=r.real(20,500); double comm=r.chance(0.3)?0.0:r.real(0,0.4);
    std::string d=vh::str(video?"sequence of ":"image ",N," ",v.str()); c.desc(d);
    Camera cam(path,v.fov,v.w,v.h,v.H,v.V,hs,vs,comm);
    c.ck(cam.Get(PTZ_CAM_IS_VIDEO)==(video?1:0) && cam.Get(PTZ_CAM_FRAME_NUM)==N,"length",vh::str("sequence of ",N," frames seen as ",cam.Get(PTZ_CAM_FRAME_NUM)));
    if(cam.Get(PTZ_CAM_FRAME_NUM)!=N) return;
    double ratio=r.chance(0.5)?0.0:r.real(0,2); cam.Set(PTZ_CAM_EXECUTION_DELAY_RATIO,ratio);
    double rate=cam.Get(PTZ_CAM_FRAME_RATE); if(video && r.chance(0.7)) {rate=r.real(0.5,60); cam.Set(PTZ_CAM_FRAME_RATE,rate);}
    std::string why; uint64_t h=0; const int sessions=r.range(1,3);
    for(int s=0; s<sessions; ++s) {
        if(r.chance(0.4)) cam.GetFrame();
        const int first=r.below(N); d+=vh::str(" play@",first); c.desc(d);
        c.ck(refused([&]{cam.BeginPlaying(r.chance(0.5)?N+(int)r.below(3):-1-(int)r.below(3));}),"bad-start","playback started at a frame that does not exist");
        cam.BeginPlaying(first); c.ck(cam.Get(PTZ_CAM_FRAME_POS)==first,"start",vh::str("playback starts at ",cam.Get(PTZ_CAM_FRAME_POS)," instead of ",first));
        LD t=first/(LD)rate; int pos=first; const int n=r.range(1,10); double dh=0,dv=0; bool moved=false;
        for(int i=0; i<n; ++i) {
            const double oh=cam.Get(PTZ_CAM_HORI_ANGLE), ov=cam.Get(PTZ_CAM_VERTI_ANGLE);
            if(r.chance(0.5)) {const int x=r.below(v.w),y=r.below(v.h); cam.GoToPosition(x,y);} else {cam.Set(PTZ_CAM_HORI_ANGLE,r.real(-179,180)); const double mh=cam.Get(PTZ_CAM_HORI_ANGLE); cam.Set(PTZ_CAM_VERTI_ANGLE,r.real(1,179)); (void)mh;}
            v.H=cam.Get(PTZ_CAM_HORI_ANGLE); v.V=cam.Get(PTZ_CAM_VERTI_ANGLE); dh=(double)wrapDiff(v.H,oh); dv=v.V-ov; moved=true;
            if(r.chance(0.2)) {comm=r.real(0,0.5); cam.Set(PTZ_CAM_COMMUNICATION_DELAY,comm);}
            if(r.chance(0.1)) usleep(2000);
            const bool more=cam.WaitDelay(); const double ed=cam.Get(PTZ_CAM_EXECUTION_DELAY), md=cam.Get(PTZ_CAM_MOTION_DELAY); const int np=(int)cam.Get(PTZ_CAM_FRAME_POS);
            c.ck(ed>=0,"execution-delay",vh::str("execution delay is ",ed)); const double emd=std::abs(dh)/hs+std::abs(dv)/vs; c.ck(std::abs(md-emd)<=1e-7*(1+emd),"motion-delay",vh::str("motion delay is ",md," instead of ",emd));
            t+=ratio*(LD)ed+md+comm; const LD want=floorl(t*rate+0.5L); const LD lo=std::max((LD)pos+1,floorl(t*rate+0.5L-1e-6L*(1+t*rate))), hi=std::max((LD)pos+1,floorl(t*rate+0.5L+1e-6L*(1+t*rate)));
            d+=vh::str(" ",np); c.desc(d);
            if(want<N && hi<N) c.ck(np>=lo && np<=hi,"next-frame",vh::str("next frame is ",np," instead of ",(double)lo," (clock ",(double)t,", rate ",rate,")")); else if(lo>=N) c.ck(np>=N,"next-frame",vh::str("next frame is ",np," although the clock is past the end (",(double)lo,")"));
            c.ck(np>pos,"progress",vh::str("frame ",np," follows frame ",pos)); c.ck(more==(np<N),"end",vh::str("end of the sequence wrongly reported at frame ",np," of ",N));
            pos=np; h=vh::mix(h,np); c.stat("waits",1);
            if(!more) {c.ck(!cam.WaitDelay(),"end-repeat","the sequence goes on after its end"); c.stat("ends",1); break;}
            const cv::Mat f=cam.GetFrame().clone(); c.ck(seesPano(f,v,video?pos+1:1,why,r,30),"frame",vh::str("frame ",pos,": ",why));
        }
        (void)moved;
    }
    c.nontrivial(vh::str(d));
}

// tracker evaluation: the written results follow from the ground truth, the views and the tracker's boxes
namespace {
    struct GT {int w,h; double H,V;};
    struct Seq {std::string scen,gt,mask; int N,gfirst; std::vector<GT> g; int bw,bh; double fov; int first,last; std::string name;};
    Seq mkSeq(vh::Case& c, vh::Rng& r, int id, bool explicitRange) {
        Seq s; const int lens[]={6,9,14,60,120,200}; s.N=lens[r.below(6)]; s.scen=panoSeq(c,s.N); s.bw=r.chance(0.6)?640:r.range(200,800); s.bh=r.chance(0.6)?480:r.range(200,600); s.fov=r.real(30,85); s.gfirst=r.range(0,2); const int glast=s.N-1-(int)r.range(0,1);
        double H=hAngle(r),V=r.real(50,130); const double sp=r.chance(0.5)?3:25;
        for(int i=s.gfirst; i<=glast; ++i) {GT g; g.w=r.range(8,s.bw/3); g.h=r.range(8,s.bh/3); g.H=H; g.V=V; s.g.push_back(g); H=(double)wrapDiff(H+r.real(-sp,sp),0); if(H<=-180) H=180; V=std::min(150.0,std::max(30.0,V+r.real(-sp/2,sp/2)));}
        s.first=explicitRange?r.range(s.gfirst,glast-1):-1; s.last=explicitRange?(int)r.range(s.first+1,glast+2):INT_MAX; s.name=vh::str("seq",id); s.gt=vh::str(c.workdir(),"/gt",c.idx,"_",id,".yml");
        cv::FileStorage fs(s.gt,cv::FileStorage::WRITE); fs << "totalFrameNum" << s.N << "frameImageWidth" << s.bw << "frameImageHeight" << s.bh << "verticalFOV" << s.fov << "basicGroundTruth" << "[";
        for(size_t i=0; i<s.g.size(); ++i) fs << "{" << "framePos" << (int)(s.gfirst+i) << "width" << s.g[i].w << "height" << s.g[i].h << "horizontalAngle" << s.g[i].H << "verticalAngle" << s.g[i].V << "}";
        fs << "]"; return s;
    }
    struct Row {int pos; double err,off,ov;};
    bool near(double a, double b, double tol=1e-5) {return (std::isnan(a)&&std::isnan(b)) || std::abs(a-b)<=tol*(1+std::abs(b));}
}
SCENARIO("evaluation",60,600) {
    using namespace vptz; auto& r=c.rng; const bool multi=r.chance(0.4); const int ns=multi?r.range(1,3):1; std::vector<Seq> seqs; std::string why;
    const std::string out=vh::str(c.workdir(),"/res",c.idx,".yml"); for(int i=0; i<ns; ++i) seqs.push_back(mkSeq(c,r,i,multi||r.chance(0.5)));
    const double comm=r.chance(0.5)?0.0:r.real(0,0.3); std::string d=vh::str(multi?"set of ":"single ",ns," delay ",comm); c.desc(d);
    // masks of the initial targets, as wide as their boxes in the default view
    std::vector<std::string> masks(ns,"none.png"); std::vector<cv::Mat> maskRef(ns);
    for(int i=0; i<ns; ++i) if(r.chance(0.5)) {
        const Seq& s=seqs[i]; const GT& g=s.g[s.first<0?0:s.first-s.gfirst]; GTTranslator t(640,480,90,g.H,g.V,s.bw,s.bh,s.fov); cv::Rect b; if(!t.GetGTBoundingBox(g.H,g.V,g.w,g.h,b) || b.area()<1) continue;
        cv::Mat m(b.size(),CV_8UC3,cv::Scalar::all(0)); maskRef[i]=cv::Mat(b.size(),CV_8UC1,cv::Scalar(0));
        for(int y=0; y<m.rows; ++y) for(int x=0; x<m.cols; ++x) if(r.chance(0.4)) {m.at<cv::Vec3b>(y,x)[r.below(3)]=(uchar)r.range(1,255); maskRef[i].at<uchar>(y,x)=255;}
        masks[i]=vh::str(c.workdir(),"/mask",c.idx,"_",i,".png"); cv::imwrite(masks[i],m); c.stat("masks",1);
    }
    std::unique_ptr<Evaluator> ev;
    if(multi) {
        mkdir((c.workdir()+"/sets").c_str(),0755); const std::string sp=vh::str(c.workdir(),"/sets/set",c.idx,".yml"); cv::FileStorage fs(sp,cv::FileStorage::WRITE); fs << "test_set" << "[";
        auto rel=[&](const std::string& p){return p.substr(c.workdir().size()+1);};
        for(auto& s : seqs) fs << "{" << "test_name" << s.name << "input_scenario_path" << rel(s.scen) << "input_gtseq_path" << rel(s.gt) << "input_target_mask_path" << (masks[&s-seqs.data()]=="none.png"?std::string("none.png"):rel(masks[&s-seqs.data()])) << "init_frame_idx" << s.first << "last_frame_idx" << s.last << "}";
        fs << "]"; fs.release(); ev.reset(new Evaluator(sp,out,comm,0.0));
    }
    else ev.reset(new Evaluator(seqs[0].scen,seqs[0].gt,masks[0]=="none.png"?std::string():masks[0],out,comm,0.0,seqs[0].first,seqs[0].last));
    c.ck(ev->GetTestSetSize()==ns,"set-size","wrong number of tests");
    struct Done {int id; std::vector<Row> rows; int outv,pot; double err,off,ov;}; std::vector<Done> done;
    for(int q=0; q<ns; ++q) {
        const Seq& s=seqs[q]; d+=vh::str(" [",s.N," frames, gt from ",s.gfirst," x",s.g.size()," test ",s.first,"..",s.last==INT_MAX?-1:s.last,"]"); c.desc(d);
        const int glast=s.gfirst+(int)s.g.size()-1, first=s.first<0?s.gfirst:s.first, last=std::min(glast,s.last);
        ev->SetupTesting(q); c.ck(ev->GetCurrTestIdx()==q && ev->GetPotentialTestFrameCount()==last-first,"setup",vh::str("test #",ev->GetCurrTestIdx()," with ",ev->GetPotentialTestFrameCount()," frames instead of #",q," with ",last-first));
        View v; v.w=(int)ev->GetCurrCameraProperty(PTZ_CAM_OUTPUT_WIDTH); v.h=(int)ev->GetCurrCameraProperty(PTZ_CAM_OUTPUT_HEIGHT); v.fov=ev->GetCurrCameraProperty(PTZ_CAM_VERTI_FOV); v.H=ev->GetCurrCameraProperty(PTZ_CAM_HORI_ANGLE); v.V=ev->GetCurrCameraProperty(PTZ_CAM_VERTI_ANGLE);
        const GT& g0=s.g[first-s.gfirst]; c.ck(v.H==g0.H && v.V==g0.V && ev->GetCurrCameraProperty(PTZ_CAM_FRAME_POS)==first,"initial-view","the camera does not start on the target");
        const cv::Mat f0=ev->GetInitTargetFrame(); c.ck(seesPano(f0,v,first+1,why,r,20),"initial-frame",why);
        GTTranslator tr(v.w,v.h,v.fov,v.H,v.V,s.bw,s.bh,s.fov); cv::Rect b0; c.ck(tr.GetGTBoundingBox(g0.H,g0.V,g0.w,g0.h,b0),"initial-box","initial box out of sight");
        const cv::Mat it=ev->GetInitTarget(); const cv::Rect ib=ev->GetInitTargetBBox();
        c.ck(ib==b0,"initial-target-box",vh::str("initial box is ",ib.x,",",ib.y," ",ib.width,"x",ib.height," instead of ",b0.x,",",b0.y," ",b0.width,"x",b0.height));
        c.ck(it.size()==ib.size() && cg::sameBits(it,f0(ib).clone()),"initial-target","the initial target is not the content of its box in the initial frame");
        const cv::Mat im=ev->GetInitTargetMask(); c.ck(im.empty()==maskRef[q].empty() && (im.empty() || cg::sameBits(im,maskRef[q])),"initial-mask","the mask of the initial target is not that of its file");
        if(multi) c.ck(ev->GetCurrTestSequenceName()==s.name,"name",ev->GetCurrTestSequenceName());
        c.ck(refused([&]{cv::Point p(1,1); ev->GetNextFrame(p);}),"early-frame","a frame was given before the test began");
        c.ck(refused([&]{cv::Rect b(1,1,9,9); ev->UpdateCurrentResult(b);}),"early-result","a result was accepted before the test began");
        ev->BeginTesting(); Done dn; dn.id=q; dn.outv=0; dn.err=dn.off=dn.ov=0; dn.pot=last-first; int pos=first, valid=0; const int maxf=r.chance(0.15)?0:r.chance(0.2)?(int)r.range(1,3):25;
        for(int i=0; i<maxf; ++i) {
            cv::Mat f; 
            if(r.chance(0.5)) {const cv::Point p(r.chance(0.6)?v.w/2+(int)r.range(-60,60):(int)r.below(v.w),r.chance(0.6)?v.h/2+(int)r.range(-60,60):(int)r.below(v.h)); f=ev->GetNextFrame(p);}
            else {const GT& g=s.g[std::min(pos+1,glast)-s.gfirst]; double H=(double)wrapDiff(g.H+(r.chance(0.2)?180:0)+r.real(-20,20),0); if(H<=-180) H=180; f=ev->GetNextFrame(H,std::min(180.0,std::max(0.0,g.V+r.real(-15,15))));}
            if(f.empty()) {c.ck(refused([&]{cv::Rect b(1,1,9,9); ev->UpdateCurrentResult(b);}),"late-result","a result was accepted after the end"); break;}
            const int np=(int)ev->GetCurrCameraProperty(PTZ_CAM_FRAME_POS); v.H=ev->GetCurrCameraProperty(PTZ_CAM_HORI_ANGLE); v.V=ev->GetCurrCameraProperty(PTZ_CAM_VERTI_ANGLE);
            d+=vh::str(" ",np); c.desc(d); c.ck(np>pos && np<=last,"order",vh::str("frame ",np," after ",pos,", last is ",last)); pos=np;
            c.ck(seesPano(f,v,np+1,why,r,20),"frame",vh::str("frame ",np,": ",why));
            const GT& g=s.g[np-s.gfirst]; GTTranslator t(v.w,v.h,v.fov,v.H,v.V,s.bw,s.bh,s.fov); cv::Point tp; cv::Rect gb; t.GetGTTargetPoint(g.H,g.V,tp); const bool gok=t.GetGTBoundingBox(g.H,g.V,g.w,g.h,gb); if(!gok) gb=cv::Rect();
            cv::Rect b; switch(r.below(5)) {case 0: b=gok?gb:cv::Rect(5,5,30,30); break; case 1: b=cv::Rect(r.below(v.w),r.below(v.h),r.range(0,4),r.range(0,4)); break; case 2: b=cv::Rect(r.below(v.w),r.below(v.h),r.range(3,200),r.range(3,200)); break; default: b=gok?gb+cv::Point(r.range(-20,20),r.range(-20,20)):cv::Rect(9,9,50,20); break;}
            cv::Rect bb=b; ev->UpdateCurrentResult(bb,false); c.ck(bb==b,"box-modified","the tracker's box was modified");
            c.ck(ev->GetLastGTBoundingBox()==gb,"last-gt",gok?"the last ground truth box is not that of the frame":"the ground truth box of an earlier frame is kept although the target is out of sight now");
            Row w; w.pos=np; const bool vis=tp.x>=0 && tp.y>=0 && tp.x<=v.w-1 && tp.y<=v.h-1 && b.width>=VPTZ_MINIMUM_BBOX_RADIUS && b.height>=VPTZ_MINIMUM_BBOX_RADIUS;
            if(vis) {const cv::Point m((b.tl()+b.br())*0.5); w.err=std::hypot(tp.x-m.x,tp.y-m.y); w.off=std::hypot(tp.x-v.w/2,tp.y-v.h/2); dn.err+=w.err; dn.off+=w.off; ++valid;} else {w.err=w.off=-1; ++dn.outv;}
            const double in=(double)(gb&b).area(), un=(double)gb.area()+b.area()-in; w.ov=un>0?in/un:0; if(vis) dn.ov+=w.ov; dn.rows.push_back(w); c.stat(vis?"results.in-view":"results.out-of-view",1);
            c.ck(refused([&]{cv::Rect z(1,1,9,9); ev->UpdateCurrentResult(z);}),"double-result","two results were accepted for one frame");
        }
        ev->EndTesting(); const double nv=std::max(valid,1); dn.err/=nv; dn.off/=nv; dn.ov/=nv; done.push_back(dn);
        c.ck(ev->GetCurrTestIdx()==-1 && refused([&]{cv::Point p(1,1); ev->GetNextFrame(p);}),"ended","the test goes on after its end");
    }
    ev.reset();
    cv::FileStorage fs(out,cv::FileStorage::READ); c.ck(fs.isOpened(),"output","results cannot be read back"); if(!fs.isOpened()) return;
    double fe=0,fo=0,fv=0,ft=0,fr=0,fp=0; int tot=0;
    for(auto& k : done) {
        cv::FileNode n=multi?fs["sequences"][k.id]:fs.root(); const cv::FileNode rs=n["results"];
        c.ck(rs.size()==k.rows.size(),"rows",vh::str(rs.size()," results written for ",k.rows.size()," frames"));
        for(size_t i=0; i<k.rows.size() && i<rs.size(); ++i) {const auto& w=k.rows[i]; const double e=(double)rs[(int)i]["targetPointError"], o=(double)rs[(int)i]["targetPointOffset"], v=(double)rs[(int)i]["boundingBoxOverlapRatio"];
            c.ck((int)rs[(int)i]["framePos"]==w.pos && near(e,w.err) && near(o,w.off) && near(v,w.ov),"row",vh::str("frame ",w.pos,": error ",e," offset ",o," overlap ",v," instead of ",w.err," ",w.off," ",w.ov));}
        const double np=(double)k.rows.size(), te=k.err, tf=np>0?k.outv/np:0, orr=k.outv/(double)std::max(k.pot,1), pr=np/std::max(k.pot,1);
        const double ge=(double)n["targetPointError_avg"], go=(double)n["targetPointOffset_avg"], gv=(double)n["bBoxOverlapRatio_avg"], gf=(double)n["trackFragmentation"], gr=(double)n["outOfViewRatio"], gp=(double)n["processedRatio"];
        c.ck(near(ge,te) && near(go,k.off),"averages",vh::str("average error ",ge," offset ",go," instead of ",te," ",k.off));
        c.ck(near(gv,k.ov),"overlap-average",vh::str("average overlap ",gv," instead of ",k.ov));
        c.ck(near(gf,tf),"fragmentation",vh::str("fragmentation ",gf," instead of ",tf)); c.ck(near(gr,orr) && near(gp,pr),"ratios",vh::str("out-of-view and processed ratios ",gr,", ",gp," instead of ",orr,", ",pr));
        c.ck((int)n["potential_frame_count"]==k.pot && (int)n["input_totalFrameNum"]==seqs[k.id].N,"counts","frame counts differ");
        fe+=te; fo+=k.off; fv+=k.ov; ft+=tf; fr+=orr; fp+=pr; tot+=k.pot;
    }
    if(multi) {const double m=(double)done.size(); c.ck(near((double)fs["targetPointError_fullavg"],fe/m) && near((double)fs["targetPointOffset_fullavg"],fo/m) && near((double)fs["bBoxOverlapRatio_fullavg"],fv/m) && near((double)fs["trackFragmentation_fullavg"],ft/m) && near((double)fs["outOfViewRatio_fullavg"],fr/m) && near((double)fs["processedRatio_fullavg"],fp/m) && (int)fs["tot_potential_frame_count"]==tot,"full-averages","averages over the test set do not follow from its sequences");}
    unlink(out.c_str()); for(auto& s : seqs) unlink(s.gt.c_str()); for(auto& s : masks) unlink(s.c_str());
    c.nontrivial(d);
}
VH_MAIN
