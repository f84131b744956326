// Window-system stand-in: answers the GLFW calls litiv makes with an off-screen EGL context (Mesa's software renderer), so that
// the OpenGL/GLSL code of the library runs for real without a display.
#pragma once
#include <GL/glew.h>
#include <GLFW/glfw3.h>
#include <EGL/egl.h>
#include <EGL/eglext.h>
#include <cstdio>
#include <cstdlib>
#include <map>
namespace glctx {
    struct Win {EGLSurface s; EGLContext x; int w,h; bool visible;};
    inline EGLDisplay& dpy() {static EGLDisplay d = EGL_NO_DISPLAY; return d;}
    inline std::map<int,int>& hints() {static std::map<int,int> m; return m;}
    inline EGLConfig& cfg() {static EGLConfig c; return c;}
    inline bool open() {
        if(dpy()!=EGL_NO_DISPLAY)
            return true;
        setenv("LIBGL_ALWAYS_SOFTWARE","1",1);
        setenv("MESA_SHADER_CACHE_DISABLE","true",1); // leaves nothing in the home directory
        setenv("LP_NUM_THREADS","2",1);
        auto gpd = (PFNEGLGETPLATFORMDISPLAYEXTPROC)eglGetProcAddress("eglGetPlatformDisplayEXT");
        if(!gpd)
            return false;
        EGLDisplay d = gpd(EGL_PLATFORM_SURFACELESS_MESA,EGL_DEFAULT_DISPLAY,nullptr);
        EGLint a,b,n=0;
        if(d==EGL_NO_DISPLAY || !eglInitialize(d,&a,&b) || !eglBindAPI(EGL_OPENGL_API))
            return false;
        const EGLint ca[] = {EGL_SURFACE_TYPE,EGL_PBUFFER_BIT,EGL_RENDERABLE_TYPE,EGL_OPENGL_BIT,EGL_RED_SIZE,8,EGL_GREEN_SIZE,8,EGL_BLUE_SIZE,8,EGL_ALPHA_SIZE,8,EGL_NONE};
        if(!eglChooseConfig(d,ca,&cfg(),1,&n) || n<1)
            return false;
        dpy() = d;
        return true;
    }
}
extern "C" {
    GLFWerrorfun glfwSetErrorCallback(GLFWerrorfun) {return nullptr;}
    int glfwInit(void) {return glctx::open()?GL_TRUE:GL_FALSE;}
    void glfwTerminate(void) {}
    void glfwWindowHint(int h,int v) {glctx::hints()[h] = v;}
    GLFWwindow* glfwCreateWindow(int w,int h,const char*,GLFWmonitor*,GLFWwindow*) {
        auto& H = glctx::hints();
        const EGLint xa[] = {EGL_CONTEXT_MAJOR_VERSION,H.count(GLFW_CONTEXT_VERSION_MAJOR)?H[GLFW_CONTEXT_VERSION_MAJOR]:1,EGL_CONTEXT_MINOR_VERSION,H.count(GLFW_CONTEXT_VERSION_MINOR)?H[GLFW_CONTEXT_VERSION_MINOR]:0,
                             EGL_CONTEXT_OPENGL_PROFILE_MASK,(H.count(GLFW_OPENGL_PROFILE) && H[GLFW_OPENGL_PROFILE]==GLFW_OPENGL_CORE_PROFILE)?EGL_CONTEXT_OPENGL_CORE_PROFILE_BIT:EGL_CONTEXT_OPENGL_COMPATIBILITY_PROFILE_BIT,EGL_NONE};
        EGLContext x = eglCreateContext(glctx::dpy(),glctx::cfg(),EGL_NO_CONTEXT,xa);
        const EGLint pa[] = {EGL_WIDTH,w,EGL_HEIGHT,h,EGL_NONE};
        EGLSurface s = eglCreatePbufferSurface(glctx::dpy(),glctx::cfg(),pa);
        if(x==EGL_NO_CONTEXT || s==EGL_NO_SURFACE)
            return nullptr;
        return (GLFWwindow*)new glctx::Win{s,x,w,h,!(H.count(GLFW_VISIBLE) && H[GLFW_VISIBLE]==GL_FALSE)};
    }
    void glfwDestroyWindow(GLFWwindow* p) {
        auto w = (glctx::Win*)p;
        if(eglGetCurrentContext()==w->x)
            eglMakeCurrent(glctx::dpy(),EGL_NO_SURFACE,EGL_NO_SURFACE,EGL_NO_CONTEXT);
        eglDestroyContext(glctx::dpy(),w->x);
        eglDestroySurface(glctx::dpy(),w->s);
        delete w;
    }
    void glfwMakeContextCurrent(GLFWwindow* p) {auto w = (glctx::Win*)p; eglMakeCurrent(glctx::dpy(),w->s,w->s,w->x);}
    void glfwShowWindow(GLFWwindow* p) {((glctx::Win*)p)->visible = true;}
    void glfwHideWindow(GLFWwindow* p) {((glctx::Win*)p)->visible = false;}
    void glfwSetWindowSize(GLFWwindow* p,int w,int h) {((glctx::Win*)p)->w = w; ((glctx::Win*)p)->h = h;}
    void glfwPollEvents(void) {}
    int glfwWindowShouldClose(GLFWwindow*) {return 0;}
    int glfwGetKey(GLFWwindow*,int) {return GLFW_RELEASE;}
    void glfwSwapBuffers(GLFWwindow* p) {eglSwapBuffers(glctx::dpy(),((glctx::Win*)p)->s);}
    GLenum __real_glewInit(void);
    GLenum __wrap_glewInit(void) {
        const GLenum r = __real_glewInit();
        return r==4/*GLEW_ERROR_NO_GLX_DISPLAY: there is no X server, but every entry point has been loaded*/?GLEW_OK:r;
    }
}
