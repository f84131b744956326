// shared by the harnesses of the math helpers
#pragma once
#include "vh.hpp"
#include "litiv/utils/math.hpp"
typedef long double ld;
typedef __int128 i128;

template<typename T> T anyval(vh::Rng& r, int mode) { // mode 0: full range, 1: extremes, 2: small
    typedef std::numeric_limits<T> L;
    switch(mode) {
        case 1: { T v[]={L::min(),T(L::min()+1),T(L::max()),T(L::max()-1),T(0),T(1),T(L::max()/2)}; return v[r.below(7)]; }
        case 2: return T(r.below(12));
        default: return T(r.u64());
    }
}
template<> float anyval<float>(vh::Rng& r, int mode) { return mode==1?r.pick({0.f,1e-10f,-1e7f,1e7f,-1.f,255.f}):mode==2?float(r.below(12)):float(r.real(-1000,1000)); }
template<> double anyval<double>(vh::Rng& r, int mode) { return mode==1?r.pick({0.,1e-20,-1e10,1e10,-1.,255.}):mode==2?double(r.below(12)):r.real(-1000,1000); }

template<typename T> struct Wide { typedef i128 t; };
template<> struct Wide<float> { typedef ld t; };
template<> struct Wide<double> { typedef ld t; };
template<typename W> ld told(W w) { return (ld)w; }

template<typename T> bool near_(ld got, ld exp, ld mag) {
    if(std::is_floating_point<T>::value) return std::abs(got-exp)<=mag*(ld)std::numeric_limits<T>::epsilon()*16+1e-30L;
    return got==exp;
}
template<typename T> const char* tn();
#define TN(T) template<> const char* tn<T>() { return #T; }
TN(uint8_t) TN(int8_t) TN(uint16_t) TN(int16_t) TN(uint32_t) TN(int32_t) TN(float) TN(double)
template<> const char* tn<char>() { return "char"; }

template<typename T> std::string show(const std::vector<T>& v, size_t n=24) { std::ostringstream o; o.precision(9); for(size_t i=0;i<v.size()&&i<n;++i) o<<(i?",":"")<<+v[i]; return o.str(); }

