// generators and independent comparison helpers for OpenCV matrices
#pragma once
#include "vh.hpp"
#include <opencv2/core.hpp>
#include <cstring>
#include <limits>
namespace cg {
    using vh::Rng;
    inline std::vector<uint8_t> bytes(const cv::Mat& m) {
        if(m.empty()) return {};
        cv::Mat c = m.clone();
        return std::vector<uint8_t>(c.data,c.data+c.total()*c.elemSize());
    }
    inline std::string shape(const cv::Mat& m) {
        std::string s = "t"+std::to_string(m.type())+"[";
        for(int d=0; d<m.dims; ++d) s += (d?"x":"")+std::to_string(m.size[d]);
        return s+"]"+(m.empty()||m.isContinuous()?"":"~");
    }
    inline bool sameShape(const cv::Mat& a, const cv::Mat& b) {
        if(a.dims!=b.dims || a.type()!=b.type()) return false;
        for(int d=0; d<a.dims; ++d) if(a.size[d]!=b.size[d]) return false;
        return true;
    }
    inline bool sameBits(const cv::Mat& a, const cv::Mat& b) {return sameShape(a,b) && bytes(a)==bytes(b);}
    template<typename T> inline bool sameValT(const cv::Mat& a, const cv::Mat& b) {
        const std::vector<uint8_t> x=bytes(a),y=bytes(b);
        if(x.size()!=y.size()) return false;
        for(size_t i=0; i<x.size()/sizeof(T); ++i) {
            T u,v; memcpy(&u,&x[i*sizeof(T)],sizeof(T)); memcpy(&v,&y[i*sizeof(T)],sizeof(T));
            if(!(u==v || (u!=u && v!=v))) return false;
        }
        return true;
    }
    /// same shape and same values (NaN equals NaN)
    inline bool sameVals(const cv::Mat& a, const cv::Mat& b) {
        if(!sameShape(a,b)) return false;
        if(a.depth()==CV_32F) return sameValT<float>(a,b);
        if(a.depth()==CV_64F) return sameValT<double>(a,b);
        return bytes(a)==bytes(b);
    }
    template<typename T> inline T randVal(Rng& r, int style) {
        if(std::is_floating_point<T>::value) {
            switch(style) {
                case 0: return (T)r.real(-1000,1000);
                case 1: return (T)(int)r.range(-5,5);
                case 2: {const T v[] = {T(0),T(-0.0),T(1),std::numeric_limits<T>::max(),std::numeric_limits<T>::lowest(),std::numeric_limits<T>::min(),std::numeric_limits<T>::denorm_min(),std::numeric_limits<T>::epsilon(),std::numeric_limits<T>::infinity(),-std::numeric_limits<T>::infinity(),std::numeric_limits<T>::quiet_NaN()}; return v[r.below(11)];}
                default: return (T)(r.real(-1,1)*std::pow(10.0,(double)r.range(-30,30)));
            }
        }
        if(style==2) return r.chance(50)?std::numeric_limits<T>::max():std::numeric_limits<T>::min();
        if(style==1) return (T)r.below(4);
        return (T)r.u64();
    }
    inline void fill(cv::Mat& m, Rng& r, int style) {
        // fills through a row iterator so that sub-views are only written inside
        const cv::Mat* arr[] = {&m,nullptr}; uchar* p = nullptr;
        cv::NAryMatIterator it(arr,&p,1);
        for(size_t k=0; k<it.nplanes; ++k,++it) {
            const size_t n = it.size*m.channels();
            for(size_t i=0; i<n; ++i) switch(m.depth()) {
                case CV_8U: ((uint8_t*)p)[i] = randVal<uint8_t>(r,style); break;
                case CV_8S: ((int8_t*)p)[i] = randVal<int8_t>(r,style); break;
                case CV_16U: ((uint16_t*)p)[i] = randVal<uint16_t>(r,style); break;
                case CV_16S: ((int16_t*)p)[i] = randVal<int16_t>(r,style); break;
                case CV_32S: ((int32_t*)p)[i] = randVal<int32_t>(r,style); break;
                case CV_32F: ((float*)p)[i] = randVal<float>(r,style); break;
                case CV_64F: ((double*)p)[i] = randVal<double>(r,style); break;
            }
        }
    }
    /// a matrix of the given shape which is a sub-view of a larger, filled one (kept in 'parent')
    inline cv::Mat view(Rng& r, const std::vector<int>& sz, int type, cv::Mat& parent, int style=0) {
        std::vector<int> ps; std::vector<cv::Range> rg;
        for(int s : sz) {int a=(int)r.below(4),b=(int)r.below(4); ps.push_back(s+a+b); rg.emplace_back(a,a+s);}
        parent.create((int)ps.size(),ps.data(),type);
        fill(parent,r,style);
        return parent(rg.data());
    }
    inline cv::Mat randMat(Rng& r, const std::vector<int>& sz, int type, bool subview, cv::Mat& parent, int style) {
        cv::Mat m;
        if(subview) m = view(r,sz,type,parent,style);
        else {m.create((int)sz.size(),sz.data(),type); fill(m,r,style);}
        return m;
    }
    inline std::vector<int> randDims(Rng& r, int maxDims, int maxSize) {
        std::vector<int> s((size_t)r.range(2,maxDims));
        for(auto& x : s) x = (int)r.range(1,s.size()>3?std::min(maxSize,4):maxSize);
        return s;
    }
    /// 2d image of one of several textures: noise, gradient, blocks, constant, stripes
    inline cv::Mat image(Rng& r, int rows, int cols, int type, int kind=-1) {
        if(kind<0) kind = (int)r.below(6);
        cv::Mat m(rows,cols,type);
        const int ch = m.channels();
        const double a=r.real(-3,3),b=r.real(-3,3); const int blk=1+(int)r.below(8);
        std::vector<uint8_t> pal(64); for(auto& v:pal) v=(uint8_t)r.below(256);
        for(int y=0; y<rows; ++y) for(int x=0; x<cols; ++x) for(int k=0; k<ch; ++k) {
            double v;
            switch(kind) {
                case 0: v=(double)r.below(256); break;
                case 1: v=128+a*x+b*y+k*9; break;
                case 2: v=pal[((y/blk)*7+(x/blk)*3+k*5)%64]; break;
                case 3: v=pal[k%64]; break;
                case 4: v=((x/blk+y/blk)&1)?255:0; break;
                default: v=pal[((y/blk)*5+(x/blk))%64]+(double)r.range(-6,6); break;
            }
            v = std::min(255.0,std::max(0.0,std::floor(v)));
            if(m.depth()==CV_8U) m.ptr<uint8_t>(y)[x*ch+k]=(uint8_t)v;
            else if(m.depth()==CV_32F) m.ptr<float>(y)[x*ch+k]=(float)v;
            else if(m.depth()==CV_32S) m.ptr<int>(y)[x*ch+k]=(int)v;
            else if(m.depth()==CV_64F) m.ptr<double>(y)[x*ch+k]=v;
        }
        return m;
    }
    /// copies a 2d image inside a larger noise image and returns the view (same content, non continuous)
    inline cv::Mat embed(Rng& r, const cv::Mat& m, cv::Mat& parent) {
        const int t=(int)r.below(4),b=(int)r.below(4),l=(int)r.below(5),q=1+(int)r.below(5);
        parent.create(m.rows+t+b,m.cols+l+q,m.type());
        fill(parent,r,m.depth()>=CV_32F?0:3);
        cv::Mat v = parent(cv::Rect(l,t,m.cols,m.rows));
        m.copyTo(v);
        return v;
    }
    template<typename F> inline bool throws(F f) {
        try {f();} catch(const std::exception&) {return true;}
        return false;
    }
}
