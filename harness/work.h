// Calls of everything in the library over a pool of inputs which are only read, with outputs and work objects of the caller
#ifndef VERIF_WORK_H
#define VERIF_WORK_H
#include "interleave.h"
#include <random>
#include "base_types.h"
#include "image_types.h"
#include "image_convert.h"
#include "image_misc_ops.h"
#include "image_statistics.h"
#include "image_blur.h"
#include "image_border.h"
#include "convolve.h"
#include "convolve_kernels.h"
#include "binary_ops.h"
#include "threshold_block_filters.h"
#include "contour.h"
#include "packed_sets.h"
#include "config_types.h"
using namespace boofcv;
using namespace tr;

template<class T> struct TickBorder : ImageBorder<T> { T outside_get(int32_t x,int32_t y) const override { tick(); int w=(int)this->image->width,h=(int)this->image->height; T v=this->image->unsafe_at((uint32_t)(x<0?0:x>=w?w-1:x),(uint32_t)(y<0?0:y>=h?h-1:y)); tick(); return v; } };
template<class B,class T> struct Ticked : B { using B::B;
    void computeBlockStatistics(uint32_t x0,uint32_t y0,uint32_t w,uint32_t h,uint32_t i,const Gray<T>& in) override { tick(); B::computeBlockStatistics(x0,y0,w,h,i,in); tick(); }
    void thresholdBlock(uint32_t x,uint32_t y,const Gray<T>& in,Gray<U8>& out) override { tick(); B::thresholdBlock(x,y,in,out); tick(); } };
struct TickRng { typedef uint32_t result_type; std::mt19937 r; explicit TickRng(uint32_t s):r(s) {} static constexpr result_type min() { return 0; } static constexpr result_type max() { return 0xffffffffu; } result_type operator()() { tick(); return r(); } };

struct Numbers { Sink& s; explicit Numbers(Sink& s):s(s) {} template<class T> void put(T v) { s.put(v); }
    template<class T> void img(const Gray<T>& a) { put(a.width); put(a.height); for(uint32_t y=0;y<a.height;y++) for(uint32_t x=0;x<a.width;x++) put(a.unsafe_at(x,y)); }
    template<class T> void arr(const GrowArray<T>& a) { put(a.size); for(uint32_t k=0;k<a.size;k++) put(a[k]); } };

static int dim(Rng& g) { return g.chance(4)?g.range(1,6):g.range(20,70); }
// everything which the threads only read
template<class T> struct Pool {
    typedef typename TypeInfo<T>::signed_type S;
    std::vector<std::unique_ptr<Gray<T>>> base; std::vector<Gray<T>> im; std::vector<Gray<U8>> bin; std::vector<std::unique_ptr<Gray<U8>>> own;
    std::vector<Kernel1D<S>> k1; std::vector<std::unique_ptr<Kernel2D<S>>> k2; std::vector<std::shared_ptr<ImageBorder<T>>> borders; TickBorder<T> ticking;
    Interleaved<T> inter; Planar<Gray<T>> planar; PackedSet<int> sets{5}; GrowArray<T> arr{1}; GrowArray<uint32_t> hist{1};
    explicit Pool(Rng& g) {
        int w=dim(g),h=dim(g);
        for( int k=0;k<3;k++ ) { int ww=g.chance(60)?w:dim(g),hh=g.chance(60)?h:dim(g),a=g.range(0,4),b=g.range(0,4); base.emplace_back(new Gray<T>((uint32_t)(ww+a+3),(uint32_t)(hh+b+2)));
            Gray<T>& q=*base.back(); int hi=g.chance(30)?8:200; for(uint32_t i=0;i<q.data_length;i++) q.data[i]=(T)g.range(0,hi);
            im.push_back(q.makeSubimage((uint32_t)a,(uint32_t)b,(uint32_t)(a+ww),(uint32_t)(b+hh))); }
        for( int k=0;k<2;k++ ) { int p=g.range(20,80); own.emplace_back(new Gray<U8>((uint32_t)w,(uint32_t)h)); for(uint32_t i=0;i<own.back()->data_length;i++) own.back()->data[i]=g.chance(p)?1:0; bin.push_back(own.back()->makeSubimage(0,0,(uint32_t)w,(uint32_t)h)); }
        for( int n : {1,3,5,8,33} ) { Kernel1D<S> q((uint32_t)n,(uint32_t)g.range(0,n-1)); for(int i=0;i<n;i++) q.at(i)=(S)g.range(1,5); k1.push_back(q); }
        for( int n : {3,4,7} ) { k2.emplace_back(new Kernel2D<S>((uint32_t)n,(uint32_t)g.range(0,n-1))); for(int y=0;y<n;y++) for(int x=0;x<n;x++) k2.back()->at(x,y)=(S)g.range(0,4); }
        for( BorderType b : {EXTENDED,REFLECT,WRAP,ZERO} ) { borders.push_back(FactoryImageBorder::create_SB<T>(b)); borders.back()->setImage(im[g.below(3)]); }
        ticking.setImage(im[0]);
        int nb=g.range(1,3); inter.reshape((uint32_t)w,(uint32_t)h,(uint32_t)nb); for(uint32_t y=0;y<(uint32_t)h;y++) for(uint32_t x=0;x<(uint32_t)w;x++) for(int b=0;b<nb;b++) inter.at(x,y,b)=(T)g.range(0,90);
        planar.setNumberOfBands((uint32_t)nb); planar.reshape((uint32_t)w,(uint32_t)h); for(int b=0;b<nb;b++) ImageMiscOps::fill(planar.getBand(b),(T)(b+3));
        for(int s=0;s<6;s++) { sets.start_new_set(); for(int k=g.range(0,9);k>0;k--) sets.push_tail(g.range(0,99)); }
        arr.resize((uint32_t)g.range(1,40)); for(uint32_t k=0;k<arr.size;k++) arr[k]=(T)g.range(0,50);
        hist.resize(60); for(uint32_t k=0;k<60;k++) hist[k]=(uint32_t)g.range(0,9);
    }
    // all of it, the surroundings of the views too
    std::vector<long long> digest() const { Sink k; Numbers s(k); for(auto& b:base) for(uint32_t i=0;i<b->data_length;i++) s.put(b->data[i]); for(auto& b:own) for(uint32_t i=0;i<b->data_length;i++) s.put(b->data[i]);
        for(auto& i:im) s.img(i); for(auto& i:bin) s.img(i); for(auto& k:k1) { s.put(k.width); s.put(k.offset); s.arr(k.data); } for(auto& k:k2) { s.put(k->width); s.put(k->offset); s.arr(k->data); }
        for(uint32_t i=0;i<inter.data_length;i++) s.put(inter.data[i]); for(uint32_t b=0;b<planar.num_bands;b++) s.img(planar.getBand(b));
        for(uint32_t k=0;k<sets.set_info.size();k++) { s.put(sets.set_info[k].size); for(uint32_t j=0;j<sets.set_info[k].size;j++) s.put(sets.at(k,j)); } s.arr(arr); s.arr(hist); return k.out(); }
};
enum { OPS=24 };
// what one thread owns
template<class T> struct Worker {
    typedef typename TypeInfo<T>::signed_type S;
    const Pool<T>& P; Rng g;
    Gray<T> out{1,1},store{1,1},tmp{2,2}; Gray<U8> bin{1,1}; Gray<S32> labels{1,1}; LinearContourLabelChang2004 finder{FOUR}; PackedSet<int> ps{7}; GrowArray<T> ga{4}; Interleaved<T> inter; Planar<Gray<T>> planar;
    LocalMeanBinaryFilter<T> lm{ConfigLength(9,-1),0.95f,true};
    Worker(const Pool<T>& p,uint64_t seed) : P(p),g(seed) {}
    const Gray<T>& in() { return P.im[g.below(3)]; }
    template<class F> void rej(Numbers& s,F f) { try { f(); s.put(0); } catch( std::bad_alloc& ) { throw; } catch( std::exception& ) { s.put(1); } }
    template<class F> void block(Numbers& s,F& f) { const Gray<T>& a=in(); bin.reshape(a.width,a.height); rej(s,[&]{ f.process(a,bin); s.img(bin); }); bool l=g.chance(50); f.setThresholdFromLocalBlocks(l); const Gray<T>& b=in(); bin.reshape(b.width,b.height); rej(s,[&]{ f.process(b,bin); s.img(bin); }); }
    void call(int op,Numbers& s) {
        int r=g.range(1,9); bool down=g.chance(50);
        const Kernel1D<S>& k=P.k1[g.below((uint32_t)P.k1.size())];
        tick();
        switch( op ) {
            case 0: ConvolveImage::horizontal(k,*P.borders[g.below(4)],out); s.img(out); break;
            case 1: ConvolveImage::vertical(k,*P.borders[g.below(4)],out); s.img(out); break;
            case 2: ConvolveImage::convolve(*P.k2[g.below(3)],*P.borders[g.below(4)],out); s.img(out); break;
            case 3: { const Gray<T>& a=*P.ticking.image; out.reshape(a.width,a.height); if(down) ConvolveImage::horizontal(k,P.ticking,out); else ConvolveImage::vertical(k,P.ticking,out); s.img(out); ConvolveImage::convolve(*P.k2[g.below(3)],P.ticking,out); s.img(out); } break;
            case 4: { const Gray<T>& a=*P.ticking.image; out.reshape(a.width,a.height); ConvolveNaive::horizontal(k,P.ticking,out); s.img(out); ConvolveNaive::vertical(k,P.ticking,out,(S)7); s.img(out); ConvolveNaive::convolve(*P.k2[0],P.ticking,out,(S)5); s.img(out); } break;
            case 5: { const Gray<T>& a=in(); ConvolveNormalized::convolve(k,a,out,store); s.img(out); s.img(store); } break;
            case 6: BlurImageOps::mean(in(),out,(uint32_t)r,store); s.img(out); s.img(store); break;
            case 7: BlurImageOps::gaussian(in(),out,g.chance(50)?-1.0:r/3.0,2*r+1,store); s.img(out); break;
            case 8: { const Gray<T>& a=in(); ThresholdOps::threshold(a,(T)g.range(0,200),down,bin); s.img(bin); GlobalOtsuBinaryFilter<T> f((T)0,(T)220,down); f.process(a,bin); s.img(bin); s.put(ThresholdOps::computeOtsu(a,(T)0,(T)220,!down)); } break;
            case 9: lm.down=down; lm.regionWidth=ConfigLength(r+2.0,-1); rej(s,[&]{ lm.process(in(),bin); s.img(bin); }); ThresholdOps::localMean(in(),bin,ConfigLength(3,0.3),0.9f,down,store,tmp); s.img(bin); break;
            case 10: { Ticked<ThresholdBlockMean<T>,T> f(ConfigLength(r+2.0,-1),g.chance(50),0.95,down); block(s,f); } break;
            case 11: { Ticked<ThresholdBlockMinMax<T>,T> f(5.0f,ConfigLength(r+2.0,-1),g.chance(50),0.95f,down); block(s,f); } break;
            case 12: { Ticked<ThresholdBlockOtsu<T>,T> f(down,ConfigLength(r+5.0,-1),0.5,0.95,down,g.chance(50)); block(s,f); } break;
            case 13: case 14: { finder.setConnectRule(g.chance(50)?FOUR:EIGHT); finder.saveInternalContours=g.chance(70); finder.maxContourSize=g.chance(30)?50:1000000; finder.process(P.bin[g.below(2)],labels); s.img(labels); tick();
                for(auto& c:finder.contours) { s.put(c.id); s.put(c.externalIndex); for(auto i:c.internalIndexes) s.put(i); } for(uint32_t i=0;i<finder.packedPoints.number_of_sets();i++) for(uint32_t j=0;j<finder.packedPoints.set_info[i].size;j++) { auto& p=finder.packedPoints.at(i,j); s.put(p.x); s.put(p.y); } } break;
            case 15: { const Gray<U8>&a=P.bin[0],&b=P.bin[1]; bin.reshape(a.width,a.height); BinaryImageOps::logicAnd(a,b,bin); s.img(bin); BinaryImageOps::logicOr(a,b,bin); s.img(bin); BinaryImageOps::erode4(a,bin); s.img(bin); BinaryImageOps::dilate4(b,bin); s.img(bin); } break;
            case 16: { const Gray<T>& a=in(); s.put(ImageStatistics::min(a)); s.put(ImageStatistics::max(a)); s.put(ImageStatistics::sum(a)); s.put(ImageStatistics::mean(a)); GrowArray<uint32_t> h(256); ImageStatistics::histogram(a,(T)0,h); s.arr(h); } break;
            case 17: { out.reshape((uint32_t)g.range(1,40),(uint32_t)g.range(1,40)); TickRng q((uint32_t)g.next()); ImageMiscOps::fill_uniform(out,(T)0,(T)100,q); s.img(out); ImageMiscOps::fill_border(out,(T)7,(uint32_t)r); s.img(out); ImageMiscOps::fill(out,(T)r); s.img(out); Kernel1D<S> kk(9u); KernelOps::fill_uniform(kk,(S)0,(S)50,q); s.arr(kk.data); } break;
            case 18: { int w=2*r+1; for( int n=0;n<3;n++ ) { auto a=FactoryKernel::gaussian1D<F32>(r/2.0+n,w); s.arr(a.data); auto b=FactoryKernel::gaussian1D<S32>(-1,w); s.arr(b.data); auto c=FactoryKernel::gaussian2D<F64>(r/2.0,w); s.arr(c.data); auto d=FactoryKernel::mean1D<F32>((uint32_t)w); s.arr(d.data); tick(); auto e=FactoryKernel::table1D<S32>((uint32_t)r); s.arr(e.data); auto f=FactoryKernel::gaussian2D<S32>(1+r/3.0,-1); s.arr(f.data); } } break;
            case 19: { if(g.chance(30)) ps.clear(); for(int n=0;n<r;n++) { ps.start_new_set(); for(int q=g.range(0,15);q>0;q--) ps.push_tail(g.range(0,9)); if(g.chance(20)) ps.remove_tail(); tick(); } for(uint32_t i=0;i<ps.number_of_sets();i++) { std::vector<int> v; ps.load_set(i,v); for(int x:v) s.put(x); }
                for(uint32_t i=0;i<P.sets.set_info.size();i++) { std::vector<int> v; P.sets.load_set(i,v); for(int x:v) s.put(x); } } break;
            case 20: { ga.default_value=(T)r; ga.resize((uint32_t)g.range(0,60)); s.arr(ga); GrowArray<T> c(P.arr); tick(); c.resize(c.size+5); s.arr(c); ga=P.arr; s.arr(ga); ga.set(P.arr.data,P.arr.size); ga.fill((T)3); s.arr(ga); } break;
            case 21: { out.copy(in()); s.img(out); tick(); Gray<T> v(P.im[1]); s.img(v); Gray<T> q(1,1); q=P.im[0].makeSubimage(0,0,1,1); s.img(q); inter.setTo(P.inter); s.put(inter.at(0,0,inter.num_bands-1)); planar.setTo(P.planar); s.img(planar.getBand(0)); convert_average(P.inter,out); s.img(out); } break;
            case 22: { ComputeOtsu o(down,r/4.0,g.chance(50),0.95); uint32_t n=0; for(uint32_t q=0;q<P.hist.size;q++) n+=P.hist[q]; GrowArray<uint32_t> h(P.hist); o.compute(h,n); s.put(o.threshold); s.put(o.variance); for(int q=0;q<20;q++) s.put(ConfigLength(r,q/20.0).computeI(100+q)); } break;
            default: { for( auto& b : P.borders ) for(int q=0;q<60;q++) s.put(b->get(g.range(-90,160),g.range(-90,160))); for(int q=0;q<20;q++) s.put(P.ticking.get(g.range(-9,99),g.range(-9,99))); }
        }
        tick();
    }
};
#endif
