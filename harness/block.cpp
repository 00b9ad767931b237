// Conformance harness for the block thresholds (specification: Blocks / BlockTrace)
#include "canvas.h"
#include "threshold_block_filters.h"
using namespace boofcv;
using namespace tr;
template<class T> long long rdQ(T v) { return (long long)std::llround((double)v*4.0); }
struct Cfg { int kind,len4,frac64,sc,ms4,k; bool local,down,otsu2; };
static Cfg config(Rng& g,int kind) {
    Cfg c; c.kind=kind; c.len4=g.chance(85)?4*g.range(1,6)+g.range(-1,2):g.range(-4,40); c.frac64=g.chance(65)?-1:g.range(0,64);
    if( c.frac64>=0 ) { c.len4=g.range(0,12); if(g.chance(70)) c.frac64=g.range(6,30); }
    c.local=g.chance(60); c.down=g.chance(50); c.otsu2=g.chance(50);
    c.sc = kind==1 ? g.pick(std::vector<int>{16,16,15,14,12,20,24}) : g.pick(std::vector<int>{64,64,64,60,61,48,32,70,96,128});
    c.ms4 = g.chance(30)?-4:g.chance(20)?-g.range(1,9):g.chance(30)?0:g.range(0,60); c.k = g.chance(50)?0:g.range(1,3);
    return c;
}
template<class T> InputToBinary<Gray<T>>* mk(const Cfg& c);
template<class T> struct Make { static ThresholdBlockCommon<Gray<T>,Interleaved<T>>* vals(const Cfg& c) {
    ConfigLength w(c.len4/4.0,c.frac64<0?-1.0:c.frac64/64.0);
    if( c.kind==0 ) return new ThresholdBlockMean<T>(w,c.local,c.sc/64.0,c.down);
    return new ThresholdBlockMinMax<T>(c.ms4/4.0f,w,c.local,c.sc/64.0f,c.down); }
    static ThresholdBlockCommon<Gray<T>,Interleaved<S32>>* hist(const Cfg& c) {
    ConfigLength w(c.len4/4.0,c.frac64<0?-1.0:c.frac64/64.0);
    return new ThresholdBlockOtsu<T>(c.otsu2,w,c.k/4.0,c.sc/16.0,c.down,c.local); } };
// the public settings of a filter may change between two calls
template<class T,class F> void retune(Rng& g,Cfg& c,F* f) {
    Cfg n=config(g,c.kind);
    if( g.chance(50) ) { c.len4=n.len4; c.frac64=n.frac64; f->requestedBlockWidth=ConfigLength(c.len4/4.0,c.frac64<0?-1.0:c.frac64/64.0); }
    if( auto* m=dynamic_cast<ThresholdBlockMean<T>*>(f) ) { if(g.chance(50)) m->scale=(float)((c.sc=n.sc)/64.0); if(g.chance(50)) m->down=c.down=n.down; }
    else if( auto* m=dynamic_cast<ThresholdBlockMinMax<T>*>(f) ) { if(g.chance(50)) m->scale=(c.sc=n.sc)/64.0f; if(g.chance(50)) m->down=c.down=n.down; if(g.chance(50)) m->minimumSpread=(c.ms4=n.ms4)/4.0f; }
    else if( auto* m=dynamic_cast<ThresholdBlockOtsu<T>*>(f) ) { if(g.chance(50)) { c.otsu2=n.otsu2; c.k=n.k; c.sc=n.sc; c.down=n.down; m->otsu=ComputeOtsu(c.otsu2,c.k/4.0,c.down,c.sc/16.0); } }
    else fatal("retune");
}
static const char* KIND[]={"mean","otsu","minmax"};
template<class T,class F> void rounds(Rng& g,Cfg c,F* f,int mx) {
    std::unique_ptr<F> own(f); bool real=std::is_floating_point<T>::value;
    for( int n=g.range(1,3);n>0;n-- ) {
        int w=g.range(1,mx),h=g.range(1,mx); if( mx>=48 ) { w=g.range(mx/2,mx); h=g.range(mx/2,mx); } if(g.chance(4)) w=0; if(g.chance(4)) h=0; if( mx>=20 && g.chance(15) ) longShape(g,w,h,c.kind==1?300:500);
        int unit = real && c.kind!=0 ? 4 : 1;       // pixels in quarters
        // Otsu: values close together so that exact comparisons stay small
        int span = c.kind==1 ? g.range(1,std::max(1,std::min(c.k?std::min(250,2000/std::max(1,w*h)):250,180000/std::max(1,w*h*w*h)))) : 0;
        int lo,hi; if( c.kind==1 ) { lo=g.range(0,255-span); hi=lo+span; } else { lo=std::is_signed<T>::value?-90:0; hi=sizeof(T)==1?255:real?250:700; if( mx>=48 ) lo=hi-g.range(5,60); else if(g.chance(50)) { lo=g.range(lo,hi); hi=std::min(hi,lo+g.range(0,20)); } }
        lo*=unit; hi=hi*unit+(unit-1);
        Canvas<T> im; im.rd = unit==4?&rdQ<T>:&rawOf<T>;
        auto mkv=[&](int v){ return unit==4?(T)(v*0.25):(T)v; };
        im.make(g,w,h,place(g),[&]{ return mkv(g.range(lo,hi)); });
        int kind=g.range(0,3),a=g.range(lo,hi),cell=g.range(1,5);
        uint64_t salt=g.next();
        im.set([&](int x,int y){ int v; if(kind==0) v=g.range(lo,hi); else if(kind==1) v=a; else { Rng q(salt+(uint64_t)(x/cell)*131+(uint64_t)(y/cell)*7177); v=q.range(lo,hi); if(kind==3&&g.chance(30)) v=g.range(lo,hi); } return mkv(v); });
        im.snap();
        Canvas<U8> o; int ow=w,oh=h; if(g.chance(10)) { ow=g.range(0,mx); oh=g.range(0,mx); }
        o.make(g,ow,oh,place(g),[&]{ return (U8)g.range(2,255); }); o.snap();
        std::vector<long long> k0{(long long)o.off,(long long)o.stride,ow,oh};
        bool rej=false; try { f->process(*im,*o); } catch( std::exception& ) { rej=true; }
        std::vector<long long> lim{ sizeof(T)==1?0:-1000000, sizeof(T)==1?255:1000000 };
        Ev("block").s("kind",KIND[c.kind]).s("t",tname<T>()).i("len4",c.len4).i("frac64",c.frac64).i("sc",c.sc).i("ms4",c.ms4).i("k",c.k).i("unit",unit).t("otsu2",c.otsu2)
            .t("local",f->isThresholdFromLocalBlocks()).t("down",c.down).t("real",real).t("rej",rej).a("lim",lim).a("k0",k0).raw("im",im.json()).raw("out",o.json()).a("res",o.pixels());
        if( g.chance(30) ) { bool l=g.chance(50); f->setThresholdFromLocalBlocks(l); }
        if( mx<48 && g.chance(40) ) retune<T>(g,c,f);
    }
}
// blocks of many pixels: sums which need more than sixteen bits
template<class T> void vals(Rng& g,int kind,int mx) { Cfg c=config(g,kind); if( mx>=48 ) { c.frac64=-1; c.len4=4*g.range(16,mx/2+4); }
    if( kind==0 && std::is_floating_point<T>::value && mx>14 ) mx=14; rounds<T>(g,c,Make<T>::vals(c),mx); }
template<class T> void hist(Rng& g,int mx) { Cfg c=config(g,1); rounds<T>(g,c,Make<T>::hist(c),mx); }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k); int mx=k%30==0?(mode=="otsu"?20:24):mode!="otsu"&&k%47==13?60:12;
        if( mode=="mean" || mode=="minmax" ) { int kd=mode=="mean"?0:2;
            switch(k%6) { case 0: vals<U8>(g,kd,mx); break; case 1: vals<F32>(g,kd,mx); break; case 2: vals<S16>(g,kd,mx); break; case 3: vals<U16>(g,kd,mx); break; case 4: vals<S32>(g,kd,mx); break; default: vals<U8>(g,kd,mx); } }
        else if( mode=="otsu" ) { if(k%3) hist<U8>(g,mx); else hist<F32>(g,mx); }
        else fatal("mode");
    }
    return 0;
}
