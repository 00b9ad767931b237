// Conformance harness for global, local-mean and Otsu thresholds (specification: Thresholds / ThresholdTrace)
#include "canvas.h"
#include "binary_ops.h"
using namespace boofcv;
using namespace tr;
static int dim(Rng& g,int mx) { int v=g.range(1,mx); if(g.chance(12)) v=1; if(g.chance(8)) v=2; return v; }
static Rng* NG; static U8 noiseU8() { return (U8)NG->range(0,255); }
struct OutImg {
    Canvas<U8> c; std::vector<long long> k0; bool view;
    void make(Rng& g,int w,int h) {     // usually the right shape, sometimes not
        NG=&g; int ow=w,oh=h; Place p=place(g);
        if( g.chance(35) ) { ow=g.range(0,w+4); oh=g.range(0,h+4); if(g.chance(30)) { ow=h; oh=w; } }
        c.make(g,ow,oh,p,noiseU8); view = p==VIEW; c.snap();
        k0 = {c.koff(),c.kstr(),(long long)ow,(long long)oh};
    }
    void put(Ev& e) { e.t("view",view).a("k0",k0).t("resized",k0[2]!=(long long)c.img->width||k0[3]!=(long long)c.img->height).raw("out",c.json()).a("res",c.pixels()); }
};
template<class T> struct Val { static int lo() { return Enc<T>::lo(); } static int hi() { return Enc<T>::hi(); } };
// an image of encoded values with many equal ones
template<class T> void content(Rng& g,Canvas<T>& c,int w,int h,int lo,int hi) {
    int kind=g.range(0,4), a=g.range(lo,hi), b=std::min(hi,a+g.range(0,4));
    c.set([&](int,int){ return Enc<T>::mk(kind==0?g.range(lo,hi):kind==1?a:kind==2?(g.chance(50)?lo:hi):g.range(a,b)); });
}
// an 8-bit image as its own output
template<class T> struct InPlace { static bool run(Rng&,GlobalFixedBinaryFilter<T>&,Canvas<T>&,T,int,bool,bool) { return false; } };
template<> struct InPlace<U8> { static bool run(Rng& g,GlobalFixedBinaryFilter<U8>& f,Canvas<U8>& c,U8 t,int code,bool down,bool filter) {
    if( !g.chance(20) ) return false;
    bool rej=false; try { if(filter) f.process(*c,*c); else ThresholdOps::threshold(*c,t,down,*c); } catch( std::exception& ) { rej=true; }
    Ev("inplace").i("v",code).t("down",down).t("filter",filter).t("rej",rej).raw("im",c.json()).a("res",c.pixels()); return true; } };
template<class T> void fixed(Rng& g,int mx) {
    bool filter=g.chance(50); int rounds=filter?g.range(1,4):1;
    int lo=Enc<T>::lo(),hi=Enc<T>::hi(), v=g.range(lo,hi), code; T t; bool down=g.chance(50);
    if( g.chance(12) ) { t=std::numeric_limits<T>::max(); code=sizeof(T)==1?255:1000000; } else if( g.chance(12) ) { t=std::numeric_limits<T>::lowest(); code=std::is_unsigned<T>::value?0:-1000000; }
    else { t=Enc<T>::mk(v); code=v; }
    GlobalFixedBinaryFilter<T> f(t,down);
    OutImg keep; bool have=false;
    for( int r=0;r<rounds;r++ ) {
        int w=g.range(0,mx),h=g.range(0,mx); if(g.chance(90)) { w=dim(g,mx); h=dim(g,mx); } if( mx==40 && g.chance(30) ) longShape(g,w,h); if( mx==41 && r==0 ) hugeShape(g,w,h);
        Canvas<T> c; c.make(g,w,h,place(g),[&]{ return Enc<T>::mk(g.range(lo,hi)); });
        content(g,c,w,h,lo,hi); if( g.chance(50) && w*h>0 ) c.set([&](int x,int y){ return g.chance(60)?c.img->unsafe_at(x,y):Enc<T>::mk(std::max(lo,std::min(hi,v+g.range(-1,1)))); });
        c.snap();
        if( filter && r>0 && g.chance(40) ) { if(g.chance(50)) f.down=down=!down; if(g.chance(50)) { code=v=g.range(lo,hi); f.threshold=t=Enc<T>::mk(v); } }
        if( InPlace<T>::run(g,f,c,t,code,down,filter) ) continue;
        std::unique_ptr<OutImg> fresh; OutImg* o=&keep;
        if( have && g.chance(60) && !keep.view ) { keep.c.snap(); keep.k0={keep.c.koff(),keep.c.kstr(),(long long)keep.c.img->width,(long long)keep.c.img->height}; }
        else if( !have ) { keep.make(g,w,h); have=true; } else { fresh.reset(new OutImg); fresh->make(g,w,h); o=fresh.get(); }
        bool rej=false;
        try { if(filter) f.process(*c,*o->c); else ThresholdOps::threshold(*c,t,down,*o->c); } catch( std::exception& ) { rej=true; }
        Ev e("threshold"); e.s("t",tname<T>()).i("v",code).t("down",down).t("filter",filter).t("rej",rej).raw("im",c.json()); o->put(e);
    }
}
template<class T> void local(Rng& g,int mx) {
    bool real=std::is_floating_point<T>::value;
    int len4=g.range(0,30), frac64=g.chance(50)?-1:g.range(0,80); if( frac64<0 && g.chance(80) ) len4=4*g.range(1,11)+g.range(-1,2);
    static const int SC[]={64,60,61,48,32,80,70,128,0}; int sc=SC[g.range(0,8)]; bool down=g.chance(50);
    ConfigLength width(len4/4.0,frac64<0?-1.0:frac64/64.0);
    LocalMeanBinaryFilter<T> f(width,sc/64.0f,down); bool filter=g.chance(60); int rounds=filter?g.range(1,4):1;
    for( int r=0;r<rounds;r++ ) {
        int w=dim(g,mx),h=dim(g,mx); if( mx==26 && g.chance(30) ) longShape(g,w,h,400); if( mx==27 && r==0 ) hugeShape(g,w,h);
        Canvas<T> c,s1,s2; int lo=std::is_signed<T>::value?-60:0, hi=sizeof(T)==1?255:real?250:900; if(g.chance(40)) { lo=g.range(lo,hi); hi=std::min(hi,lo+g.range(0,3)); }
        auto val=[&]{ return (T)g.range(lo,hi); };
        c.rd=s1.rd=s2.rd=&rawOf<T>;
        c.make(g,w,h,place(g),val); c.set([&](int,int){ return val(); }); c.snap();
        auto shape=[&](Canvas<T>& s){ Place p=place(g); bool same=p==VIEW||g.chance(50); s.make(g,same?w:g.range(0,mx),same?h:g.range(0,mx),p,val); };
        shape(s1); shape(s2);
        if( filter && r>0 && g.chance(40) ) { // the public settings of a filter may change between two calls
            if(g.chance(50)) { len4=4*g.range(0,11); frac64=g.chance(50)?-1:g.range(0,80); width=ConfigLength(len4/4.0,frac64<0?-1.0:frac64/64.0); f.regionWidth=width; }
            if(g.chance(50)) { sc=SC[g.range(0,8)]; f.scale=sc/64.0f; } if(g.chance(50)) f.down=down=!down; }
        OutImg o; o.make(g,w,h);
        bool bad=o.view&&(o.k0[2]!=w||o.k0[3]!=h), rej=false;
        try { if(filter) f.process(*c,*o.c); else ThresholdOps::localMean(*c,*o.c,width,sc/64.0f,down,*s1,*s2); } catch( std::exception& ) { rej=true; }
        Ev e("local"); e.s("t",tname<T>()).i("len4",len4).i("frac64",frac64).i("sc",sc).t("down",down).t("real",real).t("filter",filter).t("badview",bad).t("rej",rej).raw("im",c.json()); o.put(e);
    }
}
template<class T> void otsu(Rng& g,bool big) {
    static const int RANGES[]={1,2,3,5,8,16,16,40,100,256}; int R=RANGES[g.range(0,9)]; if( sizeof(T)==1 && R==256 ) R=256;
    int maxN = big?12:30; while( maxN*maxN/4*R > 46000 ) maxN--;
    int lo; if( sizeof(T)==1 ) lo=g.range(0,256-R); else if( std::is_same<T,U16>::value ) lo=g.chance(30)?65536-R:g.range(0,65536-R); else if( std::is_same<T,S16>::value ) lo=g.chance(30)?-32768:g.range(-32768,32768-R); else lo=g.range(-5000,5000);
    if( g.chance(30) && std::is_signed<T>::value ) lo=-g.range(0,R);
    int hi=lo+R-1;
    int a=g.range(lo,hi), b=g.range(lo,hi), kind=g.range(0,5);
    auto val=[&]()->int { if(kind==0) return a; if(kind==1) return g.chance(50)?a:b; if(kind==2) return std::min(hi,a+g.range(0,2)); if(kind==3) return g.chance(50)?lo:hi; return g.range(lo,hi); };
    GlobalOtsuBinaryFilter<T> f((T)lo,(T)hi,g.chance(50)); int rounds=big?1:g.range(1,3);
    for( int r=0;r<rounds;r++ ) {
        int n=g.range(1,maxN); int w=g.range(1,n),h=n/w; n=w*h;
        std::vector<int> px; for( int k=0;k<n;k++ ) px.push_back(val());
        int rw=1,rh=1; if( big ) { rw=g.range(40,200); rh=g.range(40,200); while( (long long)w*rw*h*rh > 1500000 ) { rw=rw*2/3; rh=rh*2/3; } }
        Canvas<T> c; c.rd=&rawOf<T>; c.make(g,w*rw,h*rh,big?EXACT:place(g),[&]{ return (T)g.range(lo,hi); });
        c.set([&](int x,int y){ return (T)px[(y/rh)*w+x/rw]; }); c.snap();
        for( int o2=0;o2<2;o2++ ) {
            int t=(int32_t)ThresholdOps::computeOtsu(*c,(T)lo,(T)hi,o2==1);
            Ev e("otsu"); e.s("t0",tname<T>()).i("lo",lo).i("hi",hi).t("otsu2",o2==1).i("t",t).i("rep",rw*rh).a("px",px);
            if( rw*rh==1 ) e.raw("im",c.json()); else { bool same=true; for( size_t k=0;k<c.len();k++ ) if( c.cell(k)!=c.before[k] ) same=false; e.raw("im",same?"{\"k\":[0,0,0,0],\"b\":[],\"a\":[]}":"{\"k\":[0,0,0,0],\"b\":[0],\"a\":[1]}"); }
        }
        if( rw*rh==1 ) {
            int t=(int32_t)ThresholdOps::computeOtsu(*c,(T)lo,(T)hi,false);
            OutImg o; o.make(g,w,h); bool rej=false;
            if( o.view && (o.k0[2]!=w||o.k0[3]!=h) ) continue;
            if( g.chance(30) ) f.down=!f.down;
            try { f.process(*c,*o.c); } catch( std::exception& ) { rej=true; }
            Ev e("filter"); e.s("t0",tname<T>()).i("lo",lo).i("hi",hi).t("otsu2",false).i("t",t).t("down",f.down).t("rej",rej).a("px",px).raw("im",c.json()); o.put(e);
        }
    }
}
static void compute(Rng& g) {
    bool plain=g.chance(40); static const int RANGES[]={1,2,3,5,7,30,64,256}; int R=plain?RANGES[g.range(0,7)]:(g.chance(50)?8:16);
    int maxN=plain?40:12; while( maxN*maxN/4*R > 46000 ) maxN--;
    bool o2=g.chance(50),down=g.chance(50); int k=plain?0:g.range(0,3), sc=plain?16:g.pick(std::vector<int>{16,15,14,12,8,20,24,0});
    int m=k==0&&g.chance(50)?g.range(1,100000):1;
    std::vector<long long> h(R,0); int n=g.range(1,maxN),kind=g.range(0,3),a=g.range(0,R-1),b=g.range(0,R-1);
    for( int j=0;j<n;j++ ) h[kind==0?a:kind==1?(g.chance(50)?a:b):g.range(0,R-1)]++;
    GrowArray<uint32_t> hist((uint32_t)R); for( int j=0;j<R;j++ ) hist[j]=(uint32_t)(h[j]*m);
    double T=-1;
    if( plain && g.chance(50) ) { ComputeOtsu o(o2,down); o.compute(hist,(uint32_t)(n*m)); T=o.threshold; }
    else { ComputeOtsu o(o2,k/4.0,down,sc/16.0); if( g.chance(40) ) { GrowArray<uint32_t> other((uint32_t)g.range(1,9)); other.fill(1); o.compute(other,other.size); } o.compute(hist,(uint32_t)(n*m)); T=o.threshold; }
    long long t=(long long)T; if( (double)t!=T || T>2e9 || T<-2e9 ) t=-77777;
    Ev("compute").a("h",h).i("mult",m).t("otsu2",o2).t("down",down).i("k",k).i("sc",sc).i("t",t);
}
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k);
        if( mode=="fixed" ) { int mx=k%503==9?41:k%50==0?40:9; switch(k%8) { case 0: fixed<U8>(g,mx); break; case 1: fixed<S16>(g,mx); break; case 2: fixed<U16>(g,mx); break; case 3: fixed<S32>(g,mx); break;
            case 4: fixed<S16>(g,mx); break; case 5: fixed<S64>(g,mx); break; case 6: fixed<F32>(g,mx); break; default: fixed<F64>(g,mx); } }
        else if( mode=="local" ) { int mx=k%601==9?27:k%40==0?26:9; switch(k%6) { case 0: local<U8>(g,mx); break; case 1: local<U16>(g,mx); break; case 2: local<S16>(g,mx); break; case 3: local<F32>(g,mx); break; case 4: local<S32>(g,mx); break; default: local<U8>(g,mx); } }
        else if( mode=="otsu" ) { switch(k%6) { case 0: otsu<U8>(g,false); break; case 1: otsu<S16>(g,false); break; case 2: otsu<U16>(g,false); break; case 3: otsu<S32>(g,false); break; case 4: otsu<F32>(g,false); break; default: otsu<U8>(g,false); } }
        else if( mode=="big" ) { if(k%2) otsu<U8>(g,true); else otsu<S16>(g,true); }
        else if( mode=="compute" ) compute(g);
        else fatal("mode");
    }
    return 0;
}
