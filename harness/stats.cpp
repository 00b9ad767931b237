// Conformance harness for statistics and fills of images (specification: Stats / StatTrace)
#include "canvas.h"
#include <algorithm>
#include "image_statistics.h"
#include "image_misc_ops.h"
using namespace boofcv;
using namespace tr;
template<class T> long long rdFloor(T v) { return (long long)std::floor((double)v*4.0); }   // only for fractions of a quarter
static int dim(Rng& g,int mx) { if( mx<1 ) mx=1; int v=g.range(1,mx); if(g.chance(12)) v=1; if(g.chance(8)) v=2; return v; }
// a distribution of pixel values which often leaves one sign, one value or only extremes
template<class T> struct Dist {
    int lo,hi,kind; Dist(Rng& g,int a,int b) { kind=g.range(0,5); lo=a; hi=b; if(kind==0&&a<0) hi=-1; if(kind==1) { lo=hi=g.range(a,b); } if(kind==2) lo=std::max(a,b-g.range(0,5)); if(kind==3) hi=std::min(b,a+g.range(0,5)); }
    int operator()(Rng& g) { return kind==4 ? (g.chance(50)?lo:hi) : g.range(lo,hi); }
};
template<class T> struct Raw { static int lo() { return std::is_unsigned<T>::value?0:sizeof(T)==2?-32768:std::is_floating_point<T>::value?-2000:-100000; }
                               static int hi() { return sizeof(T)==1?255:std::is_same<T,int16_t>::value?32767:sizeof(T)==2?65535:std::is_floating_point<T>::value?2000:100000; } };
template<class T> struct Sums { enum { ok=1 }; }; template<> struct Sums<uint32_t> { enum { ok=0 }; };
template<class T,int OK> struct Mean {
    static void sum(Canvas<T>& c,bool enc) {
        auto s = ImageStatistics::sum(*c); long long v;
        if( std::is_floating_point<T>::value ) v = (long long)std::llround((double)s*(enc?4:1)*64)%64==0 ? (long long)std::llround((double)s*(enc?4:1)) : -7777777;
        else { long long u = enc?Enc<T>::unit():1, x=(long long)s; v = x%u==0 ? x/u : -7777777; }
        Ev("sum").s("t",tname<T>()).i("v",v).raw("im",c.json());
    }
    static void mean(Canvas<T>& c) {
        T m = ImageStatistics::mean(*c); double n=(double)c.img->width*c.img->height;
        if( std::is_floating_point<T>::value ) Ev("meanf").s("t",tname<T>()).i("v",(long long)std::llround(std::max(-2.1e9,std::min(2.1e9,(double)m*n*16)))).raw("im",c.json());
        else Ev("mean").s("t",tname<T>()).i("v",(long long)m).raw("im",c.json());
    }
};
template<class T> struct Mean<T,0> { static void sum(Canvas<T>&,bool) {} static void mean(Canvas<T>&) {} };
template<class T> void stats(Rng& g,int mx) {
    int w=dim(g,mx),h=dim(g,mx); bool lng=mx<0; if( lng ) longShape(g,w,h); if( mx==-2&&w<h || mx==-3&&w>h ) std::swap(w,h); if( mx==-4 ) hugeShape(g,w,h); Canvas<T> c; Place p=place(g);
    bool enc=g.chance(50);
    int lo=enc?Enc<T>::lo():Raw<T>::lo(), hi=enc?Enc<T>::hi():Raw<T>::hi();
    if( sizeof(T)==4 && enc && !std::is_floating_point<T>::value && w*h>100 ) enc=false;
    if( !enc ) { lo=Raw<T>::lo(); hi=Raw<T>::hi(); if( w*h>2000 ) { lo=std::max(lo,-20000); hi=std::min(hi,20000); }
        // sums which every order of additions computes exactly in a float
        if( std::is_floating_point<T>::value ) { int m=(1<<24)/std::max(1,w*h); lo=std::max(lo,-m); hi=std::min(hi,m); } }
    auto mk=[&](int k){ return enc?Enc<T>::mk(k):(T)k; };
    c.make(g,w,h,p,[&]{ return mk(g.chance(50)?(g.chance(50)?lo:hi):g.range(lo,hi)); });
    c.rd = enc?&Enc<T>::rd:&rawOf<T>;
    Dist<T> d(g,lo,hi); if( lng && g.chance(mx==-1?50:70) ) { d.kind=2; d.hi=hi; d.lo=std::max(lo,hi-g.range(0,5)); } c.set([&](int,int){ return mk(d(g)); });
    c.snap();
    auto rd=[&](T v){ return enc?Enc<T>::rd(v):(long long)v; };
    { T v=ImageStatistics::min(*c); Ev("min").s("t",tname<T>()).i("v",rd(v)).raw("im",c.json()); }
    { T v=ImageStatistics::max(*c); Ev("max").s("t",tname<T>()).i("v",rd(v)).raw("im",c.json()); }
    Mean<T,Sums<T>::ok>::sum(c,enc);
    if( !enc ) Mean<T,Sums<T>::ok>::mean(c);
    // histogram
    int range=g.range(1,g.chance(20)?200:sizeof(T)>1&&g.chance(15)?1200:12), base=std::is_unsigned<T>::value?g.range(0,40):g.range(-60,40);
    if( sizeof(T)==1 ) range=std::min(range,255-base);
    c.rd=&rawOf<T>; c.set([&](int,int){ return (T)g.range(base,base+range-1); });
    for( size_t k=0;k<c.len();k++ ) if( Enc<T>::rd(c.cell(k)) > 1000000 ) c.cell(k)=(T)0;
    c.snap();
    for( auto& x : c.before ) if( (double)x>2e9||(double)x<-2e9 ) { x=(T)0; }
    for( size_t k=0;k<c.len();k++ ) c.cell(k)=c.before[k];
    GrowArray<uint32_t> hist((uint32_t)range+(g.chance(30)?g.range(1,5):0)); for( uint32_t k=0;k<hist.size;k++ ) hist[k]=(uint32_t)g.range(0,9);
    ImageStatistics::histogram(*c,(T)base,hist);
    std::vector<long long> hv; for( uint32_t k=0;k<hist.size;k++ ) hv.push_back(hist[k]);
    Ev("hist").s("t",tname<T>()).i("base",base).a("v",hv).raw("im",c.json());
}
template<class T> void fills(Rng& g,int mx,int what,int w,int h,int radius) {
    int lo=Enc<T>::lo(),hi=Enc<T>::hi(); auto any=[&]{ return Enc<T>::mk(g.range(lo,hi)); };
    if( what==3 ) {
        // interleaved: a row of a pixel run is w*bands samples
        int nb=g.range(1,4); Place p=place(g); std::vector<T> mem; std::unique_ptr<Interleaved<T>> im; int off=0,stride=w*nb; T* d; size_t n;
        if( p==VIEW ) { int l=g.range(0,5),r=g.range(0,5),t=g.range(0,2),b=g.range(0,2),lead=g.range(0,3); if( g.chance(25) ) lead=l=t=0; stride=w*nb+l+r; off=lead+t*stride+l; mem.resize((size_t)lead+stride*(h+t+b));
            im.reset(new Interleaved<T>(mem.data(),(uint32_t)mem.size(),(uint32_t)w,(uint32_t)h,(uint32_t)nb,(uint32_t)off,(uint32_t)stride)); d=mem.data(); n=mem.size(); }
        else { im.reset(new Interleaved<T>((uint32_t)w+(p==LARGER?2:0),(uint32_t)h+(p==LARGER?1:0),(uint32_t)nb)); im->reshape((uint32_t)w,(uint32_t)h,(uint32_t)nb); d=im->data; n=im->data_length; }
        for( size_t k=0;k<n;k++ ) d[k]=any();
        std::vector<T> before(d,d+n); int v=g.range(lo,hi);
        ImageMiscOps::fill(*im,Enc<T>::mk(v));
        std::vector<T> after(im->data,im->data+im->data_length);
        std::vector<long long> k{(long long)im->offset,(long long)im->stride,(long long)im->width*im->num_bands,(long long)im->height};
        std::string s="{\"k\":["; for( int j=0;j<4;j++ ) { if(j) s+=','; num(s,k[j]); }
        s+="],\"b\":"+jarr(before,&Enc<T>::rd)+",\"a\":"+jarr(after,&Enc<T>::rd)+"}";
        std::vector<long long> kk{off,stride,(long long)w*nb,h};
        Ev("fill").s("t",tname<T>()).i("bands",nb).i("v",v).a("k",kk).raw("im",s);
        return;
    }
    Canvas<T> c; Place p=place(g); c.make(g,w,h,p,any); c.set([&](int,int){ return any(); }); c.snap();
    std::vector<long long> kk{c.off,c.stride,w,h};
    int v=g.range(lo,hi);
    if( what==0 ) { ImageMiscOps::fill(*c,Enc<T>::mk(v)); Ev("fill").s("t",tname<T>()).i("bands",0).i("v",v).a("k",kk).raw("im",c.json()); }
    else if( what==1 ) { ImageMiscOps::fill_border(*c,Enc<T>::mk(v),(uint32_t)radius); Ev("border").s("t",tname<T>()).i("v",v).i("r",radius).a("k",kk).raw("im",c.json()); }
    else {
        bool fl=std::is_floating_point<T>::value;
        int a=std::is_unsigned<T>::value?g.range(0,200):g.range(-120,100), b=std::min(sizeof(T)==1?255:1000000,a+g.range(1,g.chance(50)?3:60)); if( b<=a ) b=a+1;
        // contents outside the range so that a pixel which is not set shows
        c.rd = fl?&rdFloor<T>:&rawOf<T>;
        for( size_t k=0;k<c.len();k++ ) { int x; do x=sizeof(T)==1?g.range(0,255):std::is_unsigned<T>::value?g.range(0,900):g.range(-900,900); while( x>=a&&x<b ); c.cell(k)=fl?(T)(x*0.25):(T)x; }
        c.snap();
        std::mt19937 rng((uint32_t)g.next());
        ImageMiscOps::fill_uniform(*c,fl?(T)(a*0.25):(T)a,fl?(T)(b*0.25):(T)b,rng);
        Ev("uniform").s("t",tname<T>()).i("lo",a).i("hi",b).a("k",kk).raw("im",c.json());
    }
}
template<class T> void fillAny(Rng& g,int mx) { int w=g.range(0,mx),h=g.range(0,mx); if( mx<0 ) { longShape(g,w,h); if( mx==-2&&w<h || mx==-3&&w>h ) std::swap(w,h); if( mx==-4 ) hugeShape(g,w,h); mx=g.pick(std::vector<int>{9,300}); } else if(g.chance(90)) { w=dim(g,mx); h=dim(g,mx); } fills<T>(g,mx,g.range(0,3),w,h,g.chance(85)?g.range(0,std::max(w,h)/2+1):g.range(0,mx+3)); }
// sums beyond 31 bits: every row has one value, so that the sum divided by the width is the sum of the rows' values. Values are multiples of a unit
template<class T> void bright(Rng& g,long long unit,int lo,int hi,double most,bool mean) {
    int h=g.range(3,40); std::vector<long long> v; long long total=0; bool neg=std::is_signed<T>::value&&g.chance(50); for( int y=0;y<h;y++ ) { v.push_back(neg?-g.range(lo,hi):g.range(lo,hi)); total+=std::abs(v.back()); }
    double low=most/2; int w=(int)((low+low*(g.range(0,999)/1000.0))/((double)total*(double)unit)); if( w<1 ) w=1;
    Gray<T> a((uint32_t)w,(uint32_t)h); for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) a.data[(size_t)y*w+x]=(T)(v[(size_t)y]*unit);
    typename TypeInfo<T>::sum_type s=ImageStatistics::sum(a); __int128 S=(__int128)s, W=(__int128)w*unit;
    Ev e("bright"); e.s("t",tname<T>()).i("w",w).a("v",v).i("q",(long long)(S/W)).t("whole",S%W==0).t("mn",ImageStatistics::min(a)==(T)(*std::min_element(v.begin(),v.end())*unit)).t("mx",ImageStatistics::max(a)==(T)(*std::max_element(v.begin(),v.end())*unit));
    std::vector<long long> m,c; if( mean ) m.push_back((long long)(ImageStatistics::mean(a)/(T)unit));
    if( unit==1 && !neg ) { GrowArray<uint32_t> hist((uint32_t)(hi-lo+1)); ImageStatistics::histogram(a,(T)lo,hist); for( auto x : v ) c.push_back(hist[(uint32_t)(x-lo)]%(uint32_t)w?-1:hist[(uint32_t)(x-lo)]/(uint32_t)w); }
    e.a("mean",m).a("count",c);
}
#define TYPES(F,...) switch(ty) { case 0: F<uint8_t>(__VA_ARGS__); break; case 1: F<int16_t>(__VA_ARGS__); break; case 2: F<uint16_t>(__VA_ARGS__); break; \
    case 3: F<int32_t>(__VA_ARGS__); break; case 4: F<int16_t>(__VA_ARGS__); break; case 5: F<int64_t>(__VA_ARGS__); break; case 6: F<float>(__VA_ARGS__); break; default: F<double>(__VA_ARGS__); }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="borders" ) {          // every small shape and radius
        int m=(int)opt().i("max",7);
        for( int w=1;w<=m;w++ ) for( int h=1;h<=m;h++ ) for( int r=0;r<=m+1;r++ ) for( int rep=0;rep<2;rep++ ) {
            if( !sh.take() ) continue; Rng g(seed*31+sh.c); int ty=g.range(0,7); TYPES(fills,g,m,1,w,h,r) }
    } else if( mode=="bright" ) {
        for( long long k=0,N=opt().i("n",24);k<N;k++ ) { if( !sh.take() ) continue; Rng g(seed*1299709+k);
            switch( k%6 ) { case 0: bright<U8>(g,1,200,255,4.29e9,true); break; case 1: bright<U16>(g,1,60000,65535,4.29e9,true); break; case 2: bright<S16>(g,1,30000,32767,2.14e9,true); break;
                case 3: bright<S32>(g,1,100000,102000,2.14e9,true); break; case 4: bright<S64>(g,1LL<<31,20000,30000,4e18,true); break; default: bright<F64>(g,1LL<<20,1000,9000,8e15,false); } }
    } else if( mode=="long" ) {       // more than 8 or 16 bits of columns or rows
        for( long long k=0,N=opt().i("n",96);k<N;k++ ) { if( !sh.take() ) continue; Rng g(seed*104729+k); int ty=(int)(k%8), mx=k>=N-8?-4:k/8%2?-2:-3; if( k/16%3<2 ) TYPES(stats,g,mx) else TYPES(fillAny,g,mx) }
    } else for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k); int ty=(int)(k/2%8), mx=k%60==1?60:k/2%97==3?-1:9;
        if( k%2==0 ) TYPES(stats,g,k%120==0?70:mx) else TYPES(fillAny,g,mx)
    }
    return 0;
}
