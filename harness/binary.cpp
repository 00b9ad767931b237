// Conformance harness for binary logic and morphology (specification: Binary / BinaryTrace)
#include "canvas.h"
#include <functional>
#include <memory>
#include "sanity_checks.h"
#include "binary_ops.h"
using namespace boofcv;
using namespace tr;
typedef Canvas<U8> C;
static const char* NONE = "{\"k\":[0,0,0,0],\"b\":[],\"a\":[]}";
static const char* OPS[] = {"and","or","erode","dilate"};
static void doCase(Rng& g,int op,int w,int h,const std::vector<int>& pa,const std::vector<int>& pb,int alias,Place P[3],int w2,int h2,int wo,int ho) {
    C a,b,o;
    auto noise=[&]{ return (U8)g.range(0,1); };
    a.make(g,w,h,P[0],noise); a.set([&](int x,int y){ return (U8)pa[y*w+x]; });
    if( op<2 ) { b.make(g,w2,h2,P[1],noise); b.set([&](int x,int y){ return (U8)pb[(y*w2+x)%std::max<size_t>(1,pb.size())]; }); }
    o.make(g,wo,ho,P[2],[&]{ return (U8)g.range(0,255); });
    a.snap(); if(op<2) b.snap(); o.snap();
    C& out = alias==1 ? a : alias==2 ? b : o;
    std::vector<long long> k0{out.koff(),out.kstr(),(long long)out.img->width,(long long)out.img->height};
    bool rej=false;
    try { switch(op) { case 0: BinaryImageOps::logicAnd(*a,*b,*out); break; case 1: BinaryImageOps::logicOr(*a,*b,*out); break;
                       case 2: BinaryImageOps::erode4(*a,*out); break; default: BinaryImageOps::dilate4(*a,*out); } }
    catch( std::exception& ) { rej=true; }
    bool resized = k0[2]!=(long long)out.img->width || k0[3]!=(long long)out.img->height;
    Ev("op").s("op",OPS[op]).i("alias",alias).t("rej",rej).t("resized",resized).a("k0",k0).raw("ia",a.json()).t("two",op<2).raw("ib",op<2?b.json():NONE).raw("out",alias?NONE:o.json()).a("res",(*out).data==nullptr?std::vector<U8>():out.pixels());
}
// the checks every operation with several images starts with
static void guards(Rng& g) {
    std::vector<std::vector<long long>> d; std::vector<std::unique_ptr<Gray<U8>>> v; int w=g.range(0,5),h=g.range(0,5);
    for( int k=0;k<3;k++ ) { int a=w,b=h; if( g.chance(30) ) { if( g.chance(50) ) a=g.range(0,5); else b=g.range(0,5); if( g.chance(15) ) { a=h; b=w; } if( g.chance(10) ) { a+=65536*g.range(0,1); b=1; } } v.emplace_back(new Gray<U8>((uint32_t)a,(uint32_t)b)); d.push_back({a,b}); }
    auto rej=[](std::function<void()> f) { try { f(); return false; } catch( std::exception& ) { return true; } };
    bool two=rej([&]{ checkSameShape(*v[0],*v[1]); }), three=rej([&]{ checkSameShape(*v[0],*v[1],*v[2]); });
    Ev("guard").aa("shapes",d).t("two",two).t("three",three);
}
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="exhaustive" ) {
        int mp=(int)opt().i("maxpx",9),lp=(int)opt().i("logicpx",3);
        for( int h=0;h<=mp;h++ ) for( int w=0;w<=mp;w++ ) { if(w*h>mp||(w*h==0&&(w>3||h>3))) continue;
            for( uint64_t v=0;v<(1ull<<(w*h));v++ ) for( int op=0;op<4;op++ ) {
                if( op<2 && w*h>lp ) continue;
                for( uint64_t u=0;u<(op<2?(1ull<<(w*h)):1);u++ ) {
                    if( !sh.take() ) continue;
                    Rng g(seed*31+sh.c); std::vector<int> pa,pb; for( int k=0;k<w*h;k++ ) { pa.push_back((v>>k)&1); pb.push_back((u>>k)&1); }
                    Place P[3]={place(g),place(g),place(g)};
                    doCase(g,op,w,h,pa,pb,op<2?g.range(0,2):0,P,w,h,w,h);
                } } }
    } else for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k); if( k%29==3 ) { guards(g); continue; } int op=g.range(0,3),mx=k%25==0?40:11;
        int w=g.range(0,mx),h=g.range(0,mx); if(g.chance(10)) w=1; if(g.chance(10)) h=1; if(g.chance(10)) h=2; if( k%211==7 ) longShape(g,w,h,1500); if( k%499==9 ) { hugeShape(g,w,h,3); op=(int)(k/499%4); }
        int d=g.range(10,97);
        std::vector<int> pa,pb; for( int j=0;j<w*h;j++ ) { pa.push_back(g.chance(d)); pb.push_back(g.chance(50)); }
        Place P[3]={place(g),place(g),place(g)};
        int w2=w,h2=h,wo=w,ho=h,alias=op<2?g.range(0,3)%3:0;
        if( op<2 && g.chance(15) ) { w2=g.range(0,mx); h2=g.range(0,mx); if(g.chance(50)) { w2=h; h2=w; } if(pb.empty()) pb.push_back(1); }
        if( P[2]!=VIEW && g.chance(40) ) { wo=g.range(0,mx+3); ho=g.range(0,mx); }
        doCase(g,op,w,h,pa,pb,alias,P,w2,h2,wo,ho);
    }
    return 0;
}
