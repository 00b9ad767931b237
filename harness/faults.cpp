// Conformance harness for calls which run out of memory (specification: Faults / FaultTrace)
#include "work.h"
#include "typed.h"
#include <new>
// ---- memory which runs out at a chosen request
static long LIVE=0,COUNT=0,FAIL=0; static bool ARMED=false,STRUCK=false;
static void* request(size_t n) { if( ARMED ) { COUNT++; if( FAIL && COUNT==FAIL ) { STRUCK=true; throw std::bad_alloc(); } } void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); LIVE++; return p; }
static void giveBack(void* p) { if(!p) return; LIVE--; free(p); }
void* operator new(size_t n) { return request(n); }
void* operator new[](size_t n) { return request(n); }
void operator delete(void* p) noexcept { giveBack(p); }
void operator delete[](void* p) noexcept { giveBack(p); }
void operator delete(void* p,size_t) noexcept { giveBack(p); }
void operator delete[](void* p,size_t) noexcept { giveBack(p); }
struct Act { int op; uint64_t seed; };
enum { MORE=14, ALL=OPS+MORE };
template<class T> struct Scene : Worker<T> {
    typedef Worker<T> W; typedef typename TypeInfo<T>::signed_type S; using W::P; using W::g; using W::out; using W::store; using W::tmp; using W::bin; using W::labels; using W::finder; using W::ps; using W::ga; using W::inter; using W::planar; using W::lm;
    Kernel1D<S> k1{3u}; Kernel2D<S> k2{2u};
    using W::W;
    uint32_t some(int lo,int hi) { return (uint32_t)g.range(lo,hi); }
    void call(int op,Numbers& s) {
        if( op<OPS ) { W::call(op,s); return; }
        auto shape=[&](const ImageBase& q) { s.put(q.width); s.put(q.height); s.put(q.stride); };
        const Gray<T>& a=this->in();
        switch( op-OPS ) {
            case 0: out.reshape(some(0,40),some(0,40)); store.reshape(some(0,70),some(0,9)); out.reshape(some(0,70),some(0,70)); shape(out); shape(store); break;
            case 1: { Gray<T> q(some(0,30),some(0,30)); q.copy(a); Gray<T> c(q); s.img(c); out=c; s.img(out); Gray<T> l({{(T)1,(T)2,(T)3},{(T)4,(T)5,(T)6}}); s.img(l); bool r=false; try { Gray<T> u({{(T)1,(T)2,(T)3},{(T)4,(T)5}}); } catch( std::bad_alloc& ) { throw; } catch( std::exception& ) { r=true; } s.put(r); } break;
            case 2: inter.reshape(some(0,30),some(0,30)); inter.setNumberOfBands(some(0,5)); inter.reshape(some(0,30),some(0,30),some(0,5)); shape(inter); inter.setNumberOfBands(some(0,6)); shape(inter); s.put(inter.num_bands); break;
            case 3: { Interleaved<T> q(P.inter); s.put(q.width); inter=q; s.put(inter.at(0,0,0)); Interleaved<T> e(some(1,9),some(1,9),some(1,4)); e.setTo(P.inter); s.put(e.at(0,0,e.num_bands-1)); } break;
            case 4: planar.setNumberOfBands(some(1,5)); planar.reshape(some(0,30),some(0,30)); shape(planar); planar.setNumberOfBands(some(0,7)); s.put(planar.num_bands); for( uint32_t b=0;b<planar.num_bands;b++ ) shape(planar.getBand(b)); break;
            case 5: { Planar<Gray<T>> q(P.planar); s.img(q.getBand(0)); Planar<Gray<T>> e(some(1,20),some(1,20),some(0,4)); e=q; s.img(e.getBand(e.num_bands-1)); planar.setTo(e); s.img(planar.getBand(0)); } break;
            case 6: ga.resize(some(0,30)); ga.grow_array(some(0,60)); s.put(ga.size); ga.resize(some(0,90)); s.put(ga.size); break;
            case 7: { GrowArray<T> q(some(0,20)); q.fill((T)4); GrowArray<T> c(q); s.arr(c); ga=c; s.arr(ga); ga.set(P.arr.data,P.arr.size); s.arr(ga); GrowArray<T> l{(T)1,(T)2}; ga.setTo({(T)1,(T)2,(T)3,(T)4,(T)5,(T)6,(T)7,(T)8,(T)9}); s.arr(ga); s.arr(l); } break;
            case 8: { uint32_t w=some(1,20); k1.reshape(w,some(0,(int)w-1)); w=some(1,20); k1.reshape(w,some(0,(int)w-1)); w=some(1,9); k2.reshape(w,some(0,(int)w-1)); w=some(1,9); k2.reshape(w,some(0,(int)w-1)); for( int q : {(int)k1.width,(int)k1.offset,(int)k1.data.size,(int)k2.width,(int)k2.offset,(int)k2.data.size} ) s.put(q); } break;
            case 9: { k1=P.k1[g.below(5)]; k2=*P.k2[g.below(3)]; Kernel1D<S> a1(P.k1[4]); k1=a1; Kernel2D<S> a2(*P.k2[2]); k2=a2; s.arr(k1.data); s.arr(k2.data); Kernel1D<S> l1(1,{(S)1,(S)2,(S)3}); Kernel2D<S> l2(0,{{(S)1,(S)2},{(S)3,(S)4}}); s.arr(l1.data); s.arr(l2.data); } break;
            case 10: { PackedSet<int> q(some(1,6)); int v=0; for( int n=0;n<4;n++ ) { q.start_new_set(); ps.start_new_set(); for( int k=g.range(0,9);k>0;k-- ) { q.push_tail(v); ps.push_tail(v++); } } PackedSet<int> c(q); auto all=[&](PackedSet<int>& z) { for( uint32_t i=0;i<z.number_of_sets();i++ ) { std::vector<int> l; z.load_set(i,l); for( int x:l ) s.put(x); } }; all(q); c.push_tail(-1); ps=c; all(ps); } break;
            case 11: { LinearContourLabelChang2004 f(g.chance(50)?FOUR:EIGHT); f.setConnectRule(g.chance(50)?FOUR:EIGHT); f.process(P.bin[0],labels); s.img(labels); f.setConnectRule(g.chance(50)?FOUR:EIGHT); f.process(P.bin[1],labels); s.img(labels); s.put(f.contours.size()); } break;
            case 12: { for( BorderType b : {EXTENDED,REFLECT,WRAP,ZERO} ) { auto q=FactoryImageBorder::create_SB<T>(b); q->setImage(a); s.put(q->get(-1,-1)); } auto q=FactoryImageBorder::value_SB<T>((T)7); q->setImage(a); s.put(q->get(-1,0)); } break;
            default: { ThresholdBlockMean<T> m(ConfigLength(5,-1),true,1.0,true); ThresholdBlockMinMax<T> n(3.0f,ConfigLength(4,-1),false,1.0f,false); ThresholdBlockOtsu<T> o(false,ConfigLength(9,-1),0.0,1.0,true,true); ThresholdBlockMean<T> c(m); this->block(s,m); this->block(s,n); this->block(s,o); this->block(s,c); }
        }
    }
    // every object is what it says it is
    bool sound() {
        volatile long long sum=0; bool ok=true;
        auto img=[&](auto& q) { for( uint32_t y=0;y<q.height;y++ ) for( uint32_t x=0;x<q.width;x++ ) sum=sum+(long long)q.at(x,y); };
        try {
            img(out); img(store); img(tmp); img(bin); img(labels);
            for( uint32_t y=0;y<inter.height;y++ ) for( uint32_t x=0;x<inter.width;x++ ) for( uint32_t b=0;b<inter.num_bands;b++ ) sum=sum+(long long)inter.at(x,y,b);
            for( uint32_t b=0;b<planar.num_bands;b++ ) { ok=ok&&planar.getBand(b).width==planar.width&&planar.getBand(b).height==planar.height; img(planar.getBand(b)); }
            for( uint32_t k=0;k<ga.size;k++ ) sum=sum+(long long)ga.at(k);
            ok=ok&&k1.data.size==k1.width&&k2.data.size==k2.width*k2.width; for( uint32_t k=0;k<k1.width;k++ ) sum=sum+(long long)k1.at(k); for( uint32_t y=0;y<k2.width;y++ ) for( uint32_t x=0;x<k2.width;x++ ) sum=sum+(long long)k2.at(x,y);
            for( uint32_t i=0;i<ps.number_of_sets();i++ ) for( uint32_t k=0;k<ps.set_info[i].size;k++ ) sum=sum+ps.at(i,k);
            for( uint32_t i=0;i<finder.packedPoints.number_of_sets();i++ ) for( uint32_t k=0;k<finder.packedPoints.set_info[i].size;k++ ) sum=sum+finder.packedPoints.at(i,k).x;
        } catch( std::exception& ) { ok=false; }
        return ok;
    }
    // a request of memory is refused (0: none). True: the call gave up
    bool attempt(const Act& a,long fail,Sink& k) {
        g=Rng(a.seed); ps.clear(); ga.resize(0); lm.storage1.reshape(1,1); bool gone=false; Numbers s(k);
        COUNT=0; FAIL=fail; STRUCK=false; ARMED=true; try { call(a.op,s); } catch( std::bad_alloc& ) { gone=true; } ARMED=false; return gone; }
};
template<class T> struct Play {
    Pool<T> P; std::vector<long long> before; std::vector<Act> acts; std::vector<long> need; std::unique_ptr<Scene<T>> scene; long at=0; uint64_t seed;
    Play(Rng& g) : P(g),seed(g.next()>>8) { before=P.digest(); Ev("init").s("t",tname<T>()); }
    // what the call gives on fresh objects, and how often it asks for memory
    void alone(const Act& a) { Sink k; long was=LIVE,n=0,left; { Scene<T> s(P,seed); s.attempt(a,0,k); n=COUNT; } left=LIVE-was; acts.push_back(a); need.push_back(n); Ev("alone").i("op",a.op).i("n",n).a("r",k.out()).i("left",left); }
    void make() { at=LIVE; scene.reset(new Scene<T>(P,seed)); Ev("make"); }
    void attempt(int k,long fail) { Sink s; long n; bool gone=scene->attempt(acts[(size_t)k],fail,s), hit=STRUCK; n=COUNT; bool ok=scene->sound(); Ev("try").i("k",k+1).i("fail",fail).i("n",n).t("hit",hit).t("gone",gone).a("r",gone?std::vector<long long>{}:s.out()).t("sound",ok).t("kept",P.digest()==before); }
    void drop() { scene.reset(); Ev("drop").i("left",LIVE-at); }
};
// every request of one call is refused once; the objects do the same call then, and another one
template<class T> void every(Rng& g,int op,long most) {
    Play<T> p(g); p.alone({op,g.next()>>8}); p.alone({g.range(0,ALL-1),g.next()>>8}); long n=p.need[0]; p.make();
    for( long j=1;j<=n && j<=most;j++ ) { if( j>1 && g.chance(70) ) { p.drop(); p.make(); } p.attempt(0,n>most?g.range(1,(int)n):j); if( g.chance(50) ) p.attempt(1,0); p.attempt(0,0); if( g.chance(30) ) p.attempt(1,0); }
    p.drop();
}
// a given history: pairs of call and which of its requests is refused (0: none, 1: the first ones, 2: the last ones, 3: any)
template<class T> void history(Rng& g,const std::vector<std::pair<int,int>>& h) {
    Play<T> p(g); int calls=0; for( auto& q : h ) calls=std::max(calls,q.first); int same=g.chance(60)?g.range(0,ALL-1):-1;
    for( int k=0;k<calls;k++ ) p.alone({same>=0?same:g.range(0,ALL-1),g.next()>>8});
    p.make(); for( auto& q : h ) { long n=p.need[(size_t)q.first-1]; long lo=g.range(1,4), any=n>0?1+(long)(g.next()%(uint64_t)n):1; p.attempt(q.first-1,q.second==0?0:q.second==1?std::min(lo,std::max(n,1L)):q.second==2?std::max(1L,n+1-lo):any); } p.drop();
}
template<class F> void byType(long long k,F f) { switch(k%5) { case 0: f((U8*)nullptr); break; case 1: f((F32*)nullptr); break; case 2: f((S16*)nullptr); break; case 3: f((S32*)nullptr); break; default: f((U16*)nullptr); } }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="every" ) for( long long k=0,N=opt().i("n",10);k<N;k++ ) { if(!sh.take()) continue; Rng g(seed*7919+k); byType(k/ALL,[&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type T; every<T>(g,(int)(k%ALL),opt().i("most",20)); }); }
    else if( mode=="history" ) { auto sc=script(); for( size_t k=0;k<sc.size();k++ ) { if(!sh.take()) continue; Rng g(seed*104729+k); std::vector<std::pair<int,int>> h; for( auto& x : sc[k].a ) h.push_back({(int)x.a[0].n,(int)x.a[1].n});
        byType((long long)k,[&](auto* p) { typedef typename std::remove_pointer<decltype(p)>::type T; history<T>(g,h); }); } }
    else fatal("mode");
    return 0;
}
