// Conformance harness for GrowArray (specification: GrowArrays / GrowArrayTrace)
#include "tr.h"
#include "typed.h"
#include "base_types.h"
using namespace boofcv;
using namespace tr;

template<class T> struct Driver {
    typedef Enc<T> E;
    struct Obj { std::unique_ptr<GrowArray<T>> a; std::unique_ptr<std::vector<T>> mem; };
    std::map<int,Obj> o;

    void report(Ev& ev) {
        std::vector<int> ids; std::vector<long long> sizes,caps; std::vector<std::vector<long long>> els, at, mem;
        for( auto& p : o ) {
            ids.push_back(p.first);
            GrowArray<T>& g = *p.second.a;
            sizes.push_back(g.size); caps.push_back(g.array_length);
            std::vector<long long> a,b,m;
            for( uint32_t k=0;k<g.size && k<100000;k++ ) { a.push_back(E::rd(g[k])); b.push_back(E::rd(g.at(k))); }
            if( p.second.mem ) for( auto& x : *p.second.mem ) m.push_back(E::rd(x));
            els.push_back(a); at.push_back(b); mem.push_back(m);
        }
        ev.a("ids",ids).a("sizes",sizes).a("caps",caps).aa("els",els).aa("at",at).aa("mem",mem);
    }
    GrowArray<T>& A(int a) { return *o.at(a).a; }
    void reset() { o.clear(); Ev("init").s("type",tname<T>()); }
    void mk(int a, int n) { o[a].a.reset(n==10 ? new GrowArray<T>() : new GrowArray<T>((uint32_t)n)); o[a].mem.reset(); Ev e("new"); e.i("a",a).i("n",n); report(e); }
    void list(int a, int v0, int n) {
        auto m = [&](int k){ return E::mk(v0+k); };
        std::vector<int> v; for( int k=0;k<n;k++ ) v.push_back(v0+k);
        GrowArray<T>* g = n==0 ? new GrowArray<T>(std::initializer_list<T>{}) : n==1 ? new GrowArray<T>({m(0)}) :
                n==2 ? new GrowArray<T>({m(0),m(1)}) : n==3 ? new GrowArray<T>({m(0),m(1),m(2)}) : new GrowArray<T>({m(0),m(1),m(2),m(3)});
        o[a].a.reset(g); o[a].mem.reset();
        Ev e("list"); e.i("a",a).a("v",v); report(e);
    }
    void wrap(int a, int v0, int len, int n) {
        std::vector<int> v; o[a].a.reset(); o[a].mem.reset(new std::vector<T>());
        for( int k=0;k<len;k++ ) { v.push_back(v0+k%90); o[a].mem->push_back(E::mk(v0+k%90)); }
        o[a].a.reset(new GrowArray<T>(o[a].mem->data(),(uint32_t)len,(uint32_t)n));
        Ev e("wrap"); e.i("a",a).a("v",v).i("n",n); report(e);
    }
    void copy(int a, int b) { auto* c = new GrowArray<T>(A(b)); o[a].a.reset(c); o[a].mem.reset(); Ev e("copy"); e.i("a",a).i("b",b); report(e); }
    void destroy(int a) {
        // memory of the caller must survive the array which wraps it
        std::unique_ptr<std::vector<T>> keep = std::move(o[a].mem);
        std::vector<T> before; if(keep) before = *keep;
        o.erase(a);
        if( keep && before != *keep ) fatal("memory of the caller modified");
        Ev e("destroy"); e.i("a",a); report(e);
    }
    void setdef(int a, int v) { A(a).default_value = E::mk(v); Ev e("default"); e.i("a",a).i("v",v); report(e); }
    template<class F> bool rej(F f) { try { f(); return false; } catch( std::exception& ) { return true; } }
    void resize(int a, int n) { bool r = rej([&]{ A(a).resize((uint32_t)n); }); Ev e("resize"); e.i("a",a).i("n",n).t("rej",r); report(e); }
    void grow(int a, int n) { bool r = rej([&]{ A(a).grow_array((uint32_t)n); }); Ev e("grow"); e.i("a",a).i("n",n).t("rej",r); report(e); }
    void fill(int a, int v) { A(a).fill(E::mk(v)); Ev e("fill"); e.i("a",a).i("v",v); report(e); }
    void setto(int a, const std::vector<int>& v) {
        auto m = [&](int k){ return E::mk(v[k]); };
        bool r = rej([&]{
            switch( v.size() ) {
                case 0: A(a).setTo({}); break; case 1: A(a).setTo({m(0)}); break; case 2: A(a).setTo({m(0),m(1)}); break;
                case 3: A(a).setTo({m(0),m(1),m(2)}); break; default: A(a).setTo({m(0),m(1),m(2),m(3),m(4)});
            } });
        Ev e("setto"); e.i("a",a).a("v",v).t("rej",r); report(e);
    }
    void set(int a, const std::vector<int>& v) {
        std::vector<T> src; for( int x : v ) src.push_back(E::mk(x)); src.push_back(E::mk(1));
        bool r = rej([&]{ A(a).set(src.data(),(uint32_t)v.size()); });
        Ev e("set"); e.i("a",a).a("v",v).t("rej",r); report(e);
    }
    // the source lies inside the array itself
    void selfset(int a, int k, int n) { bool r = rej([&]{ A(a).set(A(a).data+k,(uint32_t)n); }); Ev e("selfset"); e.i("a",a).i("k",k).i("n",n).t("rej",r); report(e); }
    void assign(int a, int b) { bool r = rej([&]{ A(a) = A(b); }); Ev e("assign"); e.i("a",a).i("b",b).t("rej",r); report(e); }
    void write(int a, int k, int v) { bool r = rej([&]{ A(a).at((uint32_t)k) = E::mk(v); }); Ev e("write"); e.i("a",a).i("k",k).i("v",v).t("rej",r); report(e); }
    void poke(int a, int k, int v) { A(a)[(uint32_t)k] = E::mk(v); Ev e("poke"); e.i("a",a).i("k",k).i("v",v); report(e); }
    void get(int a, uint32_t k) {
        long long v=0; bool r = rej([&]{ v = E::rd(A(a).at(k)); });
        bool far = k > 100000000u;
        Ev e("get"); e.i("a",a).t("far",far).i("k",far?0:k).t("rej",r).i("v",v); report(e);
    }
    void replay(const Val& ops) {
        reset(); mk(1,2); list(2,5,3);
        for( auto& q : ops.a ) {
            std::string op = q["op"].s; int a = (int)q["a"].n;
            std::vector<int> v; for( auto& x : q["v"].a ) v.push_back((int)x.n);
            if( op=="resize" ) resize(a,(int)q["n"].n);
            else if( op=="grow" ) grow(a,(int)q["n"].n);
            else if( op=="fill" ) fill(a,(int)q["v"].n);
            else if( op=="default" ) setdef(a,(int)q["v"].n);
            else if( op=="assign" ) assign(a,(int)q["b"].n);
            else if( op=="copy" ) copy(a,(int)q["b"].n);
            else if( op=="setto" ) setto(a,v);
            else if( op=="set" ) set(a,v);
            else if( op=="selfset" ) selfset(a,(int)q["k"].n,(int)q["n"].n);
            else if( op=="write" ) write(a,(int)q["k"].n,(int)q["v"].n);
            else fatal("op "+op);
            // what a later growth exposes
        }
        resize(1,6); resize(2,6);
    }
    int val(Rng& g) { return g.range(E::lo(),E::hi()); }
    // more elements than sixteen bits can count
    void huge(Rng& g) {
        reset(); mk(1,g.range(0,3)); setdef(1,val(g)); resize(1,g.range(65530,65540)); write(1,65529,val(g)); resize(1,66000+g.range(0,900));
        write(1,g.range(65536,65990),val(g)); get(1,65999); get(1,(uint32_t)A(1).size); copy(2,1); resize(1,g.range(1,5)); resize(1,66000);
        fill(2,val(g)); poke(2,65990,val(g)); o.erase(1); Ev e("destroy"); e.i("a",1); report(e); e.emit();
        mk(3,66000); write(3,65999,val(g)); selfset(3,g.range(1,400),65600); resize(3,66000); write(3,65999,val(g)); assign(3,2); grow(2,70000); resize(2,3); destroy(2); destroy(3);
        int len=g.range(65536,66500); wrap(4,g.range(1,20),len,g.range(65536,len)); fill(4,val(g)); write(4,65530+g.range(0,5),val(g)); resize(4,3); destroy(4);
        wrap(5,g.range(1,20),len,g.range(1,9)); poke(5,0,7); copy(6,5); std::vector<int> v; for( int k=0;k<66001;k++ ) v.push_back(k%3?1:g.range(2,9)); set(6,v); assign(6,5); set(5,v);
    }
    void random(Rng& g, int steps) {
        reset();
        for( int s=0;s<steps;s++ ) {
            int a = g.range(1,3);
            int big = g.chance(8) ? (g.chance(25)?300:70) : 8;
            if( !o.count(a) || g.chance(4) ) {
                int k = g.range(0,9), b = 0;
                std::vector<int> others; for( auto& p : o ) if( p.first != a ) others.push_back(p.first);
                if( !others.empty() ) b = g.pick(others);
                if( k < 3 ) mk(a,g.range(0,11));
                else if( k < 5 ) list(a,g.range(1,100),g.range(0,4));
                else if( k < 7 ) { int len = g.range(0,5); wrap(a,g.range(1,100),len,g.range(0,len)); }
                else if( b ) copy(a,b); else mk(a,3);
                continue;
            }
            GrowArray<T>& A_ = A(a);
            switch( g.range(0,13) ) {
                case 13: { int k=g.range(0,(int)A_.size); selfset(a,k,g.range(0,(int)A_.size-k)); } break;
                case 0: case 1: case 2: resize(a,g.range(0,big)); break;
                case 3: grow(a,g.range(0,big)); break;
                case 4: fill(a,val(g)); break;
                case 5: setdef(a,val(g)); break;
                case 6: { std::vector<int> v; for( int k=g.range(0,3);k>0;k-- ) v.push_back(val(g)); if( g.chance(10) ) v.assign(5,val(g)); setto(a,v); } break;
                case 7: { std::vector<int> v; for( int k=g.range(0,big);k>0;k-- ) v.push_back(val(g)); set(a,v); } break;
                case 8: { std::vector<int> c; for( auto& p : o ) c.push_back(p.first); assign(a,g.pick(c)); } break;
                case 9: write(a,A_.size?g.below(A_.size+1):0,val(g)); break;
                case 10: if( A_.size ) poke(a,g.below(A_.size),val(g)); break;
                case 11: { uint32_t k = g.below(A_.size+2); if( g.chance(20) ) k = 0xFFFFFFFFu; if( g.chance(5) ) k = 0x80000000u; get(a,k); } break;
                default: if( g.chance(25) ) destroy(a);
            }
        }
    }
};
template<class F> void byType(int k, F f) {
    switch( k%8 ) {
        case 0: { Driver<U8> d; f(d); } break;   case 1: { Driver<S16> d; f(d); } break;
        case 2: { Driver<U16> d; f(d); } break;  case 3: { Driver<S32> d; f(d); } break;
        case 4: { Driver<S64> d; f(d); } break;  case 5: { Driver<F32> d; f(d); } break;
        case 6: { Driver<F64> d; f(d); } break;  default: { Driver<uint32_t> d; f(d); }
    }
}
int main(int argc, char** argv) {
    init(argc,argv);
    Shard sh; uint64_t seed = (uint64_t)opt().i("seed",1);
    if( opt().s("mode") == "script" ) {
        auto sc = script();
        int types = (int)opt().i("types",1);
        for( size_t k=0;k<sc.size();k++ ) for( int t=0;t<types;t++ ) {
            if( !sh.take() ) continue;
            byType((int)(types==1 ? k : t),[&](auto& d) { d.replay(sc[k]); });
        }
    } else if( opt().s("mode") == "huge" ) {
        for( long long k=0,N=opt().i("n",8);k<N;k++ ) { if( !sh.take() ) continue; Rng g(seed*7919+k); byType((int)k,[&](auto& d) { d.huge(g); }); }
    } else {
        long long N = opt().i("n",100);
        for( long long k=0;k<N;k++ ) {
            if( !sh.take() ) continue;
            Rng g(seed*999983+k);
            byType((int)(k/8),[&](auto& d) { d.random(g,g.range(30,80)); });
        }
    }
    return 0;
}
