// Conformance harness for PackedSet (specification: PackedSets / PackedSetTrace)
#include "tr.h"
#include "packed_sets.h"
#include "geometry_types.h"
using namespace boofcv;
using namespace tr;

// element types: an element is made from and read back as an integer
template<class T> struct El { static T mk(int v) { return (T)v; } static long long rd(const T& t) { return (long long)t; } };
template<> struct El<Point2D<S32>> {
    static Point2D<S32> mk(int v) { return Point2D<S32>(v,-7*v); }
    static long long rd(const Point2D<S32>& p) { return p.y == -7*p.x ? p.x : -999999; }
};

template<class T> struct Driver {
    std::unique_ptr<PackedSet<T>> ps, old;
    std::vector<uint32_t> shadow;     // sizes only, used to choose arguments (the specification is the oracle)
    struct R { int id; T* p; uint32_t i,j; };
    std::vector<R> refs;
    int nextRef = 0;
    bool dumps = true;

    void create(uint32_t block, bool def) {
        if( def ) ps.reset(new PackedSet<T>()); else ps.reset(new PackedSet<T>(block));
        old.reset(); shadow.clear(); refs.clear(); nextRef = 0;
        Ev("init").i("block",def?0:block);
    }
    void report(Ev& ev) { report(ev,*ps); }
    void report(Ev& ev, PackedSet<T>& of) {
        PackedSet<T>* ps = &of;
        ev.i("n",ps->number_of_sets()).i("tail",ps->size_of_tail());
        if( !dumps ) return;
        std::vector<std::vector<long long>> d, at;
        uint32_t n = ps->number_of_sets();
        for( uint32_t i=0;i<n && i<100000;i++ ) {
            std::vector<T> o; ps->load_set(i,o);
            std::vector<long long> r, a;
            for( auto& x : o ) r.push_back(El<T>::rd(x));
            for( uint32_t j=0;j<o.size();j++ ) a.push_back(El<T>::rd(ps->at(i,j)));
            d.push_back(r); at.push_back(a);
        }
        ev.aa("dump",d).aa("at",at);
    }
    void drop(uint32_t from) { std::vector<R> k; for( auto& r : refs ) if( r.i < from ) k.push_back(r); refs = k; }
    void start() { ps->start_new_set(); shadow.push_back(0); Ev e("start"); report(e); }
    void push(int v) { ps->push_tail(El<T>::mk(v)); if(shadow.empty()) shadow.push_back(0); shadow.back()++; Ev e("push"); e.i("v",v); report(e); }
    void pushn(int v, int n) {
        for( int k=0;k<n;k++ ) ps->push_tail(El<T>::mk(v+k));
        if(shadow.empty()) shadow.push_back(0); shadow.back()+=n; Ev e("pushn"); e.i("v",v).i("count",n); report(e);
    }
    void remove() { ps->remove_tail(); if(!shadow.empty()) shadow.pop_back(); drop((uint32_t)shadow.size()); Ev e("remove"); report(e); }
    void clear() { ps->clear(); shadow.clear(); drop(0); Ev e("clear"); report(e); }
    void write(uint32_t i, const std::vector<long long>& v) {
        std::vector<T> in; for( auto x : v ) in.push_back(El<T>::mk((int)x));
        bool rej=false; try { ps->write_set(i,in); } catch( std::exception& ) { rej = true; }
        Ev e("write"); e.i("i",i).a("v",v).t("rej",rej); report(e);
    }
    void set(uint32_t i, uint32_t j, int v) {
        bool rej=false; try { ps->at(i,j) = El<T>::mk(v); } catch( std::exception& ) { rej = true; }
        Ev e("set"); e.i("i",i).i("j",j).i("v",v).t("rej",rej); report(e);
    }
    static bool isFar(uint32_t a) { return a > 1000000000u; }
    void get(uint32_t i, uint32_t j) {
        bool rej=false; long long v=0; try { v = El<T>::rd(ps->at(i,j)); } catch( std::exception& ) { rej = true; }
        bool far = isFar(i) || isFar(j);
        Ev e("get"); e.t("far",far).i("i",far?0:i).i("j",far?0:j).t("rej",rej).i("v",v); report(e);
    }
    void load(uint32_t i) {
        bool rej=false; std::vector<T> o; try { ps->load_set(i,o); } catch( std::exception& ) { rej = true; }
        std::vector<long long> r; for( auto& x : o ) r.push_back(El<T>::rd(x));
        bool far = isFar(i);
        Ev e("load"); e.t("far",far).i("i",far?0:i).t("rej",rej).a("v",r); report(e);
    }
    void ref(uint32_t i, uint32_t j) {
        refs.push_back({nextRef++,&ps->at(i,j),i,j});
        Ev("ref").i("r",refs.back().id).i("i",i).i("j",j);
    }
    void deref(size_t k) { Ev("deref").i("r",refs[k].id).i("v",El<T>::rd(*refs[k].p)); }
    void refwrite(size_t k, int v) { *refs[k].p = El<T>::mk(v); Ev e("refwrite"); e.i("r",refs[k].id).i("v",v); report(e); }

    // a copy takes the place of the container (made or assigned), which is put aside
    void copy(uint32_t block) {
        std::unique_ptr<PackedSet<T>> q;
        if( block==0 ) q.reset(new PackedSet<T>(*ps)); else { q.reset(new PackedSet<T>(block)); for( uint32_t k=0;k<block+2;k++ ) { if(k%3==0) q->start_new_set(); q->push_tail(El<T>::mk(3)); } *q = *ps; }
        old = std::move(ps); ps = std::move(q); refs.clear(); Ev e("copy"); e.i("block",block); report(e);
    }
    void aside() { Ev e("aside"); report(e,*old); }
    void restore() { *ps = *old; refs.clear(); shadow.clear(); for( auto& q : old->set_info ) shadow.push_back(q.size); Ev e("restore"); report(e); }
    void same() { PackedSet<T>& q = *ps; *ps = q; refs.clear(); Ev e("same"); report(e); }

    void replay(const Val& ops, uint32_t block) {
        create(block,false);
        for( auto& o : ops.a ) {
            std::string op = o["op"].s;
            if( op=="start" ) start();
            else if( op=="push" ) push((int)o["v"].n);
            else if( op=="remove" ) remove();
            else if( op=="clear" ) clear();
            else if( op=="write" ) { std::vector<long long> v; for( auto& x : o["v"].a ) v.push_back(x.n); write((uint32_t)o["i"].n,v); }
            else if( op=="set" ) set((uint32_t)o["i"].n,(uint32_t)o["j"].n,(int)o["v"].n);
            else if( op=="copy" ) copy((uint32_t)o["block"].n);
            else if( op=="restore" ) restore();
            else fatal("op "+op);
        }
        if( old ) aside();
    }
    void random(Rng& g, uint32_t block, bool def, int steps, int maxRun) {
        create(block,def);
        int v = 1;
        for( int s=0;s<steps;s++ ) {
            uint32_t n = (uint32_t)shadow.size();
            int maxv = std::is_same<T,U8>::value ? 200 : 30000;
            v = v % maxv + 1;
            int k = g.range(0,99);
            if( k < 14 ) start();
            else if( k < 40 ) push(v);
            else if( k < 50 ) { int c = g.range(1,maxRun); if( v+c > maxv ) v = 1; pushn(v,c); v += c; }
            else if( k < 58 ) remove();
            else if( k < 60 ) clear();
            else if( k < 68 && n ) {
                uint32_t i = g.below(n); std::vector<long long> w(shadow[i]);
                for( auto& x : w ) { x = v; v = v % maxv + 1; }
                if( g.chance(20) ) { if( g.chance(50) || w.empty() ) w.push_back(1); else w.pop_back(); }
                if( g.chance(10) ) i = n + g.below(2);
                write(i,w);
            }
            else if( k < 74 && n ) {
                uint32_t i = g.below(n), j = shadow[i] ? g.below(shadow[i]) : 0;
                if( g.chance(20) ) j = shadow[i] + g.below(2);
                set(i,j,v);
            }
            else if( k < 80 ) {
                uint32_t i = g.below(n+1), j = i<n ? g.below(shadow[i]+2) : g.below(2);
                int z = g.range(0,9);
                if( z == 0 ) i = 0xFFFFFFFFu; else if( z == 1 ) j = 0xFFFFFFFFu; else if( z == 2 ) j = 0x80000000u;
                get(i,j);
            }
            else if( k < 84 ) { uint32_t i = g.below(n+2); if( g.chance(10) ) i = 0xFFFFFFFFu; load(i); }
            else if( k < 90 && n ) { uint32_t i = g.below(n); if( shadow[i] ) ref(i,g.below(shadow[i])); }
            else if( k < 92 ) copy(g.chance(50)?0:(uint32_t)g.range(1,7));
            else if( k < 93 && old ) { aside(); if( g.chance(60) ) restore(); else same(); }
            else if( k < 96 && !refs.empty() ) deref(g.below((uint32_t)refs.size()));
            else if( !refs.empty() ) refwrite(g.below((uint32_t)refs.size()),v);
        }
        for( size_t k=0;k<refs.size();k++ ) deref(k);
        if( old ) aside();
    }
    void starts(int n) { for( int k=0;k<n;k++ ) { ps->start_new_set(); shadow.push_back(0); } Ev e("starts"); e.i("count",n); report(e); }
    void touch(Rng& g, uint32_t i, int v) {
        uint32_t j = g.chance(50) ? shadow[i]-1 : g.below(shadow[i]);
        ref(i,j); get(i,j); get(i,shadow[i]); set(i,j,v); set(i,shadow[i],v);
    }
    // more elements in a set, or more sets, than sixteen bits can count
    void huge(Rng& g, uint32_t block, bool sets) {
        dumps = false;
        create(block,false);
        if( sets ) {
            starts(g.range(3,70)); push(5); starts(66000); push(7); push(8); start(); pushn(1,g.range(2,5));
            for( int k=0;k<4;k++ ) { uint32_t n=(uint32_t)shadow.size(), i=n-1-g.below(2); touch(g,i,k+20); load(i); load(n); write(i,std::vector<long long>(shadow[i],40+k)); }
            get(70000,0); remove(); push(9); load((uint32_t)shadow.size()-1); remove(); remove(); start(); push(3); load((uint32_t)shadow.size()-1); get(0,0); load(0);
        } else {
            pushn(1,g.range(1,9)); start(); pushn(1,20000); pushn(5,20000); push(2); pushn(9,26000+g.range(0,2000)); touch(g,1,11); touch(g,1,12); get(1,65535); get(1,65536); set(1,65536+g.range(0,99),77);
            start(); pushn(100,g.range(1,40)); touch(g,2,13); remove(); push(4); load(1); load(0); touch(g,0,14); starts(2); push(6);
            for( uint32_t i=0;i<shadow.size();i++ ) if( i!=1 ) load(i);
        }
        for( size_t k=0;k<refs.size();k++ ) deref(k);
        dumps = true;
    }
    // long histories: sets which span many blocks, storage which grows while references are held
    void big(Rng& g, uint32_t block, bool def, int total) {
        dumps = false;
        create(block,def);
        int done = 0;
        while( done < total ) {
            if( g.chance(40) ) start();
            int c = g.range(1,std::max(2,total/4));
            pushn(done % 20000 + 1,c); done += c;
            uint32_t n = (uint32_t)shadow.size();
            uint32_t i = g.below(n);
            if( shadow[i] ) { ref(i,g.below(shadow[i])); get(i,shadow[i]-1); get(i,shadow[i]); set(i,g.below(shadow[i]),777); }
            if( g.chance(25) ) remove();
            if( g.chance(5) ) clear();
            for( size_t k=0;k<refs.size();k++ ) deref(k);
        }
        for( uint32_t i=0;i<shadow.size();i++ ) load(i);
        if( g.chance(50) ) { copy(g.chance(50)?0:(uint32_t)g.range(1,900)); start(); pushn(7,g.range(1,total/4)); for( uint32_t i=0;i<shadow.size();i++ ) load(i); restore(); for( uint32_t i=0;i<shadow.size();i++ ) load(i); }
        dumps = true;
    }
};

int main(int argc, char** argv) {
    init(argc,argv);
    std::string mode = opt().s("mode","random");
    long long N = opt().i("n",200);
    uint64_t seed = (uint64_t)opt().i("seed",1);
    Shard sh;
    if( mode == "script" ) {
        auto sc = script();
        int blocks = (int)opt().i("blocks",3);
        for( size_t k=0;k<sc.size();k++ ) for( int b=0;b<blocks;b++ ) {
            if( !sh.take() ) continue;
            uint32_t block = blocks==1 ? 1 + (uint32_t)(k%3) : 1+b;
            switch( (k+b)%3 ) {
                case 0: { Driver<int> d; d.replay(sc[k],block); } break;
                case 1: { Driver<Point2D<S32>> d; d.replay(sc[k],block); } break;
                default: { Driver<U8> d; d.replay(sc[k],block); }
            }
        }
    } else if( mode == "random" ) {
        for( long long k=0;k<N;k++ ) {
            if( !sh.take() ) continue;
            Rng g(seed*1000003+k);
            uint32_t block = (uint32_t)g.range(1,k%4==0?17:5);
            int steps = g.range(20,60), run = g.range(1,12);
            switch( k%4 ) {
                case 0: { Driver<int> d; d.random(g,block,false,steps,run); } break;
                case 1: { Driver<Point2D<S32>> d; d.random(g,block,false,steps,run); } break;
                case 2: { Driver<S16> d; d.random(g,block,k%24==2,steps,run); } break;
                default: { Driver<U8> d; d.random(g,block,false,steps,run); }
            }
        }
    } else if( mode == "big" ) {
        for( long long k=0;k<N;k++ ) {
            if( !sh.take() ) continue;
            Rng g(seed*7919+k);
            if( k%3==0 ) { Driver<Point2D<S32>> d; d.big(g,2000,true,9000); }
            else if( k%3==1 ) { Driver<int> d; d.big(g,(uint32_t)g.range(1,64),false,1500); }
            else { Driver<int> d; d.big(g,(uint32_t)g.range(100,1200),false,5000); }
        }
    } else if( mode == "huge" ) {
        for( long long k=0;k<N;k++ ) {
            if( !sh.take() ) continue;
            Rng g(seed*104729+k);
            uint32_t block = (uint32_t)(g.chance(50)?g.range(1,300):g.range(60000,80000));
            if( (k/2)%2==0 ) { Driver<int> d; d.huge(g,block,k%2==0); } else { Driver<Point2D<S32>> d; d.huge(g,block,k%2==0); }
        }
    } else fatal("mode");
    return 0;
}
