// Conformance harness for Gray, Interleaved and Planar images (specification: Images / ImageTrace)
#include "tr.h"
#include "typed.h"
#include "base_types.h"
#include "image_types.h"
#include "image_convert.h"
using namespace boofcv;
using namespace tr;

// one interface to the three kinds of image
template<class T> struct GrayK {
    typedef Gray<T> I; typedef T P; enum { KIND=0 };
    static I* mk(int w, int h, int) { return w==0 && h==0 ? new I() : new I((uint32_t)w,(uint32_t)h); }
    static I* wrap(T* d, int len, int w, int h, int, int off, int stride) { return new I(d,(uint32_t)len,(uint32_t)w,(uint32_t)h,(uint32_t)off,(uint32_t)stride); }
    static T& at(I& im, uint32_t x, uint32_t y, uint32_t b) { if(b) throw std::invalid_argument("band"); return im.at(x,y); }
    static T& un(I& im, uint32_t x, uint32_t y, uint32_t) { return im.unsafe_at(x,y); }
    static T ix(I& im, uint32_t x, uint32_t y, uint32_t) { return im.data[im.index_of(x,y)]; }
    static int nb(I&) { return 1; }
    static I* sub(I& im, int x0, int y0, int x1, int y1) { return new I(im.makeSubimage((uint32_t)x0,(uint32_t)y0,(uint32_t)x1,(uint32_t)y1)); }
    static void reshape(I& im, int w, int h, int, int) { im.reshape((uint32_t)w,(uint32_t)h); }
    static void copy(I& a, I& b) { a.copy(b); }
};
template<class T> struct InterK {
    typedef Interleaved<T> I; typedef T P; enum { KIND=1 };
    static I* mk(int w, int h, int nb) { return w==0 && h==0 && nb==0 ? new I() : new I((uint32_t)w,(uint32_t)h,(uint32_t)nb); }
    static I* wrap(T* d, int len, int w, int h, int nb, int off, int stride) { return new I(d,(uint32_t)len,(uint32_t)w,(uint32_t)h,(uint32_t)nb,(uint32_t)off,(uint32_t)stride); }
    static T& at(I& im, uint32_t x, uint32_t y, uint32_t b) { return im.at(x,y,b); }
    static T& un(I& im, uint32_t x, uint32_t y, uint32_t b) { return im.unsafe_at(x,y,b); }
    static T ix(I& im, uint32_t x, uint32_t y, uint32_t b) { return im.data[im.index_of(x,y,b)]; }
    static int nb(I& im) { return (int)im.num_bands; }
    static I* sub(I& im, int x0, int y0, int x1, int y1) { return new I(im.makeSubimage((uint32_t)x0,(uint32_t)y0,(uint32_t)x1,(uint32_t)y1)); }
    static void reshape(I& im, int w, int h, int nb, int how) {
        if( how == 1 && nb == (int)im.num_bands ) im.reshape((uint32_t)w,(uint32_t)h);
        else if( how == 2 && w == (int)im.width && h == (int)im.height ) im.setNumberOfBands((uint32_t)nb);
        else im.reshape((uint32_t)w,(uint32_t)h,(uint32_t)nb);
    }
    static void copy(I& a, I& b) { a.setTo(b); }
};
template<class T> struct PlanarK {
    typedef Planar<Gray<T>> I; typedef T P; enum { KIND=2 };
    static I* mk(int w, int h, int nb) { return w==0 && h==0 && nb==0 ? new I() : new I((uint32_t)w,(uint32_t)h,(uint32_t)nb); }
    static I* wrap(T*, int, int, int, int, int, int) { fatal("wrap"); return nullptr; }
    static T& at(I& im, uint32_t x, uint32_t y, uint32_t b) { return im.at(x,y,b); }
    static T& un(I& im, uint32_t x, uint32_t y, uint32_t b) { return im.getBand(b).unsafe_at(x,y); }
    static T ix(I& im, uint32_t x, uint32_t y, uint32_t b) { return im.bands[b]->at(x,y); }
    static int nb(I& im) { return (int)im.num_bands; }
    static I* sub(I&, int, int, int, int) { fatal("sub"); return nullptr; }
    static void reshape(I& im, int w, int h, int nb, int how) {
        if( how == 3 ) im.reshape((uint32_t)w,(uint32_t)h);
        else if( how == 1 ) { im.reshape((uint32_t)w,(uint32_t)h); im.setNumberOfBands((uint32_t)nb); }
        else { im.setNumberOfBands((uint32_t)nb); im.reshape((uint32_t)w,(uint32_t)h); }
    }
    static void copy(I& a, I& b) { a.setTo(b); }
};

template<class K> struct Driver {
    typedef typename K::I I; typedef typename K::P T; typedef Enc<T> E;
    struct Obj { std::unique_ptr<I> im; int buf; bool view; int x,y,w,h,nb; long cap; }; // shadow: where it looks in its buffer (x,y: only to avoid overlapping copies)
    std::map<int,Obj> o;
    std::map<int,std::vector<T>> ext;

    I& A(int a) { return *o.at(a).im; }
    static std::vector<long long> pixels(I& im, int how) {
        std::vector<long long> r;
        for( uint32_t y=0;y<im.height && y<1024;y++ ) for( uint32_t x=0;x<im.width && x<1024;x++ ) for( int b=0;b<K::nb(im) && b<8;b++ )
            r.push_back(E::rd(how==0 ? K::at(im,x,y,(uint32_t)b) : how==1 ? K::un(im,x,y,(uint32_t)b) : K::ix(im,x,y,(uint32_t)b)));
        return r;
    }
    void report(Ev& ev) {
        std::vector<int> ids, ex; std::vector<std::vector<long long>> dim, mems; std::string pix = "[";
        for( auto& p : o ) {
            ids.push_back(p.first);
            I& im = *p.second.im;
            dim.push_back({(long long)im.width,(long long)im.height,(long long)im.getWidth(),(long long)im.getHeight(),(long long)im.total_pixels(),(long long)K::nb(im)});
            if( pix.size() > 1 ) pix += ',';
            pix += '[';
            for( int how=0;how<3;how++ ) {
                if(how) pix += ',';
                pix += '[';
                bool f = true;
                for( auto v : pixels(im,how) ) { if(!f) pix += ','; f = false; num(pix,v); }
                pix += ']';
            }
            pix += ']';
        }
        pix += ']';
        for( auto& p : ext ) { ex.push_back(p.first); std::vector<long long> m; for( T v : p.second ) m.push_back(E::rd(v)); mems.push_back(m); }
        ev.a("ids",ids).aa("dim",dim).raw("pix",pix).a("ext",ex).aa("mems",mems);
    }
    template<class F> bool rej(F f) { try { f(); return false; } catch( std::exception& ) { return true; } }
    void reset() { o.clear(); ext.clear(); Ev("init").s("type",tname<T>()).i("kind",K::KIND); }
    void destroy(int a) { if(!o.count(a)) return; o.erase(a); Ev e("destroy"); e.i("a",a); report(e); }
    // everything which looks at the storage owned by a
    void orphans(int a) {
        std::vector<int> d; for( auto& p : o ) if( p.first != a && p.second.buf == a ) d.push_back(p.first);
        for( int k : d ) destroy(k);
    }
    void clearId(int a) { orphans(a); destroy(a); ext.erase(a); }
    void put(int a, I* im, int buf, bool view, int x, int y, int w, int h, int nb) {
        Obj& q = o[a]; q.im.reset(im); q.buf=buf; q.view=view; q.x=x; q.y=y; q.w=w; q.h=h; q.nb=nb; q.cap = view?0:(long)w*h*nb;
    }
    void mk(int a, int w, int h, int nb) {
        clearId(a);
        I* s=nullptr; bool r=rej([&]{ s=K::mk(w,h,nb); });
        if( s ) put(a,s,a,false,0,0,w,h,nb);
        Ev e("new"); e.i("a",a).i("w",w).i("h",h).i("nb",nb).i("kind",K::KIND).t("rej",r); report(e);
    }
    // shapes with a little more samples than 32 bits count: 2^32 up to a few rows more
    void enormous(Rng& g, int a) {
        int nb = K::KIND==0 ? 1 : o.count(a) && g.chance(50) ? std::max(1,o[a].nb) : g.range(1,4), per = K::KIND==2 ? 1 : nb;
        long long w = g.chance(50) ? 1ll<<g.range(10,17) : g.range(1000,150000), n = w*per, h = ((1ll<<32)+n-1)/n + (g.chance(50)?0:g.range(0,2));
        if( g.chance(30) && h*per < (1ll<<29) ) std::swap(w,h);
        if( !o.count(a) ) { mk(a,(int)w,(int)h,nb); return; }
        if( o[a].nb == 0 && K::KIND==2 ) return;    // no band which could be too large
        if( K::KIND==1 && g.chance(30) && o[a].w*o[a].h > 0 && o[a].w*o[a].h < 3000 ) { w=o[a].w; h=o[a].h; nb=(int)(((1ll<<32)+w*h-1)/(w*h)); if( nb < 0 ) return; reshape(a,(int)w,(int)h,nb,2); return; }
        if( K::KIND==2 ) { reshape(a,(int)w,(int)h,o[a].nb,3); return; }
        reshape(a,(int)w,(int)h,nb,g.range(0,1));
    }
    void filled(int a, int w, int h, int nb, int v0) {
        mk(a,w,h,nb); int v = v0;
        for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) for( int b=0;b<nb;b++ ) poke(a,x,y,b,v++);
    }
    template<class X> void list(X*, int, Rng&) {}
    // rows given as lists: they need one length
    void list(GrayK<T>*, int a, Rng& g) {
        clearId(a);
        int w=g.range(0,5), k=g.range(0,3), v0=g.range(1,30), odd=k>1&&g.chance(25)?g.range(1,k-1):-1; std::vector<int> v; bool even=true;
        auto m=[&](int y,int x){ return E::mk(v0+y*7+x); };
        auto row=[&](int y){ int n=w; if( y==odd ) n=g.range(0,6); if( n!=w ) even=false; for( int x=0;x<n;x++ ) v.push_back(v0+y*7+x); return n; };
        I* s=nullptr; int n[3]; for( int y=0;y<k;y++ ) n[y]=row(y);
        // one list of every length, so that the rows can be picked at run time
        typedef std::initializer_list<T> R;
        auto with=[&](int y,auto f) { switch(n[y]) {
            case 0: f(R{}); break; case 1: f(R{m(y,0)}); break; case 2: f(R{m(y,0),m(y,1)}); break; case 3: f(R{m(y,0),m(y,1),m(y,2)}); break;
            case 4: f(R{m(y,0),m(y,1),m(y,2),m(y,3)}); break; case 5: f(R{m(y,0),m(y,1),m(y,2),m(y,3),m(y,4)}); break; default: f(R{m(y,0),m(y,1),m(y,2),m(y,3),m(y,4),m(y,5)}); } };
        bool r=rej([&]{
            if( k==0 ) s=new I(std::initializer_list<R>{});
            else with(0,[&](R p){ if( k==1 ) s=new I({p}); else with(1,[&](R q){ if( k==2 ) s=new I({p,q}); else with(2,[&](R t){ s=new I({p,q,t}); }); }); });
        });
        if( !r ) put(a,s,a,false,0,0,k?n[0]:0,k,1);
        Ev e("list"); e.i("a",a).i("w",k?n[0]:0).i("h",k).i("nb",1).a("v",v).t("even",even).t("rej",r); report(e);
    }
    void wrap(int a, int w, int h, int nb, int off, int stride, int extra, int v0) {
        clearId(a);
        int len = off+stride*h+extra; std::vector<int> v; std::vector<T>& m = ext[a];
        for( int k=0;k<len;k++ ) { v.push_back(v0+k%90); m.push_back(E::mk(v0+k%90)); }
        put(a,K::wrap(m.data(),len,w,h,nb,off,stride),a,true,0,0,w,h,nb);
        Ev e("wrap"); e.i("a",a).a("v",v).i("off",off).i("stride",stride).i("w",w).i("h",h).i("nb",nb); report(e);
    }
    void sub(int a, int p, int x0, int y0, int x1, int y1) {
        I* s = nullptr;
        bool ok = x0>=0 && y0>=0 && x0<=x1 && y0<=y1 && x1<=(int)o[p].w && y1<=(int)o[p].h;
        if( ok ) clearId(a);
        if( !o.count(p) ) return;
        bool r = rej([&]{ s = K::sub(A(p),x0,y0,x1,y1); });
        Obj& q = o[p];
        if( !r && ok ) put(a,s,q.buf,true,q.x+x0,q.y+y0,x1-x0,y1-y0,q.nb);
        else delete s;
        Ev e("sub"); e.i("a",a).i("p",p).i("x0",x0).i("y0",y0).i("x1",x1).i("y1",y1).t("rej",r); report(e);
    }
    void reshape(int a, int w, int h, int nb, int how) {
        Obj& q0 = o.at(a);
        bool same = q0.w==w && q0.h==h && q0.nb==nb;
        if( !same && !q0.view ) orphans(a);
        bool r = rej([&]{ K::reshape(A(a),w,h,nb,how); });
        Obj& q = o.at(a);
        if( !same && !q.view && !r ) { q.w=w; q.h=h; q.nb=nb; q.cap = std::max(q.cap,(long)w*h*nb); }
        Ev e(K::KIND==0 ? "reshape":"shape"); e.i("a",a).i("w",w).i("h",h).i("nb",nb).i("kind",K::KIND).t("rej",r).i("how",how).a("seen",pixels(A(a),0)); report(e);
    }
    bool sameShape(int a, int b) { Obj& p=o.at(a); Obj& q=o.at(b); return p.w==q.w && p.h==q.h && p.nb==q.nb; }
    bool overlap(int a, int b) {
        Obj& p=o.at(a); Obj& q=o.at(b);
        return p.buf==q.buf && p.x < q.x+q.w && q.x < p.x+p.w && p.y < q.y+q.h && q.y < p.y+p.h;
    }
    // copies whose source is destroyed or overwritten on the way are not meaningful
    bool copyable(int a, int b) {
        if( a == b ) return false;
        if( sameShape(a,b) ) return !overlap(a,b);
        return o.at(a).buf != o.at(b).buf;
    }
    bool prepare(int a, int b) { // a is about to take the shape of b
        if( !copyable(a,b) ) return false;
        if( !sameShape(a,b) && !o.at(a).view ) orphans(a);
        return o.count(b) > 0;
    }
    void took(int a, int b, bool r) {
        Obj& p=o.at(a); Obj& q=o.at(b);
        if( !r && !p.view && !sameShape(a,b) ) { p.w=q.w; p.h=q.h; p.nb=q.nb; p.cap=std::max(p.cap,(long)q.w*q.h*q.nb); }
    }
    void copy(int a, int b) {
        if( !prepare(a,b) ) return;
        bool r = rej([&]{ K::copy(A(a),A(b)); });
        took(a,b,r);
        Ev e("copy"); e.i("a",a).i("b",b).t("rej",r); report(e);
    }
    void assign(int a, int b) {
        if( a == b ) { I& s = A(a); bool r = rej([&]{ s = A(b); }); Ev e("assign"); e.i("a",a).i("b",b).t("rej",r); report(e); return; }
        if( o.at(b).view ) {
            if( !o.at(a).view ) orphans(a);
            if( !o.count(b) ) return;
            if( K::KIND != 0 ) { if( !prepare(a,b) || (o.at(a).view && !sameShape(a,b)) ) return; }
            bool r = rej([&]{ A(a) = A(b); });
            if( K::KIND == 0 ) {
                std::unique_ptr<I> keep = std::move(o[a].im); Obj& q = o[b];
                int buf=q.buf,x=q.x,y=q.y,w=q.w,h=q.h,nb=q.nb;
                put(a,keep.release(),buf,true,x,y,w,h,nb);
                Ev e("assign"); e.i("a",a).i("b",b).t("rej",r); report(e);
            } else {
                // whether a multi-band image shares or copies the samples of a view is left open: only the result is looked at
                std::vector<long long> va = pixels(A(a),0), vb = pixels(A(b),0);
                if( va != vb || A(a).width != A(b).width || A(a).height != A(b).height || K::nb(A(a)) != K::nb(A(b)) ) { Ev e("assigned-different"); e.i("a",a); }
                o.erase(a); Ev e("destroy"); e.i("a",a); report(e);
            }
            return;
        }
        if( !prepare(a,b) ) return;
        bool r = rej([&]{ A(a) = A(b); });
        took(a,b,r);
        Ev e("assign"); e.i("a",a).i("b",b).t("rej",r); report(e);
    }
    void dup(int a, int b) {
        if( a == b ) return;
        clearId(a);
        if( !o.count(b) ) return;
        if( K::KIND != 0 && o[b].view ) {
            I c(A(b));
            if( pixels(c,0) != pixels(A(b),0) ) { Ev e("dup-different"); e.i("b",b); }
            return;
        }
        I* s = new I(A(b)); Obj q_{nullptr,o[b].buf,o[b].view,o[b].x,o[b].y,o[b].w,o[b].h,o[b].nb,0};
        if( q_.view ) put(a,s,q_.buf,true,q_.x,q_.y,q_.w,q_.h,q_.nb); else put(a,s,a,false,0,0,q_.w,q_.h,q_.nb);
        Ev e("dup"); e.i("a",a).i("b",b); report(e);
    }
    void write(int a, uint32_t x, uint32_t y, uint32_t b, int v) {
        bool far = x > 1000 || y > 1000 || b > 1000;
        bool r = rej([&]{ K::at(A(a),x,y,b) = E::mk(v); });
        Ev e("write"); e.i("a",a).t("far",far).i("x",far?0:x).i("y",far?0:y).i("b",far?0:b).i("v",v).t("rej",r); report(e);
    }
    void poke(int a, int x, int y, int b, int v) {
        K::un(A(a),(uint32_t)x,(uint32_t)y,(uint32_t)b) = E::mk(v);
        Ev e("poke"); e.i("a",a).i("x",x).i("y",y).i("b",b).i("v",v); report(e);
    }
    void read(int a, uint32_t x, uint32_t y, uint32_t b) {
        bool far = x > 1000 || y > 1000 || b > 1000; long long v=0;
        bool r = rej([&]{ v = E::rd(K::at(A(a),x,y,b)); });
        Ev("read").i("a",a).t("far",far).i("x",far?0:x).i("y",far?0:y).i("b",far?0:b).i("v",v).t("rej",r);
    }
    void inb(int a, uint32_t x, uint32_t y) {
        bool far = x > 1000 || y > 1000;
        // band 0 has to exist for the specification's notion of a valid sample
        if( o.at(a).nb == 0 ) return;
        Ev("inb").i("a",a).t("far",far).i("x",far?0:x).i("y",far?0:y).t("v",A(a).isInBounds(x,y));
    }
    static void bandOf(GrayK<T>*, Gray<T>&, int, std::vector<long long>&, int&, int&) {}
    template<class X> void band(X*, int, int) {}
    void band(PlanarK<T>*, int a, int b) {
        std::vector<long long> v; int w=0,h=0;
        bool r = rej([&]{ Gray<T>& g = A(a).getBand((uint32_t)b); w=(int)g.width; h=(int)g.height;
            for( uint32_t y=0;y<g.height;y++ ) for( uint32_t x=0;x<g.width;x++ ) v.push_back(E::rd(g.at(x,y))); });
        Ev("band").i("a",a).i("b",b).t("rej",r).i("w",w).i("h",h).a("v",v);
    }
    template<class X> void average(X*, int, Rng&) {}
    void average(InterK<T>*, int a, Rng& g) {
        Obj& q = o.at(a);
        if( q.nb == 0 ) return;
        bool fl = std::is_floating_point<T>::value;
        // sums of 8 and 16 bit pixels fit into the sum type whatever the pixels are, larger pixels are kept small by Enc
        std::unique_ptr<Gray<T>> out;
        std::vector<T> canvas; 
        bool asView = g.chance(40);
        if( asView ) { canvas.assign((q.w+3)*(q.h+2)+2,E::mk(77)); out.reset(new Gray<T>(canvas.data(),(uint32_t)canvas.size(),q.w,q.h,q.w+3+2,q.w+3)); }
        else out.reset(new Gray<T>(g.below(5),g.below(5)));
        convert_average(A(a),*out);
        std::vector<long long> v; bool stray = false;
        for( uint32_t y=0;y<out->height;y++ ) for( uint32_t x=0;x<out->width;x++ ) {
            T p = out->unsafe_at(x,y);
            v.push_back(fl ? (long long)llround((double)p*q.nb*4*1000) : (long long)p);
        }
        if( asView ) for( size_t k=0;k<canvas.size();k++ ) {
            int s = q.w+3, y=(int)k/s-1, x=(int)k%s-2;
            if( (x<0||x>=q.w||y<0||y>=q.h) && canvas[k] != E::mk(77) ) stray = true;
        }
        if( stray ) { Ev e("average-stray"); e.i("a",a); }
        bool wide = !fl && E::unit() > 300; // reported in units only when exact
        if( wide ) return;
        Ev("average").i("a",a).i("w",out->width).i("h",out->height).t("float",fl).i("scale",1000).i("tol",fl?1:0).i("unit",(long long)(fl?1:E::unit())).a("v",v);
    }

    void replay(const Val& ops, int nb) {
        reset(); filled(1,3,2,nb,11); filled(2,2,2,nb,41);
        for( auto& q : ops.a ) {
            std::string op = q["op"].s; int a = (int)q["a"].n, b = (int)q["b"].n;
            if( !o.count(a) && op != "sub" && op != "dup" ) fatal("script: image is gone");
            if( op=="sub" ) { auto& r=q["r"]; sub(a,(int)q["p"].n,(int)r[0].n,(int)r[1].n,(int)r[2].n,(int)r[3].n); }
            else if( op=="reshape" ) reshape(a,(int)q["w"].n,(int)q["h"].n,nb,0);
            else if( op=="copy" ) copy(a,b);
            else if( op=="assign" ) assign(a,b);
            else if( op=="dup" ) dup(a,b);
            else if( op=="write" ) write(a,A(a).width-1,A(a).height-1,(uint32_t)nb-1,(int)q["v"].n);
            else fatal("op "+op);
            if( !o.count(a) ) return;
        }
    }
    int val(Rng& g) { return g.range(E::lo(),std::min(E::hi(),255)); }
    // lengthy: now and then more columns or rows than fit into eight bits
    void random(Rng& g, int steps, bool lengthy=false) {
        bool tall=g.chance(50);
        auto W=[&](int lo,int hi){ return lengthy&&!tall&&g.chance(50)?g.range(256,420):lengthy?g.range(std::min(lo,2),2):g.range(lo,hi); };
        auto H=[&](int lo,int hi){ return lengthy&&tall&&g.chance(50)?g.range(256,420):lengthy?g.range(std::min(lo,2),2):g.range(lo,hi); };
        bool gray = K::KIND==0, planar = K::KIND==2;
        reset();
        auto nbs = [&]{ return gray ? 1 : g.chance(4) ? 0 : g.range(1,lengthy?2:4); };
        for( int s=0;s<steps;s++ ) {
            int a = g.range(1,5);
            if( !o.count(a) || g.chance(3) ) {
                std::vector<int> others; for( auto& p : o ) if( p.first != a ) others.push_back(p.first);
                int k = g.range(0,9), b = others.empty() ? 0 : g.pick(others);
                if( g.chance(4) ) { enormous(g,a); continue; }
                if( (k < 5 && b) && !planar ) {
                    Obj& q = o[b]; int x0=g.range(0,q.w),y0=g.range(0,q.h),x1=g.range(x0,q.w),y1=g.range(y0,q.h);
                    sub(a,b,x0,y0,x1,y1);
                } else if( k < 6 && b ) dup(a,b);
                else if( gray && k==6 && g.chance(40) ) list((K*)nullptr,a,g);
                else if( k < 8 && !planar ) { int nb=nbs(), w=W(0,4); wrap(a,w,H(0,3),nb,g.range(0,5),w*nb+g.range(0,3),g.range(0,3),g.range(1,30)); }
                else if( k == 8 ) { int nb=nbs(); mk(a,W(0,5),H(0,4),nb); }
                else if( lengthy ) { int nb=nbs(); mk(a,W(0,5),H(0,4),nb); }
                else { int nb=std::max(1,nbs()); filled(a,g.range(1,3),g.range(1,2),nb,g.range(1,50)); }
                continue;
            }
            Obj& q = o[a];
            std::vector<int> all; for( auto& p : o ) all.push_back(p.first);
            int b = g.pick(all);
            auto cx = [&](int n) { return g.chance(4) ? 0xFFFFFFFFu : g.chance(4) ? 0x80000000u : (uint32_t)g.range(0,n>0 && g.chance(80) ? n-1 : n+1); };
            switch( g.range(0,12) ) {
                case 0: reshape(a,W(0,5),H(0,4),gray?1:g.chance(50)?q.nb:nbs(),g.range(0,2)); break;
                case 1: if( !gray ) reshape(a,q.w,q.h,nbs(),2); else reshape(a,q.h,q.w,1,0); break;
                case 2: if( g.chance(15) ) enormous(g,a); else if( g.chance(30) ) reshape(a,q.w,q.h,q.nb,g.range(0,2)); break;
                case 3: case 4: copy(a,b); break;
                case 5: assign(a,b); break;
                case 6: if( !planar ) { // rectangles, also illegal ones
                    int t = g.range(1,5); if( o.count(t) && g.chance(60) ) break;
                    int x0=g.range(0,q.w+1),y0=g.range(0,q.h+1),x1=g.range(0,q.w+1),y1=g.range(0,q.h+1);
                    if( g.chance(5) ) x1 = 2147483647;
                    sub(t,a,x0,y0,x1,y1); } break;
                case 7: case 8: write(a,cx(q.w),cx(q.h),cx(q.nb),val(g)); break;
                case 9: if( q.w>0 && q.h>0 && q.nb>0 ) poke(a,g.range(0,q.w-1),g.range(0,q.h-1),g.range(0,q.nb-1),val(g)); break;
                case 10: read(a,cx(q.w),cx(q.h),cx(q.nb)); inb(a,cx(q.w),cx(q.h)); break;
                case 11: band((K*)nullptr,a,g.range(0,q.nb+1)); average((K*)nullptr,a,g); break;
                default: if( g.chance(20) ) { orphans(a); destroy(a); ext.erase(a); }
            }
        }
    }
};
template<template<class> class K, class F> void byType(int k, F f) {
    switch( k%7 ) {
        case 0: { Driver<K<U8>> d; f(d); } break;   case 1: { Driver<K<S16>> d; f(d); } break;
        case 2: { Driver<K<U16>> d; f(d); } break;  case 3: { Driver<K<S32>> d; f(d); } break;
        case 4: { Driver<K<S64>> d; f(d); } break;  case 5: { Driver<K<F32>> d; f(d); } break;
        default: { Driver<K<F64>> d; f(d); }
    }
}
int main(int argc, char** argv) {
    init(argc,argv);
    Shard sh; uint64_t seed = (uint64_t)opt().i("seed",1);
    std::string kind = opt().s("kind","gray");
    if( opt().s("mode") == "script" ) {
        auto sc = script(); int nb = (int)opt().i("nb",1);
        for( size_t k=0;k<sc.size();k++ ) {
            if( !sh.take() ) continue;
            auto f = [&](auto& d) { d.replay(sc[k],nb); };
            if( kind == "gray" ) byType<GrayK>((int)k,f); else byType<InterK>((int)k,f);
        }
    } else {
        long long N = opt().i("n",100);
        for( long long k=0;k<N;k++ ) {
            if( !sh.take() ) continue;
            Rng g(seed*999983+k);
            bool lengthy=k%(kind=="planar"?29:13)==7; auto f = [&](auto& d) { if(lengthy) d.random(g,30,true); else d.random(g,g.range(25,60)); };
            if( kind == "gray" ) byType<GrayK>((int)(k/8),f);
            else if( kind == "inter" ) byType<InterK>((int)(k/8),f);
            else byType<PlanarK>((int)(k/8),f);
        }
    }
    return 0;
}
