// Conformance harness for convolution kernels and lengths (specifications: Kernels / KernelTrace / KernelHistory)
#include "tr.h"
#include "typed.h"
#include "convolve_kernels.h"
#include "config_types.h"
using namespace boofcv;
using namespace tr;
template<class T> static constexpr bool real() { return std::is_floating_point<T>::value; }
// ------------------------------------------------------------------------------------------------ containers
template<class E> struct Driver {
    typedef Enc<E> C;
    struct Obj { std::unique_ptr<Kernel1D<E>> a; std::unique_ptr<Kernel2D<E>> b; };
    std::map<int,Obj> o;
    KernelBase<E>& K(int a) { return o.at(a).a ? (KernelBase<E>&)*o.at(a).a : (KernelBase<E>&)*o.at(a).b; }
    template<class F> bool rej(F f) { try { f(); return false; } catch( std::exception& ) { return true; } }
    long long total(KernelBase<E>& k) { auto t=k.sum(); if( real<E>() ) { double d=(double)t*4; return (double)std::llround(d)==d?std::llround(d):-7777778; } long long x=(long long)t; return x%C::unit()?-7777779:x/C::unit(); }
    void report(Ev& ev) {
        std::vector<int> ids,dims; std::vector<long long> ws,os,rad,sum,mx,mn,amx,amn; std::vector<std::vector<long long>> els;
        for( auto& p : o ) {
            KernelBase<E>& k=K(p.first); ids.push_back(p.first); dims.push_back((int)k.dimension()); ws.push_back(k.width); os.push_back(k.offset); rad.push_back(k.radius());
            std::vector<long long> v; uint32_t n=p.second.a?k.width:k.width*k.width; if( k.width && k.data.size!=n ) { n=0; v.push_back(-1234567); }
            for( uint32_t j=0;j<n;j++ ) v.push_back(C::rd(p.second.a ? (j%2?p.second.a->at(j):(*p.second.a)[j]) : p.second.b->at(j%k.width,j/k.width)));
            els.push_back(v); bool any=k.width>0&&n>0;
            sum.push_back(any?total(k):0); mx.push_back(any?C::rd(k.element_max()):0); mn.push_back(any?C::rd(k.element_min()):0); amx.push_back(any?C::rd(k.element_abs_max()):0); amn.push_back(any?C::rd(k.element_abs_min()):0);
        }
        ev.a("ids",ids).a("dims",dims).a("ws",ws).a("os",os).a("rad",rad).a("sum",sum).a("mx",mx).a("mn",mn).a("amx",amx).a("amn",amn).aa("els",els);
    }
    void reset() { o.clear(); Ev("init").s("type",tname<E>()); }
    void make(int a,int dim,int w,int off) {
        Obj n; bool r=rej([&]{ if( off<0 ) { if(dim==1) n.a.reset(new Kernel1D<E>((uint32_t)w)); else n.b.reset(new Kernel2D<E>((uint32_t)w)); } else { if(dim==1) n.a.reset(new Kernel1D<E>((uint32_t)w,(uint32_t)off)); else n.b.reset(new Kernel2D<E>((uint32_t)w,(uint32_t)off)); } });
        if(!r) o[a]=std::move(n); Ev e("new"); e.i("a",a).i("dim",dim).i("w",w).i("o",off).t("rej",r); report(e); }
    void blank(int a,int dim) { Obj n; if(dim==1) n.a.reset(new Kernel1D<E>()); else n.b.reset(new Kernel2D<E>()); o[a]=std::move(n); Ev e("blank"); e.i("a",a).i("dim",dim); report(e); }
    void list(int a,int dim,int off,int w,const std::vector<int>& v,bool ragged) {
        auto m=[&](int k){ return C::mk(v[k]); }; Obj n; uint32_t f=(uint32_t)off;
        bool r=rej([&]{
            if( dim==1 ) { switch(w) { case 0: n.a.reset(new Kernel1D<E>(f,std::initializer_list<E>{})); break; case 1: n.a.reset(new Kernel1D<E>(f,{m(0)})); break; case 2: n.a.reset(new Kernel1D<E>(f,{m(0),m(1)})); break; default: n.a.reset(new Kernel1D<E>(f,{m(0),m(1),m(2)})); } }
            else if( ragged ) { n.b.reset(new Kernel2D<E>(f,{{m(0),m(1)},{m(2)}})); }
            else { switch(w) { case 1: n.b.reset(new Kernel2D<E>(f,{{m(0)}})); break; case 2: n.b.reset(new Kernel2D<E>(f,{{m(0),m(1)},{m(2),m(3)}})); break; default: n.b.reset(new Kernel2D<E>(f,{{m(0),m(1),m(2)},{m(3),m(4),m(5)},{m(6),m(7),m(8)}})); } } });
        if(!r) o[a]=std::move(n); Ev e("list"); e.i("a",a).i("dim",dim).i("o",off).i("w",w).a("v",v).t("ragged",ragged).t("rej",r); report(e); }
    // new weights are given straight away when the rows of a 2D kernel change their length
    void reshape(int a,int w,int off,const std::vector<int>& v) {
        KernelBase<E>& k=K(a); k.reshape((uint32_t)w,(uint32_t)off); for( size_t j=0;j<v.size();j++ ) k.data[j]=C::mk(v[j]);
        Ev e("reshape"); e.i("a",a).i("w",w).i("o",off).a("v",v); report(e); }
    void copy(int a,int b) { Obj n; if( o.at(b).a ) n.a.reset(new Kernel1D<E>(*o.at(b).a)); else n.b.reset(new Kernel2D<E>(*o.at(b).b)); o[a]=std::move(n); Ev e("copy"); e.i("a",a).i("b",b); report(e); }
    void assign(int a,int b) { if( o.at(a).a ) *o.at(a).a=*o.at(b).a; else *o.at(a).b=*o.at(b).b; Ev e("assign"); e.i("a",a).i("b",b); report(e); }
    void set(int a,int x,int y,int v) { bool r=rej([&]{ if( o.at(a).a ) o.at(a).a->at((uint32_t)x)=C::mk(v); else o.at(a).b->at((uint32_t)x,(uint32_t)y)=C::mk(v); }); Ev e("set"); e.i("a",a).i("x",x).i("y",y).i("v",v).t("rej",r); report(e); }
    void destroy(int a) { o.erase(a); Ev e("destroy"); e.i("a",a); report(e); }
    void replay(const Val& ops) {
        reset(); list(1,1,1,3,{4,-5,6},false); list(2,2,0,2,{1,-2,3,-4},false);
        for( auto& q : ops.a ) {
            std::string op=q["op"].s; int a=(int)q["a"].n; std::vector<int> v; for( auto& x : q["v"].a ) v.push_back((int)x.n);
            if( op=="new" ) make(a,(int)q["dim"].n,(int)q["w"].n,(int)q["o"].n); else if( op=="reshape" ) reshape(a,(int)q["w"].n,(int)q["o"].n,v); else if( op=="copy" ) copy(a,(int)q["b"].n); else if( op=="assign" ) assign(a,(int)q["b"].n);
            else if( op=="set" ) set(a,(int)q["x"].n,(int)q["y"].n,(int)q["n"].n); else fatal("op "+op);
        } }
    int val(Rng& g) { return g.range(C::lo(),std::min(C::hi(),120)); }
    void random(Rng& g,int steps) {
        reset();
        for( int s=0;s<steps;s++ ) {
            int a=g.range(1,4);
            if( !o.count(a)||g.chance(6) ) {
                std::vector<int> others; for( auto& p : o ) if( p.first!=a ) others.push_back(p.first); int k=g.range(0,9),dim=g.range(1,2);
                if( k<3 ) make(a,dim,g.range(0,dim==1?(g.chance(15)?40:9):5),g.range(-1,6)); else if( k<4 ) blank(a,dim);
                else if( k<7 ) { bool rg=dim==2&&g.chance(15); int w=rg?2:g.range(dim==1?0:1,3); std::vector<int> v; for( int j=0;j<(rg?3:dim==1?w:w*w);j++ ) v.push_back(val(g)); list(a,dim,g.range(0,g.chance(30)?5:std::max(0,w-1)),w,v,rg); }
                else if( !others.empty() ) copy(a,g.pick(others)); else make(a,dim,3,1);
                continue; }
            KernelBase<E>& k=K(a); bool one=(bool)o.at(a).a;
            switch( g.range(0,6) ) {
                case 0: case 1: { int w=g.range(1,one?(g.chance(15)?40:11):5),off=g.range(0,w-1); std::vector<int> v; if( (!one&&w!=(int)k.width)||g.chance(30) ) for( int j=0;j<(one?w:w*w);j++ ) v.push_back(val(g)); reshape(a,w,off,v); } break;
                case 2: { std::vector<int> c; for( auto& p : o ) if( (bool)p.second.a==one && K(p.first).width>0 ) c.push_back(p.first); if( !c.empty() ) assign(a,g.pick(c)); } break;
                case 3: { std::vector<int> c; for( auto& p : o ) if( K(p.first).width>0 && p.first!=a ) c.push_back(p.first); if( !c.empty() ) copy(a,g.pick(c)); } break;
                case 4: case 5: if( k.width ) set(a,g.range(0,(int)k.width),one?0:g.range(0,(int)k.width),val(g)); break;
                default: if( g.chance(25) ) destroy(a);
            } } }
};
template<class F> void byType(int k,F f) { switch( k%5 ) { case 0: { Driver<S32> d; f(d); } break; case 1: { Driver<F32> d; f(d); } break; case 2: { Driver<S64> d; f(d); } break; case 3: { Driver<F64> d; f(d); } break; default: { Driver<S16> d; f(d); } } }
// ------------------------------------------------------------------------------------------------ weights
static long long lnOf(double w) { return w>0 ? std::llround(1e5*std::log(w)) : -2000000000LL; }
template<class E> void put(Ev& e,const KernelBase<E>& k,int n) {
    std::vector<long long> v,l; for( int j=0;j<n;j++ ) { double x=(double)k.data[j]; v.push_back(real<E>()?std::llround(x*1e6):(long long)k.data[j]); l.push_back(real<E>()?lnOf(x):0); }
    e.i("w",k.width).i("o",k.offset).i("n",k.data.size).a("v",v).a("l",l); }
template<class E> void gauss(Rng& g,int dim) {
    int kind=g.range(0,5); double sigma; int width,sn=0,sd=8; // sigma = sn / sd
    if( kind<2 ) { width=g.range(1,dim==1?45:11); sigma=g.chance(50)?0:-1.5; int r=width/2; sn=2*r+1; sd=5; }
    else if( kind<4 ) { sn=g.range(1,dim==1?72:24); sigma=sn/8.0; width=g.range(-1,0); }
    else { sn=g.range(2,60); sigma=sn/8.0; width=g.range(1,dim==1?45:11); }
    if( g.chance(3) ) { width=-g.range(0,1); sn=0; sigma=-g.range(0,1); }
    bool rej=false; Kernel1D<E> a; Kernel2D<E> b; try { if( dim==1 ) a=FactoryKernel::gaussian1D<E>(sigma,width); else b=FactoryKernel::gaussian2D<E>(sigma,width); } catch( std::exception& ) { rej=true; }
    Ev e(real<E>()?"gauss":"gaussi"); e.s("t",tname<E>()).i("dim",dim).i("width",width).t("given",sigma>0).i("sn",sn).i("sd",sd).t("rej",rej);
    if( rej ) e.i("w",0).i("o",0).i("n",0).a("v",std::vector<int>()).a("l",std::vector<int>()); else if( dim==1 ) put<E>(e,a,(int)a.width); else put<E>(e,b,(int)(b.width*b.width)); }
template<class E> void flat(Rng& g) {
    int w=g.chance(70)?g.range(1,15):g.range(1,300); bool mean=g.chance(50); Kernel1D<E> k=mean?FactoryKernel::mean1D<E>((uint32_t)w):FactoryKernel::table1D<E>((uint32_t)w);
    Ev e("flat"); e.s("t",tname<E>()).t("mean",mean).t("real",real<E>()).i("width",w); put<E>(e,k,w); }
// any kernel made an integer kernel / normalised
static void toInt(Rng& g) {
    int w=g.range(1,9); Kernel1D<F64> k((uint32_t)w,(uint32_t)g.range(0,w-1)); std::vector<long long> src; for( int j=0;j<w;j++ ) { int v=g.range(1,90)*(g.chance(30)?-1:1); src.push_back(v); k[j]=v/16.0; }
    Kernel1D<S32> r=FactoryKernel::float_to_int<S32>(k,1.0/g.pick(std::vector<int>{1,4,16,100}));
    (void)r; int frac=g.pick(std::vector<int>{1,4,16,100}); Kernel1D<S32> q=FactoryKernel::float_to_int<S32>(k,1.0/frac);
    Ev e("toint"); e.i("frac",frac).i("o0",k.offset).a("src",src); put<S32>(e,q,w); }
template<class E> void norm(Rng& g) {
    int dim=g.range(1,2),w=g.range(1,dim==1?12:5),n=dim==1?w:w*w; Kernel1D<E> a; Kernel2D<E> b; KernelBase<E>& k=dim==1?(KernelBase<E>&)a:(KernelBase<E>&)b; int o=g.range(0,w-1); k.reshape(w,o);
    std::vector<long long> src; long long t=0; for( int j=0;j<n;j++ ) { int v=g.range(-5,60); t+=v; src.push_back(v); } if( t<=0 ) { t+=200; src[0]+=200; } for( int j=0;j<n;j++ ) k.data[j]=(E)(src[j]*0.25);
    FactoryKernel::normalize<E>(k); Ev e("norm"); e.s("t",tname<E>()).a("src",src).i("o0",o); put<E>(e,k,n); }
static void sigmas(Rng& g) {
    int order=g.range(0,4); bool s=g.chance(50); bool rej=false;
    if( s ) { int r2=g.range(-2,60); double v=0; try { v=FactoryKernel::sigmaForRadius(r2/2.0,order); } catch( std::exception& ) { rej=true; } Ev("sigma").i("order",order).i("r2",r2).t("rej",rej).i("v",std::llround(v*1e5)); }
    else { int sn=g.range(-2,200),v=0; try { v=FactoryKernel::radiusForSigma(sn/8.0,order); } catch( std::exception& ) { rej=true; } Ev("radius").i("order",order).i("sn",sn).t("rej",rej).i("v",v); } }
template<class E> void uniform(Rng& g) {
    std::mt19937 rng((unsigned)g.next()); int dim=g.range(1,2),w=g.range(1,dim==1?20:5),n=dim==1?w:w*w; int lo=g.range(-50,50),hi=lo+g.range(1,60); Kernel1D<E> a; Kernel2D<E> b; KernelBase<E>& k=dim==1?(KernelBase<E>&)a:(KernelBase<E>&)b; int o=g.range(0,w-1); k.reshape(w,o);
    for( int j=0;j<n;j++ ) k.data[j]=(E)9999; if( dim==1 ) KernelOps::fill_uniform(a,(E)lo,(E)hi,rng); else KernelOps::fill_uniform(b,(E)lo,(E)hi,rng);
    Ev e("uniform"); e.s("t",tname<E>()).t("real",real<E>()).i("lo",lo).i("hi",hi).i("o0",o).i("w0",w); put<E>(e,k,n); }
// ------------------------------------------------------------------------------------------------ lengths (quarters, 64ths, results in 256ths)
static long long r256(double v) { double d=v*256; if( !(d>-2e9&&d<2e9) ) return -7777777; long long k=std::llround(d); return (double)k==d?k:-7777778; }
static void length(Rng& g,int len4,int frac64,int tot4) {
    ConfigLength c; int how=g.range(0,3); if( how==0&&frac64<0 ) { c=ConfigLength::fixed(len4/4.0); frac64=-64; } else if( how==1&&len4%4==0&&frac64>=0 ) c=ConfigLength::relative(frac64/64.0,len4/4); else if( how==2&&len4==-4&&frac64==-64 ) c=ConfigLength(); else c=ConfigLength(len4/4.0,frac64/64.0);
    bool rej=false; try { c.checkValidity(); } catch( std::exception& ) { rej=true; }
    Ev("length").i("len4",len4).i("frac64",frac64).i("tot4",tot4).i("clen",r256(c.length)).i("cfrac",r256(c.fraction)).i("v",r256(c.compute(tot4/4.0))).i("vi",c.computeI(tot4/4.0)).i("li",len4>=0?c.getLengthI():0).t("rel",c.isRelative()).t("fix",c.isFixed()).t("rej",rej); }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="script" ) { auto sc=script(); for( size_t k=0;k<sc.size();k++ ) { if( !sh.take() ) continue; byType((int)k,[&](auto& d) { d.replay(sc[k]); }); } return 0; }
    if( mode=="lengths" ) { int M=(int)opt().i("max",6); for( int l=-M-1;l<=M;l++ ) for( int f=-2;f<=M*4;f++ ) { if( !sh.take() ) continue; Rng g(seed*77+l*1000+f); for( int t=0;t<=4*M;t++ ) length(g,l,f<0?-64*(-f)+63*(f==-2):f*(f%2?5:3),t); } return 0; }
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue; Rng g(seed*999983+k);
        if( mode=="history" ) byType((int)k,[&](auto& d) { d.random(g,g.range(20,60)); });
        else if( mode=="gauss" ) { int d=g.chance(70)?1:2; switch( k%4 ) { case 0: gauss<F32>(g,d); break; case 1: gauss<F64>(g,d); break; case 2: gauss<S32>(g,d); break; default: gauss<S64>(g,d); } }
        else if( mode=="misc" ) { switch( k%12 ) { case 0: flat<S32>(g); break; case 1: flat<F32>(g); break; case 2: flat<F64>(g); break; case 3: flat<S64>(g); break; case 4: case 5: toInt(g); break; case 6: norm<F32>(g); break; case 7: norm<F64>(g); break; case 8: case 9: sigmas(g); break; case 10: if(g.chance(50)) uniform<S32>(g); else uniform<S64>(g); break; default: if(g.chance(50)) uniform<F32>(g); else uniform<F64>(g); } }
        else if( mode=="length" ) length(g,g.chance(10)?-4:g.chance(20)?4*g.range(-2,2000000):g.range(-9,g.chance(50)?200:4000000),g.chance(30)?-64:g.chance(70)?g.range(0,128):g.range(-130,600),g.chance(70)?g.range(0,4000):g.range(-50,3000000));
        else fatal("mode");
    }
    return 0;
}
