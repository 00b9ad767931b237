// Conformance harness for borders, convolutions and blurs (specification: Convolution / ConvTrace)
#include "canvas.h"
#include "convolve.h"
#include "image_blur.h"
using namespace boofcv;
using namespace tr;
template<class T> static constexpr bool real() { return std::is_floating_point<T>::value; }
// how pixels are written as small integers: integers are multiples of unit, reals multiples of 1/den (exact: no rounding allowed)
struct Code { long long unit=1; int den=1; bool exact=true; };
static Code IN, OUT;
template<class T> long long code(T v,const Code& c) {
    if( real<T>() ) { double d=(double)v*c.den; if( !(d>-2e9&&d<2e9) ) return -7777777; long long k=std::llround(d); return c.exact&&(double)k!=d?-7777778:k; }
    long long x=(long long)v; return x%c.unit?-7777779:x/c.unit; }
template<class T> long long rdIn(T v) { return code(v,IN); }
template<class T> long long rdOut(T v) { return code(v,OUT); }
template<class T> T mk(long long k,const Code& c) { return real<T>() ? (T)((double)k/c.den) : (T)(k*c.unit); }
template<class T> long long maxOf() { return sizeof(T)==1?255:sizeof(T)==2?(std::is_signed<T>::value?32767:65535):1000000000; }
static const char* RULE[]={"EXTENDED","REFLECT","WRAP","VALUE"};
static bool GIVEN; // the border was created for an image
template<class E> std::shared_ptr<ImageBorder<E>> border(Rng& g,int rule,long long& c,Gray<E>* im=nullptr) { GIVEN=false;
    const BorderType BT[]={EXTENDED,REFLECT,WRAP}; if( rule<3 ) { c=0; return FactoryImageBorder::create_SB<E>(BT[rule]); }
    if( g.chance(40) ) { c=0; return FactoryImageBorder::create_SB<E>(ZERO); }
    c=g.range(real<E>()||std::is_signed<E>::value?-30:0,30); E v=mk<E>(c,IN);
    if( g.chance(50) ) return FactoryImageBorder::value_SB<E>(v);
    if( im && g.chance(50) ) { GIVEN=true; return std::make_shared<ImageBorderValue<E>>(*im,v); }
    return std::make_shared<ImageBorderValue<E>>(v); }
template<class T,class F> void image(Rng& g,Canvas<T>& im,int w,int h,Place p,F val,long long (*rd)(T)) {
    im.rd=rd; im.make(g,w,h,p,val); im.set([&](int,int){ return val(); }); im.snap(); }
static std::string NOIMAGE="{\"k\":[0,0,0,0],\"b\":[],\"a\":[]}";
template<class T> void listOut(Ev& e,const char* k,const std::vector<T>& v) { std::vector<long long> r; for( T x : v ) r.push_back(rdOut(x)); e.a(k,r); }
// ------------------------------------------------------------------------------------------------ borders
template<class E> void borderPoints(Rng& g,ImageBorder<E>& b,int rule,long long c,Canvas<E>& im,const std::vector<std::pair<int,int>>& pts) {
    std::vector<long long> xs,ys,vs;
    for( auto& p : pts ) { bool in=p.first>=0&&p.second>=0&&p.first<(int)im.img->width&&p.second<(int)im.img->height;
        xs.push_back(p.first); ys.push_back(p.second); vs.push_back(rdIn(!in&&g.chance(30)?b.outside_get(p.first,p.second):b.get(p.first,p.second))); }
    Ev("border").s("t",tname<E>()).s("rule",RULE[rule]).i("c",c).raw("im",im.json()).i("bw",b.getWidth()).i("bh",b.getHeight()).a("xs",xs).a("ys",ys).a("res",vs); }
template<class E> void borders(Rng& g,int mx) {
    IN=Code(); IN.unit=Enc<E>::unit(); IN.den=4; int rule=g.range(0,3); long long c; auto b=border<E>(g,rule,c);
    for( int n=mx==31?1:g.range(1,4);n>0;n-- ) {
        Canvas<E> im; int w=g.range(1,mx),h=g.range(1,mx); if( mx==30 && g.chance(40) ) longShape(g,w,h,700); if( mx==31 ) hugeShape(g,w,h);
        image(g,im,w,h,place(g),[&]{ return mk<E>(g.range(Enc<E>::lo(),Enc<E>::hi()),IN); },&rdIn<E>);
        b->setImage(*im);
        std::vector<std::pair<int,int>> pts;
        auto coord=[&](int n)->int { int k=g.range(0,9); if(k<3) return g.range(0,n-1); if(k<6) return g.range(-3*n,4*n); if(k<7) return g.range(-200,200); if(k<8) return (g.chance(50)?-1:1)*g.range(1000000,2000000000);
            return g.chance(50)?2147483647-g.range(0,40):-2147483647+g.range(0,40); };
        for( int k=60;k>0;k-- ) pts.push_back({coord(w),coord(h)});
        borderPoints(g,*b,rule,c,im,pts);
        if( g.chance(40) ) { im.set([&](int,int){ return mk<E>(g.range(Enc<E>::lo(),Enc<E>::hi()),IN); }); im.snap(); borderPoints(g,*b,rule,c,im,pts); } // seen through the border
    } }
template<class E> void borderAll(Rng& g,int w,int h,int rule) {
    IN=Code(); IN.unit=Enc<E>::unit(); IN.den=4; long long c; Canvas<E> im;
    image(g,im,w,h,place(g),[&]{ return mk<E>(g.range(Enc<E>::lo(),Enc<E>::hi()),IN); },&rdIn<E>); auto b=border<E>(g,rule,c,&*im); if( !GIVEN || g.chance(50) ) b->setImage(*im);
    std::vector<std::pair<int,int>> pts; for( int y=-2*h-1;y<=3*h+1;y++ ) for( int x=-2*w-1;x<=3*w+1;x++ ) pts.push_back({x,y});
    borderPoints(g,*b,rule,c,im,pts); }
template<class E> void factory() { for( int t=0;t<6;t++ ) { bool rej=false; try { rej=!FactoryImageBorder::create_SB<E>((BorderType)t); } catch( std::exception& ) { rej=true; } Ev("factory").s("t",tname<E>()).i("kind",t).t("rej",rej); } }
// ------------------------------------------------------------------------------------------------ convolution
template<class K> void kernel1(Rng& g,Kernel1D<K>& k,const std::vector<long long>& v,int kw,int o,int den) {
    if( g.chance(30) ) { k=Kernel1D<K>((uint32_t)(kw+g.range(0,4))); } k.reshape(kw,o); for( int i=0;i<kw;i++ ) k.at(i)=real<K>()?(K)((double)v[i]/den):(K)v[i]; }
template<class K> void kernel2(Rng& g,Kernel2D<K>& k,const std::vector<long long>& v,int kw,int o,int den) {
    if( g.chance(30) ) { k=Kernel2D<K>((uint32_t)(kw+g.range(0,2))); } k.reshape(kw,o); for( int j=0;j<kw;j++ ) for( int i=0;i<kw;i++ ) k.at(i,j)=real<K>()?(K)((double)v[j*kw+i]/den):(K)v[j*kw+i]; }
template<class E,class R> struct Plain { typedef typename TypeInfo<E>::signed_type K;
    static void run(const std::string& impl,char d,Kernel1D<K>& k1,Kernel2D<K>& k2,ImageBorder<E>& b,const Gray<E>& in,Gray<R>& out,bool unrolled) {
        if( impl=="full" ) { if(d=='h') ConvolveImage::horizontal(k1,b,out); else if(d=='v') ConvolveImage::vertical(k1,b,out); else ConvolveImage::convolve(k2,b,out); }
        else if( impl=="naive" ) { if(d=='h') ConvolveNaive::horizontal(k1,b,out); else if(d=='v') ConvolveNaive::vertical(k1,b,out); else ConvolveNaive::convolve(k2,b,out); }
        else { if(d=='h') { if(unrolled) ConvolveImage_Inner::horizontal_unrolled<E,R>(k1,in,out); else ConvolveImage_Inner::horizontal<E,R>(k1,in,out); }
               else if(d=='v') { if(unrolled) ConvolveImage_Inner::vertical_unrolled<E,R>(k1,in,out); else ConvolveImage_Inner::vertical<E,R>(k1,in,out); }
               else ConvolveImage_Inner::convolve<E,R>(k2,in,out); } } };
template<class E> struct Divided { typedef typename TypeInfo<E>::signed_type K;
    static void run(const std::string& impl,char d,Kernel1D<K>& k1,Kernel2D<K>& k2,ImageBorder<E>& b,const Gray<E>& in,Gray<E>& out,bool unrolled,K dv) {
        if( impl=="naive" ) { if(d=='h') ConvolveNaive::horizontal(k1,b,out,dv); else if(d=='v') ConvolveNaive::vertical(k1,b,out,dv); else ConvolveNaive::convolve(k2,b,out,dv); }
        else { if(d=='h') { if(unrolled) ConvolveImage_Inner::horizontal_unrolled(k1,in,out,dv); else ConvolveImage_Inner::horizontal(k1,in,out,dv); }
               else if(d=='v') { if(unrolled) ConvolveImage_Inner::vertical_unrolled(k1,in,out,dv); else ConvolveImage_Inner::vertical(k1,in,out,dv); }
               else ConvolveImage_Inner::convolve(k2,in,out,dv); } } };
template<class E,class R,bool SAME> struct MaybeDivided { typedef typename TypeInfo<E>::signed_type K; static void run(const std::string&,char,Kernel1D<K>&,Kernel2D<K>&,ImageBorder<E>&,const Gray<E>&,Gray<R>&,bool,K) { fatal("divisor"); } };
template<class E> struct MaybeDivided<E,E,true> : Divided<E> {};
template<class E,class R> void conv(Rng& g,const std::string& mode,int mx) {
    typedef typename TypeInfo<E>::signed_type K; const bool same=std::is_same<E,R>::value, rr=real<E>()&&real<R>();
    std::string impl = mode=="inner" ? "inner" : g.chance(80)?"full":"naive"; bool dv = same && (impl=="inner"||impl=="naive") && g.chance(50);
    char d="hv2"[g.range(0,2)]; int w=g.range(1,mx),h=g.range(1,mx); if(g.chance(15)) w=1; if(g.chance(15)) h=1; if( mode!="inner" && g.chance(3) ) { (g.chance(50)?w:h)=0; } if( mx==30 && g.chance(25) ) longShape(g,w,h,400); if( mx==31 ) hugeShape(g,w,h);
    int lim = d=='h'?w:d=='v'?h:std::min(w,h); if(lim<1) lim=1;
    int kw = impl=="inner" ? g.range(1,std::min(lim,d=='2'?7:15)) : g.chance(75)?g.range(1,d=='2'?5:9):g.range(1,std::min(lim+6,d=='2'?9:20));
    if( mx==32 ) { if( impl=="inner" ) { w=g.range(20,40); h=g.range(20,40); if( d=='2' ) kw=g.range(8,20); else { if( g.chance(40) ) { (d=='h'?w:h)=g.range(270,400); (d=='h'?h:w)=g.range(1,3); } kw=g.range(16,d=='h'?w:h); } } else kw=d=='2'?g.range(10,24):g.chance(50)?g.range(20,80):g.range(80,400); }
    int o=g.chance(50)?kw/2:g.range(0,kw-1);
    IN=Code(); OUT=Code(); int ku=1; bool wide=sizeof(E)==8&&!real<E>()&&sizeof(R)==8&&!real<R>()&&!dv&&g.chance(60);
    if( real<E>() ) { IN.den=4; ku=4; } if( rr ) OUT.den=16; if( dv&&rr ) { OUT.den=1024; OUT.exact=false; } if( wide ) IN.unit=OUT.unit=Enc<S64>::unit();
    bool pos = std::is_unsigned<R>::value || (std::is_unsigned<E>::value && !std::is_signed<R>::value) || g.chance(30); int wm=g.pick(std::vector<int>{1,2,6,9});
    int n=d=='2'?kw*kw:kw; std::vector<long long> ker(n); long long tot=0;
    if( g.chance(12) ) { for( auto& x : ker ) x=0; ker[g.range(0,n-1)]=1; tot=1; } else for( auto& x : ker ) { x=g.range(pos?0:-wm,wm); tot+=std::llabs(x); }
    long long div=0; if( dv ) { div=g.range(1,40); if( std::is_unsigned<E>::value&&tot>0 ) { for( auto& x : ker ) x=std::llabs(x); if( sizeof(E)<4 && g.chance(60) ) div=std::max(1LL,tot-g.range(0,0))+g.range(0,9); } }
    long long hi = std::min<long long>(real<E>()?1000:maxOf<E>(), std::min<long long>(sizeof(E)==1?255:g.chance(50)?30000:1000, maxOf<R>()/std::max(1LL,dv?(tot+div-1)/div:tot)));
    if( wide ) hi=std::min(hi,100000LL); if( real<R>() && !real<E>() ) hi=std::min(hi,10000LL); if( real<E>()&&!real<R>() ) hi=std::min(hi,1000LL); hi=std::max(0LL,hi);
    long long lo = std::is_unsigned<E>::value?0:(std::is_unsigned<R>::value?0:-hi); if( dv&&std::is_unsigned<E>::value ) lo=0;
    int kind=g.range(0,3); long long flat=g.range((int)lo,(int)hi); int at=g.range(0,std::max(0,w*h-1)),cnt=0;
    auto val=[&]{ return mk<E>(kind==0?flat:g.range((int)lo,(int)hi),IN); };
    Canvas<E> im; image(g,im,w,h,place(g),val,&rdIn<E>);
    if( kind==1 ) { im.set([&](int,int){ return mk<E>(cnt++==at?hi:0,IN); }); im.snap(); }   // impulse
    int rule=g.range(0,3); long long c; auto b=border<E>(g,rule,c); if( c<lo||c>hi ) { if( rule==3 ) { c=std::max(lo,std::min(hi,c)); b=FactoryImageBorder::value_SB<E>(mk<E>(c,IN)); } }
    b->setImage(*im);
    Canvas<R> out; bool keep = impl!="full" || g.chance(75); int ow=w,oh=h; if(!keep) { ow=g.range(0,mx); oh=g.range(0,mx); }
    Place pl=keep?place(g):g.chance(50)?EXACT:LARGER; auto oth=[&]{ return mk<R>(g.range(1,100),OUT); };
    image(g,out,ow,oh,pl,oth,&rdOut<R>);
    Kernel1D<K> k1; Kernel2D<K> k2; if( d=='2' ) kernel2<K>(g,k2,ker,kw,o,ku); else kernel1<K>(g,k1,ker,kw,o,ku);
    bool unrolled=g.chance(60), rej=false;
    try { if( dv ) MaybeDivided<E,R,std::is_same<E,R>::value>::run(impl,d,k1,k2,*b,*im,*out,unrolled,(K)div); else Plain<E,R>::run(impl,d,k1,k2,*b,*im,*out,unrolled); } catch( std::exception& ) { rej=true; }
    Ev e("conv"); e.s("t",tname<E>()).s("r",tname<R>()).s("impl",impl).s("dir",d=='h'?"h":d=='v'?"v":"2d").s("rule",RULE[rule]).i("c",c).i("div",div).i("cut",real<E>()&&!real<R>()?16:1).t("real",dv&&rr).a("ker",ker).i("kw",kw).i("o",o).t("rej",rej)
        .raw("im",im.json()).t("kept",keep).i("ow",out.img->width).i("oh",out.img->height).raw("out",keep?out.json():NOIMAGE); listOut(e,"res",rej&&!keep?decltype(out.pixels())():out.pixels()); }
// ------------------------------------------------------------------------------------------------ normalised
static bool positive(const std::vector<long long>& k,int o,int n) { for( int x=0;x<n;x++ ) { long long s=0; for( int j=0;j<(int)k.size();j++ ) if( x-o+j>=0 && x-o+j<n ) s+=k[j]; if( s<=0 ) return false; } return true; }
template<class E> void norm(Rng& g,int mx) {
    typedef typename TypeInfo<E>::signed_type K;
    int w=g.range(1,mx),h=g.range(1,mx); if(g.chance(12)) w=1; if(g.chance(12)) h=1; if(g.chance(3)) (g.chance(50)?w:h)=0;
    if( mx==30 && g.chance(25) ) longShape(g,w,h,400); if( mx==31 ) hugeShape(g,w,h);
    std::string dir=g.pick(std::vector<std::string>{"h","v","hv"}), impl = dir=="hv"||g.chance(65) ? "full" : g.chance(60)?"naive":"border";
    int n = dir=="h"?w:dir=="v"?h:std::max(w,h), lim=dir=="hv"?std::min(w,h):n; if( lim<1 ) lim=1; if( n<1 ) n=1;
    if( mx==31 ) lim=std::min(lim,9); int kw = impl=="border" ? g.range(1,lim) : g.chance(75)?g.range(1,9):g.range(1,lim+8); if( mx==32&&impl!="border" ) kw=g.range(20,300); int o=g.chance(50)?kw/2:g.range(0,kw-1);
    bool wide=sizeof(E)==8&&!real<E>()&&dir!="hv"&&kw<=16&&g.chance(60); IN=Code(); OUT=Code(); int ku=1;
    std::vector<long long> ker(kw); int kind=g.range(0,9); long long cap = wide?16:real<E>()?2000:sizeof(E)==1?8000000:sizeof(E)==2?30000:30000;
    for( int tries=0;;tries++ ) {
        int wm = wide?std::max(1,16/kw):kind<5?9:kind<8?100:(int)(cap/kw); if( real<E>() ) wm=std::min(wm,dir=="hv"?15:60);
        bool neg=tries<20&&!wide&&!(real<E>()&&dir=="hv")&&kind%3==0;
        long long tot=0; for( auto& x : ker ) { x=g.range(neg?-std::min(wm,9):g.chance(20)?0:1,wm); if(!neg&&tries>=20) x=g.range(1,std::min(wm,9)); tot+=std::llabs(x); }
        if( wide&&tot>16 ) { for( auto& x : ker ) x=0; ker[o]=1; for( int q=0;q<15;q++ ) ker[g.range(0,kw-1)]++; }
        bool ok=true; if( dir!="v" ) ok=ok&&positive(ker,o,std::max(1,w)); if( dir!="h" ) ok=ok&&positive(ker,o,std::max(1,h)); if(ok&&tot<=std::max(cap,16LL)) break; if( tries>40 ) { for( auto& x : ker ) x=1; break; } }
    bool neg=false; long long tot=0; for( long long x : ker ) { neg=neg||x<0; tot+=std::llabs(x); }
    if( real<E>() ) { IN.den=4; ku=4; OUT.den=dir=="hv"?256:1024; OUT.exact=false; if( g.chance(30)&&!neg ) { ku=(int)tot; if( dir!="hv"&&tot>4&&g.chance(50) ) ku+=(g.chance(50)?-1:1)*g.range(1,2); } }   // weights adding to one, not all of them exactly representable
    if( wide ) { IN.unit=720720LL*65536; OUT.unit=65536; }
    // results have to stay inside of the pixel type when weights are negative
    long long hi=real<E>()?(dir=="hv"?150:900):wide?90:maxOf<E>(); if( !real<E>()&&!wide ) hi=std::min<long long>(hi,sizeof(E)==1?255:2000000000/std::max(1LL,2*tot)); hi=std::min(hi,30000LL); if( neg&&!real<E>()&&sizeof(E)<=2 ) hi=std::min<long long>(hi,maxOf<E>()/std::max(1LL,tot)/(dir=="hv"?std::max(1LL,tot):1));
    if( neg&&!real<E>()&&dir=="hv" ) hi=std::min(hi,20LL); long long lo=std::is_unsigned<E>::value||wide?0:-hi;
    bool loud=neg&&std::is_unsigned<E>::value; // sums may be negative, which an unsigned pixel cannot hold: constant images only
    long long flat=g.range((int)lo,(int)hi); int shape=loud?0:g.range(0,2); int vlo=(int)lo,vhi=(int)hi; if( shape==1&&hi>4 ) { vlo=g.range(vlo,vhi); vhi=std::min(vhi,vlo+3); }
    auto val=[&]{ return mk<E>(shape==0?flat:g.range(vlo,vhi),IN); };
    Canvas<E> im; image(g,im,w,h,place(g),val,&rdIn<E>);
    bool keep = dir!="hv"||g.chance(70); int ow=w,oh=h; bool bad=false; if(!keep) { ow=g.range(0,mx); oh=g.range(0,mx); } else if( dir!="hv"&&impl=="full"&&g.chance(5) ) { ow=w+g.range(0,1); oh=h+(ow==w?1:0); bad=true; }
    Canvas<E> out,sto; auto oth=[&]{ return mk<E>(real<E>()?g.range(1,9)*4:g.range(1,100),OUT); };
    image(g,out,ow,oh,keep?place(g):g.chance(50)?EXACT:LARGER,oth,&rdOut<E>); bool ks=g.chance(70); image(g,sto,ks?w:g.range(0,mx),ks?h:g.range(0,mx),ks?place(g):EXACT,oth,&rdOut<E>);
    Kernel1D<K> k1; kernel1<K>(g,k1,ker,kw,o,ku); bool rej=false;
    try {
        if( dir=="hv" ) ConvolveNormalized::convolve(k1,*im,*out,*sto);
        else if( impl=="full" ) { if(dir=="h") ConvolveNormalized::horizontal(k1,*im,*out); else ConvolveNormalized::vertical(k1,*im,*out); }
        else if( impl=="naive" ) { if(dir=="h") ConvolveNormalizedNaive::horizontal(k1,*im,*out); else ConvolveNormalizedNaive::vertical(k1,*im,*out); }
        else { if(dir=="h") ConvolveNormalized_JustBorder::horizontal(k1,*im,*out); else ConvolveNormalized_JustBorder::vertical(k1,*im,*out); }
    } catch( std::exception& ) { rej=true; }
    Ev e("norm"); e.s("t",tname<E>()).s("impl",impl).s("dir",dir).s("how",real<E>()?"real":wide?"wide":"int").i("f",OUT.den/std::max(1,IN.den)).t("bad",bad).a("ker",ker).i("o",o).t("rej",rej)
        .raw("im",im.json()).t("kept",keep).i("ow",out.img->width).i("oh",out.img->height).raw("out",keep?out.json():NOIMAGE).raw("sto",dir=="hv"&&ks?sto.json():NOIMAGE); listOut(e,"res",rej&&!keep?decltype(out.pixels())():out.pixels()); }
// ------------------------------------------------------------------------------------------------ blurs
template<class E> void mean(Rng& g,int mx) {
    int w=g.range(1,mx),h=g.range(1,mx); if(g.chance(12)) w=1; if(g.chance(12)) h=1; if(g.chance(3)) (g.chance(50)?w:h)=0;
    bool lng=mx==30&&g.chance(25); if( lng ) longShape(g,w,h,400); if( mx==31 ) { lng=true; hugeShape(g,w,h); }
    std::string impl=g.pick(std::vector<std::string>{"blur","blur","blur","h","v"}); int r=g.chance(70)?g.range(1,4):g.chance(60)?g.range(1,std::max(w,h)+2):g.range(1,300); if( mx==31 ) r=g.range(1,9); if( impl=="blur"&&g.chance(4) ) r=0;
    bool wide=sizeof(E)==8&&!real<E>()&&g.chance(50); if( wide ) { w=std::min(w,8); h=std::min(h,8); }
    IN=Code(); OUT=Code(); if( real<E>() ) { IN.den=4; OUT.den=1024; OUT.exact=false; } if( wide ) { IN.unit=705600LL*65536; OUT.unit=65536; }
    long long hi=real<E>()?400:wide?20:std::min(30000LL,maxOf<E>()); if( sizeof(E)==4&&!real<E>() ) hi=100000; if( g.chance(30) ) hi=std::min(hi,20LL);
    bool neg=std::is_signed<E>::value&&!wide&&g.chance(40); long long lo=neg?-hi:0; int kind=g.range(0,3); long long flat=g.range((int)lo,(int)hi); if( lng&&!wide&&g.chance(50) ) { kind=0; flat=hi; } if( kind==0&&g.chance(50) ) flat=sizeof(E)==8?hi:maxOf<E>()>30000?hi:maxOf<E>();
    auto val=[&]{ return mk<E>(kind==0?flat:g.range((int)lo,(int)hi),IN); };
    Canvas<E> im; image(g,im,w,h,place(g),val,&rdIn<E>);
    bool keep=impl!="blur"||g.chance(70); int ow=w,oh=h; bool bad=false; if(!keep) { ow=g.range(0,mx); oh=g.range(0,mx); } else if( impl!="blur"&&g.chance(5) ) { ow=w+1; bad=true; }
    Canvas<E> out,sto; auto oth=[&]{ return mk<E>(real<E>()?g.range(1,9)*4:g.range(1,100),OUT); };
    image(g,out,ow,oh,keep?place(g):g.chance(50)?EXACT:LARGER,oth,&rdOut<E>); bool ks=g.chance(70); image(g,sto,ks?w:g.range(0,mx),ks?h:g.range(0,mx),ks?place(g):EXACT,oth,&rdOut<E>);
    bool rej=false; try { if( impl=="blur" ) BlurImageOps::mean(*im,*out,(uint32_t)r,*sto); else if( impl=="h" ) ConvolveImageMean::horizontal(*im,*out,(uint32_t)r); else ConvolveImageMean::vertical(*im,*out,(uint32_t)r); } catch( std::exception& ) { rej=true; }
    Ev e("mean"); e.s("t",tname<E>()).s("impl",impl).i("r",r).s("how",real<E>()?"real":wide?"wide":"int").t("neg",neg).t("bad",bad).t("rej",rej).i("f",OUT.den/std::max(1,IN.den))
        .raw("im",im.json()).t("kept",keep).i("ow",out.img->width).i("oh",out.img->height).raw("out",keep?out.json():NOIMAGE).raw("sto",impl=="blur"&&ks?sto.json():NOIMAGE); listOut(e,"res",rej&&!keep?decltype(out.pixels())():out.pixels()); }
// an image of millions of columns which repeats itself: what it gives repeats itself too
template<class E> void panorama(Rng& g) {
    int r=g.range(1,3),p=g.range(1,5),d=2*r+2,h=g.chance(80)?g.range(1,3):2*r+1+g.range(0,1),w=g.range(2100000,2300000)+(h>=7?200000:0),sw=2*d+p; while( sw%p!=w%p ) sw++;
    bool blur=g.chance(50); IN=Code(); OUT=Code(); if( real<E>() ) { IN.den=4; OUT.den=1024; OUT.exact=false; }
    std::vector<E> v; for( int k=0;k<p*h;k++ ) v.push_back(mk<E>(g.range(0,real<E>()?400:250),IN));
    Canvas<E> im,out; int at=0; image(g,im,sw,h,place(g),[&]{ int k=at++; return v[(size_t)(k%p)]; },&rdIn<E>); im.set([&](int x,int y){ return v[(size_t)(y*p+x%p)]; }); im.snap();
    image(g,out,sw,h,place(g),[&]{ return mk<E>(1,OUT); },&rdOut<E>);
    Gray<E> a((uint32_t)w,(uint32_t)h),b((uint32_t)w,(uint32_t)h),s(1,1); for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) a.unsafe_at(x,y)=v[(size_t)(y*p+x%p)];
    bool rej=false; try { if( blur ) { BlurImageOps::mean(*im,*out,(uint32_t)r,s); BlurImageOps::mean(a,b,(uint32_t)r,s); } else { ConvolveImageMean::vertical(*im,*out,(uint32_t)r); ConvolveImageMean::vertical(a,b,(uint32_t)r); } } catch( std::exception& ) { rej=true; }
    auto same=[&](int x){ return x<d?x:x>=w-d?sw-(w-x):d+(x-d)%p; }; long long other=0; for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) other+=!(b.unsafe_at(x,y)==out.img->unsafe_at(same(x),y));
    std::vector<long long> xs,ys,vs; for( int k=0;k<60;k++ ) { int x=k<20?g.range(0,3*d):k<40?w-1-g.range(0,3*d):g.range(0,w-1),y=g.range(0,h-1); xs.push_back(x); ys.push_back(y); vs.push_back(rdOut(b.unsafe_at(x,y))); }
    Ev e("pan"); e.s("t",tname<E>()).s("impl",blur?"blur":"v").i("r",r).s("how",real<E>()?"real":"int").t("neg",false).t("bad",false).t("rej",rej).i("f",OUT.den/std::max(1,IN.den)).i("p",p).i("d",d).i("w",w).i("bw",b.width).i("bh",b.height).i("other",other).a("xs",xs).a("ys",ys).a("vs",vs)
        .raw("im",im.json()).t("kept",true).i("ow",out.img->width).i("oh",out.img->height).raw("out",out.json()).raw("sto",NOIMAGE); listOut(e,"res",out.pixels()); }
template<class E> void gauss(Rng& g,int mx) {
    typedef typename TypeInfo<E>::signed_type K; int w=g.range(1,mx),h=g.range(1,mx); if(g.chance(12)) w=1; if(g.chance(12)) h=1; if( mx==30&&g.chance(20) ) longShape(g,w,h,300); if( mx==31 ) hugeShape(g,w,h);
    double sigma; int width; int k=g.range(0,9);
    if( k<4 ) { sigma=-1+g.range(0,1); width=g.range(2,11); } else if( k<7 ) { sigma=g.range(1,16)/8.0+(g.chance(50)?0.013:0); width=g.range(-1,0); } else { sigma=g.range(2,20)/8.0; width=g.range(1,13); } if( mx==32 ) { if( g.chance(60) ) { width=g.range(14,61); sigma=g.chance(50)?-1:g.range(16,60)/8.0; } else { width=-1; sigma=g.range(20,80)/8.0; } }
    if( k==9&&g.chance(20) ) { sigma=-g.range(0,1); width=-g.range(0,1); }
    IN=Code(); OUT=Code(); if( real<E>() ) { IN.den=4; OUT.den=1024; OUT.exact=false; }
    long long hi=real<E>()?31:std::min(30000LL,maxOf<E>()), lo=real<E>()||(std::is_signed<E>::value&&g.chance(30))?-hi:0; if( !real<E>()&&g.chance(40) ) hi=std::min(hi,20LL),lo=std::max(lo,-hi);
    int kind=g.range(0,3); long long flat=g.range((int)lo,(int)hi); if( !real<E>()&&g.chance(20) ) flat=hi; auto val=[&]{ return mk<E>(kind==0?flat:g.range((int)lo,(int)hi),IN); };
    Canvas<E> im; image(g,im,w,h,place(g),val,&rdIn<E>); if( kind==1 ) { int at=g.range(0,w*h-1),cnt=0; im.set([&](int,int){ return mk<E>(cnt++==at?hi:0,IN); }); im.snap(); }
    bool keep=g.chance(70); int ow=w,oh=h; if(!keep) { ow=g.range(0,mx); oh=g.range(0,mx); }
    Canvas<E> out,sto; auto oth=[&]{ return mk<E>(real<E>()?g.range(1,9)*4:g.range(1,100),OUT); };
    image(g,out,ow,oh,keep?place(g):g.chance(50)?EXACT:LARGER,oth,&rdOut<E>); bool ks=g.chance(70); image(g,sto,ks?w:g.range(0,mx),ks?h:g.range(0,mx),ks?place(g):EXACT,oth,&rdOut<E>);
    bool rej=false; try { BlurImageOps::gaussian(*im,*out,sigma,width,*sto); } catch( std::exception& ) { rej=true; }
    std::vector<long long> ker; int o=0; if( !rej ) { Kernel1D<K> q=FactoryKernel::gaussian1D<K>(sigma,width); o=q.offset; for( uint32_t i=0;i<q.width;i++ ) ker.push_back(real<K>()?std::llround((double)q.at(i)*200000):(long long)q.at(i)); }
    Ev e("gauss"); e.s("t",tname<E>()).s("how",real<E>()?"real":"int").i("sig",std::llround(sigma*1000)).i("width",width).a("ker",ker).i("o",o).t("rej",rej)
        .raw("im",im.json()).t("kept",keep).i("ow",out.img->width).i("oh",out.img->height).raw("out",keep?out.json():NOIMAGE).raw("sto",ks?sto.json():NOIMAGE); listOut(e,"res",rej&&!keep?decltype(out.pixels())():out.pixels()); }
#define EACH(f,k,...) switch((k)%7) { case 0: f<U8>(__VA_ARGS__); break; case 1: f<S16>(__VA_ARGS__); break; case 2: f<U16>(__VA_ARGS__); break; case 3: f<S32>(__VA_ARGS__); break; case 4: f<S64>(__VA_ARGS__); break; case 5: f<F32>(__VA_ARGS__); break; default: f<F64>(__VA_ARGS__); }
static void convAll(Rng& g,long long k,const std::string& m,int mx) {
    switch(k%20) { case 0: conv<U8,S32>(g,m,mx); break; case 1: conv<U8,S16>(g,m,mx); break; case 2: conv<U8,U8>(g,m,mx); break; case 3: conv<U8,F32>(g,m,mx); break; case 4: conv<S16,S32>(g,m,mx); break; case 5: conv<S16,S16>(g,m,mx); break;
        case 6: conv<U16,S32>(g,m,mx); break; case 7: conv<U16,U16>(g,m,mx); break; case 8: conv<S32,S32>(g,m,mx); break; case 9: conv<S64,S64>(g,m,mx); break; case 10: conv<F32,F32>(g,m,mx); break; case 11: conv<F64,F64>(g,m,mx); break;
        case 12: conv<F32,F64>(g,m,mx); break; case 13: conv<F32,S32>(g,m,mx); break; case 14: conv<U8,S64>(g,m,mx); break; case 15: conv<F32,S16>(g,m,mx); break; case 16: conv<F32,U8>(g,m,mx); break; case 17: conv<F64,S32>(g,m,mx); break; case 18: conv<F64,F32>(g,m,mx); break; default: conv<S32,F64>(g,m,mx); } }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="borders" ) { int M=(int)opt().i("max",5); long long k=0; if( sh.take() ) { factory<U8>(); factory<F32>(); factory<S32>(); factory<S64>(); factory<S16>(); factory<U16>(); factory<F64>(); }
        for( int w=1;w<=M;w++ ) for( int h=1;h<=M;h++ ) for( int r=0;r<4;r++,k++ ) { if( !sh.take() ) continue; Rng g(seed*31+k); EACH(borderAll,k/4+k%4*2+k,g,w,h,r) }
        return 0; }
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k); int mx=k%1999==17?31:k%241==19&&mode!="border"?32:k%41==0?30:k%3==0?5:11;
        if( mode=="border" ) { EACH(borders,k,g,mx) }
        else if( mode=="conv"||mode=="inner" ) convAll(g,k,mode,mx);
        else if( mode=="norm" ) { EACH(norm,k,g,mx) }
        else if( mode=="mean" ) { EACH(mean,k,g,mx) }
        else if( mode=="gauss" ) { EACH(gauss,k,g,mx) }
        else if( mode=="pan" ) { switch(k%4) { case 0: panorama<U8>(g); break; case 1: panorama<F32>(g); break; case 2: panorama<S16>(g); break; default: panorama<U16>(g); } }
        else fatal("mode");
    }
    return 0;
}
