// Conformance harness for operations on sub-images (specification: Pixels / ViewTrace)
// Every operation is done twice: on images placed somewhere in memory with other content around them, and on stand-alone images with the same pixels.
#include "canvas.h"
#include "convolve.h"
#include "image_blur.h"
#include "binary_ops.h"
#include "image_statistics.h"
#include "image_misc_ops.h"
#include "image_convert.h"
#include "threshold_block_filters.h"
#include "contour.h"
#include <random>
using namespace boofcv;
using namespace tr;
template<class T> static constexpr bool real() { return std::is_floating_point<T>::value; }
template<class T> long long rd(T v) { if( real<T>() ) { double d=(double)v*64; if( !(d>-2e9&&d<2e9) ) return -7777777; return std::llround(d); } long long x=(long long)v; return x>2000000000||x<-2000000000?-7777778:x; }
template<class T> T mk(int v) { return real<T>() ? (T)(v*0.25) : (T)v; }
struct Spot { bool given=false; int lead=0,left=0,right=0,tail=0; };
struct Case { Rng& g; int w,h; Spot s[3]; };
typedef std::vector<long long> Ret;
static std::string list(const std::vector<std::string>& v) { std::string s="["; for( size_t k=0;k<v.size();k++ ) s+=(k?",":"")+v[k]; return s+"]"; }
template<class T,class F> void put(Case& c,Canvas<T>& im,int w,int h,const Spot& s,F around) { im.rd=&rd<T>; if( s.given ) im.makeAt(w,h,s.lead,s.left,s.right,s.tail,around); else im.make(c.g,w,h,c.g.chance(70)?VIEW:c.g.chance(50)?LARGER:EXACT,around); }
// an image in memory and alone
template<class T> struct Twin {
    Canvas<T> a,b; bool used=false; std::vector<long long> k0;
    template<class V,class R> void make(Case& c,int w,int h,const Spot& s,V val,R around) {
        used=true; put(c,a,w,h,s,around); b.rd=&rd<T>; b.make(c.g,w,h,EXACT,around); std::vector<T> v; for( int k=0;k<w*h;k++ ) v.push_back(val()); fill(v); }
    void fill(const std::vector<T>& v) { int w=(int)a.img->width; a.set([&](int x,int y){ return v[y*w+x]; }); b.set([&](int x,int y){ return v[y*w+x]; }); snap(); }
    // other content in the two
    template<class R> void blank(Case& c,int w,int h,const Spot& s,R other) { used=true; put(c,a,w,h,s,other); b.rd=&rd<T>; b.make(c.g,w,h,EXACT,other); snap(); }
    void snap() { a.snap(); b.snap(); k0={a.koff(),a.kstr(),(long long)a.img->width,(long long)a.img->height}; }
    std::string alone() { std::string s="["; bool f=true; for( T x : b.pixels() ) { if(!f) s+=','; f=false; num(s,rd<T>(x)); } return s+"]"; }
    std::string place() { std::string s="["; for( int j=0;j<4;j++ ) { if(j) s+=','; num(s,k0[j]); } return s+"]"; }
};
struct Rec { std::string name,type; std::vector<std::string> ins,outs,alone,ks,stos; Ret ret,aloneRet; bool rej=false,aloneRej=false; int tol=0;
    template<class T> void in(Twin<T>& t) { ins.push_back(t.a.json()); }
    template<class T> void out(Twin<T>& t) { outs.push_back(t.a.json()); alone.push_back(t.alone()); ks.push_back(t.place()); }
    template<class T> void sto(Twin<T>& t) { stos.push_back(t.a.json()); }
    void emit() { Ev("view").s("op",name).s("t",type).i("tol",tol).t("rej",rej).t("aloneRej",aloneRej).raw("ins",list(ins)).raw("outs",list(outs)).raw("alone",list(alone)).raw("ks",list(ks)).raw("stos",list(stos)).a("ret",ret).a("aloneRet",aloneRet); } };
template<class F> void both(Rec& o,F f) { try { f(false,o.ret); } catch( std::exception& ) { o.rej=true; o.ret.clear(); } try { f(true,o.aloneRet); } catch( std::exception& ) { o.aloneRej=true; o.aloneRet.clear(); } }
template<class T> struct D { static int lo() { return std::is_signed<T>::value?-90:0; } static int hi() { return sizeof(T)==1?255:real<T>()?900:700; } };
static const char* NAMES[]={"threshold","localMean","fixedFilter","otsuFilter","localFilter","blockMean","blockMinMax","blockOtsu","blurMean","blurGaussian","meanH","meanV","convH","convV","conv2","normH","normV","normHV","naiveH","naive2",
    "and","or","erode","dilate","stats","histogram","otsu","fill","fillBorder","fillUniform","average","copy","copyInterleaved","fillInterleaved","contour","borderRead","normBorder","innerH","innerV","inner2"};
enum { NOPS=40 };
template<class T> Interleaved<T> inter(Canvas<T>& c,int nb) { return Interleaved<T>(c.img->data,c.img->data_length,c.img->width/nb,c.img->height,(uint32_t)nb,c.img->offset,c.img->stride); }
template<class T> void run(Case& c,int op) {
    typedef typename TypeInfo<T>::signed_type K; Rng& g=c.g; int w=c.w,h=c.h; Rec o; o.name=NAMES[op]; o.type=tname<T>(); o.tol=real<T>()?1:0;
    int lo=D<T>::lo(),hi=D<T>::hi(); if( g.chance(40) ) { lo=g.range(lo,hi); hi=std::min(hi,lo+g.range(0,12)); }
    if( op==3||op==7||op==25||op==26 ) { lo=op==7?g.range(0,100):g.range(lo,hi); hi=std::min(sizeof(T)==1?255:1000,lo+g.range(1,60)); if(op==7) hi=std::min(hi,255); }
    auto val=[&]{ return op==3||op==7||op==25||op==26?(T)g.range(lo,hi):mk<T>(g.range(lo,hi)); };
    int glo=D<T>::lo(),ghi=D<T>::hi(); auto around=[&]{ return g.chance(20)?(g.chance(50)?std::numeric_limits<T>::lowest():std::numeric_limits<T>::max()):mk<T>(g.range(glo,ghi)); };
    // memory outside of what can be written down would be recorded as one value
    auto canary=[&]{ return mk<T>(g.range(glo,ghi)); }; auto canaryU=[&]{ return (U8)g.range(0,255); }; auto canaryS=[&]{ return (S32)g.range(-50,9000); };
    (void)around;
    Twin<T> in,in2,out,st1,st2; Twin<U8> bin,bin2,bout; Twin<S32> lab;
    bool down=g.chance(50); int len4=g.range(1,40); double frac=g.chance(50)?-1:g.range(2,40)/64.0; ConfigLength len(len4/4.0,frac); float scale=g.pick(std::vector<float>{1.0f,0.9f,0.5f,1.25f});
    if( op<=1||(op>=2&&op<=7) ) {
        in.make(c,w,h,c.s[0],val,canary); bout.blank(c,w,h,c.s[2],canaryU); T t=val(); if( op==1 ) { st1.blank(c,w,h,c.s[1],canary); st2.blank(c,w,h,c.s[g.range(0,2)],canary); }
        bool loc=g.chance(60),o2=g.chance(50); double tun=g.chance(50)?0:g.range(1,3)/4.0; float ms=g.chance(40)?-1:g.range(0,40)/4.0f; std::unique_ptr<InputToBinary<Gray<T>>> f;
        if( op>=5 ) len=ConfigLength(g.range(1,6)+g.range(0,3)*0.25,g.chance(70)?-1:g.range(4,30)/64.0);
        switch( op ) { case 2: f.reset(new GlobalFixedBinaryFilter<T>(t,down)); break; case 3: f.reset(new GlobalOtsuBinaryFilter<T>((T)lo,(T)hi,down)); break; case 4: f.reset(new LocalMeanBinaryFilter<T>(len,scale,down)); break;
            case 5: f.reset(new ThresholdBlockMean<T>(len,loc,scale,down)); break; case 6: f.reset(new ThresholdBlockMinMax<T>(ms,len,loc,scale,down)); break; case 7: f.reset(new ThresholdBlockOtsu<T>(o2,len,tun,1.0,down,loc)); break; default: ; }
        both(o,[&](bool al,Ret&) { Gray<T>& i=al?*in.b:*in.a; Gray<U8>& q=al?*bout.b:*bout.a; if( op==0 ) ThresholdOps::threshold(i,t,down,q); else if( op==1 ) ThresholdOps::localMean(i,q,len,scale,down,al?*st1.b:*st1.a,al?*st2.b:*st2.a); else f->process(i,q); });
        o.in(in); o.out(bout); if( op==1 ) { o.sto(st1); o.sto(st2); }
    } else if( op<=19||op>=36 ) {
        in.make(c,w,h,c.s[0],val,canary); bool inplace=op==36||op>=37; // border code and inner code leave the other pixels alone
        if( inplace ) out.make(c,w,h,c.s[2],canary,canary); else out.blank(c,w,h,c.s[2],canary); st1.blank(c,w,h,c.s[1],canary);
        int lim=op==13||op==16||op==11?h:op==17||op==14||op==9?std::min(w,h):w, r=g.chance(80)?g.range(1,3):g.range(1,20), kw=g.chance(70)?g.range(1,5):g.range(1,lim+3), off=g.chance(50)?kw/2:g.range(0,kw-1); if( op>=36 ) { int l=op==38?h:op==39?std::min(w,h):op==36?(down?w:h):w; kw=g.range(1,std::min(l,7)); off=g.range(0,kw-1); }
        Kernel1D<K> k1((uint32_t)kw,(uint32_t)off); for( int j=0;j<kw;j++ ) k1.at(j)=(K)g.range(op>=15&&op!=18&&op!=19&&op<37?1:0,4); Kernel2D<K> k2((uint32_t)kw,(uint32_t)off); for( int j=0;j<kw*kw;j++ ) k2.data[j]=(K)g.range(0,3);
        const BorderType BT[]={EXTENDED,REFLECT,WRAP,ZERO}; int bt=g.range(0,3); double sigma=g.chance(50)?0:g.range(2,12)/8.0; int gw=sigma>0&&g.chance(50)?0:g.range(1,9); if( sigma<=0&&gw==1 ) gw=3; bool un=g.chance(50),dv=g.chance(50); K dvr=(K)g.range(1,9);
        both(o,[&](bool al,Ret&) { Gray<T>& i=al?*in.b:*in.a; Gray<T>& q=al?*out.b:*out.a; Gray<T>& s=al?*st1.b:*st1.a; std::shared_ptr<ImageBorder<T>> b=FactoryImageBorder::create_SB<T>(BT[bt]); b->setImage(i);
            switch( op ) { case 8: BlurImageOps::mean(i,q,(uint32_t)r,s); break; case 9: BlurImageOps::gaussian(i,q,sigma,gw,s); break; case 10: ConvolveImageMean::horizontal(i,q,(uint32_t)r); break; case 11: ConvolveImageMean::vertical(i,q,(uint32_t)r); break;
                case 12: ConvolveImage::horizontal(k1,*b,q); break; case 13: ConvolveImage::vertical(k1,*b,q); break; case 14: ConvolveImage::convolve(k2,*b,q); break;
                case 15: ConvolveNormalized::horizontal(k1,i,q); break; case 16: ConvolveNormalized::vertical(k1,i,q); break; case 17: ConvolveNormalized::convolve(k1,i,q,s); break;
                case 18: if( un ) ConvolveNaive::horizontal(k1,*b,q); else ConvolveNaive::vertical(k1,*b,q); break; case 19: ConvolveNaive::convolve(k2,*b,q); break;
                case 36: if( down ) ConvolveNormalized_JustBorder::horizontal(k1,i,q); else ConvolveNormalized_JustBorder::vertical(k1,i,q); break;
                case 37: if( dv ) { if(un) ConvolveImage_Inner::horizontal_unrolled(k1,i,q,dvr); else ConvolveImage_Inner::horizontal(k1,i,q,dvr); } else { if(un) ConvolveImage_Inner::horizontal_unrolled<T,T>(k1,i,q); else ConvolveImage_Inner::horizontal<T,T>(k1,i,q); } break;
                case 38: if( dv ) { if(un) ConvolveImage_Inner::vertical_unrolled(k1,i,q,dvr); else ConvolveImage_Inner::vertical(k1,i,q,dvr); } else { if(un) ConvolveImage_Inner::vertical_unrolled<T,T>(k1,i,q); else ConvolveImage_Inner::vertical<T,T>(k1,i,q); } break;
                default: if( dv ) ConvolveImage_Inner::convolve(k2,i,q,dvr); else ConvolveImage_Inner::convolve<T,T>(k2,i,q); } });
        o.in(in); o.out(out); o.sto(st1);
    } else if( op<=23 ) {
        auto b01=[&]{ return (U8)g.range(0,1); }; bool al1=op<22&&g.chance(20); bin.make(c,w,h,c.s[0],b01,op<22?std::function<U8()>(b01):std::function<U8()>(canaryU)); if( op<22 ) bin2.make(c,w,h,c.s[1],b01,canaryU); bout.blank(c,w,h,c.s[2],canaryU);
        both(o,[&](bool al,Ret&) { Gray<U8>& i=al?*bin.b:*bin.a; Gray<U8>& q=al1?i:al?*bout.b:*bout.a;
            if( op==20 ) BinaryImageOps::logicAnd(i,al?*bin2.b:*bin2.a,q); else if( op==21 ) BinaryImageOps::logicOr(i,al?*bin2.b:*bin2.a,q); else if( op==22 ) BinaryImageOps::erode4(i,q); else BinaryImageOps::dilate4(i,q); });
        if( al1 ) o.out(bin); else { o.in(bin); o.out(bout); } if( op<22 ) o.in(bin2);
    } else if( op<=26 ) {
        in.make(c,w,h,c.s[0],val,canary); bool o2=g.chance(50); int bins=hi-lo+1+g.range(0,3);
        both(o,[&](bool al,Ret& r) { Gray<T>& i=al?*in.b:*in.a;
            if( op==24 ) { r.push_back(rd<T>(ImageStatistics::min(i))); r.push_back(rd<T>(ImageStatistics::max(i))); auto s=ImageStatistics::sum(i); r.push_back(real<T>()?std::llround((double)s*4):(long long)s); r.push_back(rd<T>(ImageStatistics::mean(i))); }
            else if( op==25 ) { GrowArray<uint32_t> hist((uint32_t)bins); for( int k=0;k<bins;k++ ) hist[k]=(uint32_t)g.range(0,99); ImageStatistics::histogram(i,(T)lo,hist); for( int k=0;k<bins;k++ ) r.push_back(hist[k]); }
            else r.push_back((int32_t)ThresholdOps::computeOtsu(i,(T)lo,(T)hi,o2)); });
        o.in(in);
    } else if( op<=29 ) {
        out.make(c,w,h,c.s[2],val,canary); T v=val(); int r=g.range(0,std::max(1,std::min(w,h))); unsigned seed=(unsigned)g.next(); T a=mk<T>(std::min(lo,hi)),b=mk<T>(hi+4); if( sizeof(T)==1 ) b=(T)std::min(255,hi+4); if( !(a<b) ) a=0,b=(T)4;
        // the distribution of single bytes is not part of the standard library
        both(o,[&](bool al,Ret&) { Gray<T>& q=al?*out.b:*out.a; if( op==27||(op==29&&sizeof(T)==1) ) ImageMiscOps::fill(q,v); else if( op==28 ) ImageMiscOps::fill_border(q,v,(uint32_t)r); else { std::mt19937 rng(seed); ImageMiscOps::fill_uniform(q,a,b,rng); } });
        o.out(out);
    } else if( op==30 ) {
        int nb=g.range(1,4); in.make(c,w*nb,h,c.s[0],val,canary); out.blank(c,w,h,c.s[2],canary);
        both(o,[&](bool al,Ret&) { Interleaved<T> i=inter<T>(al?in.b:in.a,nb); convert_average(i,al?*out.b:*out.a); }); o.in(in); o.out(out);
    } else if( op==31 ) {
        in.make(c,w,h,c.s[0],val,canary); out.blank(c,w,h,c.s[2],canary); both(o,[&](bool al,Ret&) { (al?*out.b:*out.a).copy(al?*in.b:*in.a); }); o.in(in); o.out(out);
    } else if( op==32||op==33 ) {
        int nb=g.range(1,4); if( op==32 ) in.make(c,w*nb,h,c.s[0],val,canary); out.blank(c,w*nb,h,c.s[2],canary); T v=val();
        both(o,[&](bool al,Ret&) { Interleaved<T> q=inter<T>(al?out.b:out.a,nb); if( op==33 ) ImageMiscOps::fill(q,v); else q.setTo(inter<T>(al?in.b:in.a,nb)); }); if( op==32 ) o.in(in); o.out(out);
    } else if( op==34 ) {
        int d=g.range(20,85); bin.make(c,w,h,c.s[0],[&]{ return (U8)g.chance(d); },canaryU); lab.blank(c,w,h,c.s[2],canaryS); bool in8=g.chance(50),save=g.chance(70); int mn=g.chance(60)?0:g.range(0,9);
        both(o,[&](bool al,Ret& r) { LinearContourLabelChang2004 f(in8?ConnectRule::EIGHT:ConnectRule::FOUR); f.saveInternalContours=save; f.minContourSize=(uint32_t)mn; f.process(al?*bin.b:*bin.a,al?*lab.b:*lab.a);
            for( auto& q : f.contours ) { r.push_back(q.id); r.push_back(q.externalIndex); for( auto k : q.internalIndexes ) r.push_back(-(long long)k); }
            for( uint32_t k=0;k<f.packedPoints.number_of_sets();k++ ) { std::vector<Point2D<S32>> p; f.packedPoints.load_set(k,p); for( auto& q : p ) { r.push_back(q.x); r.push_back(q.y); } } });
        o.in(bin); o.out(lab);
    } else {
        in.make(c,w,h,c.s[0],val,canary); const BorderType BT[]={EXTENDED,REFLECT,WRAP,ZERO}; int bt=g.range(0,3); std::vector<std::pair<int,int>> p; for( int k=0;k<30;k++ ) p.push_back({g.range(-2*w,3*w),g.range(-2*h,3*h)});
        both(o,[&](bool al,Ret& r) { auto b=FactoryImageBorder::create_SB<T>(BT[bt]); b->setImage(al?*in.b:*in.a); for( auto& q : p ) r.push_back(rd<T>(b->get(q.first,q.second))); });
        o.in(in);
    }
    o.emit();
}
static bool binaryOnly(int op) { return op==34||(op>=20&&op<=23); }
static void any(Case& c,int op,int type) {
    if( op>=5&&op<=7 && !c.s[0].given ) { c.w+=5; c.h+=5; }
    if( binaryOnly(op) ) type=0; if( op>=5&&op<=7 ) { const int B[]={0,0,5,1,2,3}; type=B[type%6]; if( op==7&&type!=5 ) type=0; }
    switch( type%7 ) { case 0: run<U8>(c,op); break; case 1: run<S16>(c,op); break; case 2: run<U16>(c,op); break; case 3: run<S32>(c,op); break; case 4: run<S64>(c,op); break; case 5: run<F32>(c,op); break; default: run<F64>(c,op); } }
int main(int argc,char** argv) {
    init(argc,argv); Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode");
    if( mode=="script" ) { auto sc=script(); for( size_t k=0;k<sc.size();k++ ) { if( !sh.take() ) continue; Rng g(seed*104729+k); const Val& v=sc[k];
            int per=(int)opt().i("per",4); for( int j=0;j<per;j++ ) { Case c{g,(int)v["w"].n,(int)v["h"].n,{}}; for( int q=0;q<3;q++ ) { const Val& p=v["p"][(size_t)q]; c.s[q].given=true; c.s[q].lead=(int)p["lead"].n; c.s[q].left=(int)p["left"].n; c.s[q].right=(int)p["right"].n; c.s[q].tail=(int)p["tail"].n; }
                any(c,(int)((k*per+j)%NOPS),g.range(0,6)); } } return 0; }
    for( long long k=0,N=opt().i("n",100);k<N;k++ ) {
        if( !sh.take() ) continue;
        Rng g(seed*7919+k); int mx=k%47==0?26:12; Case c{g,g.range(1,mx),g.range(1,mx),{}}; if( g.chance(10) ) c.w=1; if( g.chance(10) ) c.h=1;
        any(c,(int)(k%NOPS),g.range(0,6));
    }
    return 0;
}
