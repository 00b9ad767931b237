// Conformance harness for the contour finder (specifications: Contours / ContourTrace / ContourHistory)
#include "canvas.h"
#include "contour.h"
#include <deque>
#include <algorithm>
#include <set>
using namespace boofcv;
using namespace tr;

struct Img { int w=0,h=0; std::vector<int> p; int at(int x,int y) const { return p[y*w+x]; } int& at(int x,int y) { return p[y*w+x]; } };
struct Res { std::vector<int> labels; int lw,lh; std::vector<std::vector<long long>> blobs, sets; };

static ConnectRule R(int r) { return r==4 ? ConnectRule::FOUR : ConnectRule::EIGHT; }

static void collect(LinearContourLabelChang2004& f, const Gray<S32>& label, Res& r) {
    r.lw=(int)label.width; r.lh=(int)label.height; r.labels.clear(); r.blobs.clear(); r.sets.clear();
    for( uint32_t y=0;y<label.height;y++ ) for( uint32_t x=0;x<label.width;x++ ) r.labels.push_back(label.at(x,y));
    for( auto& c : f.contours ) {
        std::vector<long long> b{(long long)c.id,(long long)c.externalIndex};
        for( auto k : c.internalIndexes ) b.push_back(k);
        r.blobs.push_back(b);
    }
    for( uint32_t k=0;k<f.packedPoints.number_of_sets();k++ ) {
        std::vector<Point2D<S32>> pts; f.packedPoints.load_set(k,pts);
        std::vector<long long> v;
        for( auto& q : pts ) v.push_back( q.x>=0 && q.y>=0 && q.x<r.lw && q.y<r.lh ? (long long)q.y*r.lw+q.x : -1 );
        r.sets.push_back(v);
    }
}
static Gray<U8>* mk(const Img& m) {
    auto* g = new Gray<U8>((uint32_t)m.w,(uint32_t)m.h);
    for( int y=0;y<m.h;y++ ) for( int x=0;x<m.w;x++ ) g->at((uint32_t)x,(uint32_t)y) = (U8)m.at(x,y);
    return g;
}
static Res fresh(const Img& m, int rule, long long min=0, long long max=-1, bool save=true) {
    LinearContourLabelChang2004 f(R(rule));
    f.minContourSize=(uint32_t)min; if(max>=0) f.maxContourSize=(uint32_t)max; f.saveInternalContours=save;
    std::unique_ptr<Gray<U8>> in(mk(m)); Gray<S32> label((uint32_t)m.w,(uint32_t)m.h);
    f.process(*in,label);
    Res r; collect(f,label,r); return r;
}

// certificate for the components of the enlarged image (checked by the specification)
struct Cert { std::vector<int> C,D; int W; };
static Cert certify(const Img& m, int rule) {
    int W=m.w+2,H=m.h+2,n=W*H; Cert c; c.W=W; c.C.assign(n,0); c.D.assign(n,0);
    auto X=[&](int x,int y){ return x>=1&&y>=1&&x<=m.w&&y<=m.h ? m.at(x-1,y-1) : 0; };
    for( int s=0;s<n;s++ ) if( !c.C[s] ) {
        int col=X(s%W,s/W); bool four = (col==1) == (rule==4);
        std::deque<int> q{s}; c.C[s]=s+1;
        while( !q.empty() ) {
            int k=q.front(); q.pop_front(); int x=k%W,y=k/W;
            for( int dy=-1;dy<=1;dy++ ) for( int dx=-1;dx<=1;dx++ ) {
                if( (!dx&&!dy) || (four && dx&&dy) ) continue;
                int u=x+dx,v=y+dy; if(u<0||v<0||u>=W||v>=H) continue;
                int z=v*W+u; if( c.C[z] || X(u,v)!=col ) continue;
                c.C[z]=s+1; c.D[z]=c.D[k]+1; q.push_back(z);
            }
        }
    }
    return c;
}
// which hole an internal contour goes along, judged by its set of points (a claim, checked by the specification)
static std::vector<int> claimHoles(const Img& m, int rule, const Cert& c, const Res& r) {
    std::vector<int> res(r.sets.size(),0);
    std::map<std::pair<int,int>,std::set<long long>> B; // (blob,bg) -> pixels
    for( int y=0;y<m.h;y++ ) for( int x=0;x<m.w;x++ ) if( m.at(x,y) ) {
        int k=(y+1)*c.W+x+1;
        for( int dy=-1;dy<=1;dy++ ) for( int dx=-1;dx<=1;dx++ ) {
            if( (!dx&&!dy) || (rule==8 && dx&&dy) ) continue;
            int u=x+dx,v=y+dy; bool fg = u>=0&&v>=0&&u<m.w&&v<m.h&&m.at(u,v);
            if( !fg ) B[{c.C[k],c.C[k+dy*c.W+dx]}].insert((long long)y*m.w+x);
        }
    }
    std::set<int> used;
    for( auto& b : r.blobs ) for( size_t j=2;j<b.size();j++ ) {
        if( b[j]<0 || b[j]>=(long long)r.sets.size() ) continue;
        auto& s=r.sets[b[j]]; if( s.empty() || s[0]<0 ) continue;
        std::set<long long> pts(s.begin(),s.end());
        int root=c.C[(s[0]/m.w+1)*c.W+s[0]%m.w+1];
        int out=root-c.W>=1 ? c.C[root-c.W-1] : 0;
        for( auto& e : B ) if( e.first.first==root && e.first.second!=out && !used.count(e.first.second) && e.second==pts ) {
            res[b[j]]=e.first.second; used.insert(e.first.second); break;
        }
    }
    return res;
}
static void header(Ev& e, const Img& m, int rule) { e.i("rule",rule).i("w",m.w).i("h",m.h).a("img",m.p); }

// --------------------------------------------------------------------------- images
static Img blank(int w,int h,int v=0) { Img m; m.w=w; m.h=h; m.p.assign((size_t)w*h,v); return m; }
static Img bits(int w,int h,uint64_t b) { Img m=blank(w,h); for( int k=0;k<w*h;k++ ) m.p[k]=(b>>k)&1; return m; }
static Img randomImg(Rng& g,int w,int h) {
    Img m=blank(w,h);
    switch( g.range(0,7) ) {
        case 0: case 1: { int d=g.range(5,95); for( auto& v : m.p ) v=g.chance(d); } break;
        case 2: for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y) = ((x+y)&1) ^ (g.chance(8)); break; // diagonal contacts
        case 3: { // rectangles drawn over each other
            for( int k=g.range(1,6);k>0;k-- ) { int x0=g.range(0,w),x1=g.range(0,w),y0=g.range(0,h),y1=g.range(0,h),v=g.chance(60);
                if(x0>x1) std::swap(x0,x1); if(y0>y1) std::swap(y0,y1);
                for( int y=y0;y<y1;y++ ) for( int x=x0;x<x1;x++ ) m.at(x,y)=v; } } break;
        case 4: // nested rings
            for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) { int d=std::min(std::min(x,w-1-x),std::min(y,h-1-y)); m.at(x,y)=(d+1)%2; }
            for( int k=g.range(0,3);k>0 && w*h>0;k-- ) m.p[g.below((uint32_t)(w*h))]^=1;
            break;
        case 5: { // spiral
            int x=0,y=0,dx=1,dy=0; if(w>0&&h>0) { m.at(0,0)=1;
                for( int t=0,turn=0;t<w*h*2 && turn<3;t++ ) {
                    int u=x+dx,v=y+dy,u2=u+dx,v2=v+dy;
                    bool ok = u>=0&&v>=0&&u<w&&v<h&&!m.at(u,v) && !(u2>=0&&v2>=0&&u2<w&&v2<h&&m.at(u2,v2));
                    if( ok ) { x=u;y=v;m.at(x,y)=1;turn=0; } else { int q=dx; dx=-dy; dy=q; turn++; } } } } break;
        case 6: { // comb with gaps
            for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y) = (x%2==0) || (y==0) || (y==h-1 && g.chance(80)); } break;
        default: { for( auto& v : m.p ) v=1; for( int k=g.range(0,w*h/3+1);k>0 && w*h>0;k-- ) m.p[g.below((uint32_t)(w*h))]=0; }
    }
    return m;
}
static Img bigImg(Rng& g,int kind) {
    int w=g.range(80,130),h=g.range(80,130);
    if( kind==4 ) { w=g.range(3000,7000); h=g.range(1,3); if( h==1 ) w=g.range(3000,14000); if( g.chance(50) ) std::swap(w,h); }   // strips
    Img m=blank(w,h);
    if( kind==0 ) { for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y) = x%2==0 || y==0; }                // comb: one very long outline
    else if( kind==1 ) { for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y) = y==0||y==h-1||x==0||x==w-1||(x%2==0&&y>1); } // long internal contour
    else if( kind==2 ) { for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y) = !(x%3==1&&y%3==1); }          // many holes
    else if( kind==4 ) { int gap=g.pick(std::vector<int>{5,50,2000,100000}); for( auto& v : m.p ) v=g.below((uint32_t)gap)!=0; }
    else { for( auto& v : m.p ) v=g.chance(45); }
    return m;
}

// --------------------------------------------------------------------------- modes
// labels must not depend on which contours are kept, so the settings differ too
static void labelCase(const Img& m,int rule,Rng& g,bool settings) {
    Cert c=certify(m,rule);
    LinearContourLabelChang2004 f(R(rule));
    if( settings ) { f.maxContourSize=(uint32_t)g.range(0,12); f.minContourSize=(uint32_t)g.range(0,8); f.saveInternalContours=g.chance(50); }
    std::unique_ptr<Gray<U8>> in(mk(m));
    // the label image starts with another shape and other content
    Gray<S32> label((uint32_t)((m.p.size()*7)%5),(uint32_t)((m.p.size()*3)%4));
    for( uint32_t k=0;k<label.data_length;k++ ) label.data[k]=(S32)k+1;
    f.process(*in,label);
    Res r; collect(f,label,r);
    std::vector<long long> ids; for( auto& b : r.blobs ) ids.push_back(b[0]);
    Ev e("label"); header(e,m,rule); e.a("C",c.C).a("D",c.D).i("lw",r.lw).i("lh",r.lh).a("labels",r.labels).a("ids",ids);
}
static void contourCase(const Img& m,int rule,Rng& g,int limits) {
    Cert c=certify(m,rule);
    Res r=fresh(m,rule);
    { Ev e("contour"); header(e,m,rule); e.a("C",c.C).a("D",c.D).a("labels",r.labels).aa("blobs",r.blobs).aa("sets",r.sets).a("holes",claimHoles(m,rule,c,r)); }
    for( int k=0;k<limits;k++ ) {
        long long n = r.sets.empty() ? 3 : (long long)g.pick(r.sets).size();
        // limits at and around the length of a contour
        long long min = g.chance(50) ? 0 : std::max(0LL,n+g.range(-1,1)), max = g.chance(30) ? 2147483647LL : std::max(0LL,n+g.range(-1,2));
        bool save=g.chance(65);
        Res q=fresh(m,rule,min,max,save);
        Ev("limit").i("rule",rule).i("w",m.w).i("h",m.h).a("img",m.p).i("min",min).i("max",max).t("save",save).a("labels",q.labels).a("flabels",r.labels)
            .aa("fblobs",r.blobs).aa("full",r.sets).aa("blobs",q.blobs).aa("sets",q.sets);
    }
}
template<class F> void exhaustive(Shard& sh,int maxw,int maxh,int maxpx,F f) {
    for( int h=0;h<=maxh;h++ ) for( int w=0;w<=maxw;w++ ) {
        if( w*h>maxpx ) continue;
        for( uint64_t b=0;b<(1ull<<(w*h));b++ ) for( int rule=4;rule<=8;rule+=4 ) { if( !sh.take() ) continue; f(bits(w,h,b),rule); }
    }
}
// one finder with a history
struct History {
    std::unique_ptr<LinearContourLabelChang2004> f; int rule; long long min,max; bool save;
    std::unique_ptr<Gray<S32>> ownLabel;
    void init(int r) { f.reset(new LinearContourLabelChang2004(R(r))); rule=r; min=0; max=2147483647LL; save=true; f->maxContourSize=2147483647u; ownLabel.reset(new Gray<S32>(2,2));
        Ev("init").i("rule",r); }
    void setRule(int r) { rule=r; f->setConnectRule(R(r)); Ev("rule").i("rule",f->getConnectRule()==ConnectRule::FOUR?4:8); }
    void limits(long long a,long long b) { min=a; max=b; f->minContourSize=(uint32_t)a; f->maxContourSize=(uint32_t)b; Ev("limits").i("min",a).i("max",b); }
    void saves(bool s) { save=s; f->saveInternalContours=s; Ev("save").t("save",s); }
    void process(const Img& m,bool view,Rng& g) {
        // input and label image inside of larger buffers, with other content around
        auto bit=[&]{ return (U8)g.range(0,1); }; auto lab=[&]{ return (S32)g.range(-3,9); };
        Canvas<U8> in; VAST=g.chance(10)?100:0;
        if( view ) in.make(g,m.w,m.h,VIEW,bit); else in.makeAt(m.w,m.h,0,0,0,0,bit);
        in.set([&](int x,int y){ return (U8)m.at(x,y); }); in.snap();
        std::vector<U8> ib0=in.before,ib;
        std::vector<long long> vin{in.off,in.stride,m.w,m.h},vout; std::vector<S32> ob0,ob1;
        Res r;
        if( view ) {
            Canvas<S32> label; label.make(g,m.w,m.h,VIEW,lab); label.set([&](int,int){ return lab(); }); label.snap(); ob0=label.before;
            f->process(*in,*label);
            collect(*f,*label,r); ob1=label.now(); vout={label.koff(),label.kstr(),(long long)label.img->width,(long long)label.img->height};
        } else {
            Gray<S32>& label=*ownLabel;   // keeps what the previous call left in it
            for( uint32_t k=0;k<label.data_length;k++ ) if( g.chance(30) ) label.data[k]=g.range(-2,7);
            f->process(*in,label);
            collect(*f,label,r); ob1=r.labels; ob0=ob1; vout={0,(long long)label.width,(long long)label.width,(long long)label.height};
        }
        ib=in.now();
        Res q=fresh(m,rule,min,max,save);
        Ev("process").a("fresh",std::vector<long long>{rule,min,max,save?1:0}).a("vin",vin).a("in0",ib0).a("in1",ib).a("vout",vout).a("out0",ob0).a("out1",ob1)
            .a("flabels",q.labels).aa("blobs",r.blobs).aa("fblobs",q.blobs).aa("sets",r.sets).aa("fsets",q.sets);
    }
};
static Img named(const std::string& p,int w,int h,Rng& g) {
    if( p=="ones" ) return blank(w,h,1);
    if( p=="ring" ) { Img m=blank(w,h); for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y)= x==0||y==0||x==w-1||y==h-1; return m; }
    Img m=blank(w,h); for( auto& v : m.p ) v=g.chance(50); return m;
}
int main(int argc,char** argv) {
    init(argc,argv);
    Shard sh; uint64_t seed=(uint64_t)opt().i("seed",1); std::string mode=opt().s("mode"); long long N=opt().i("n",100);
    bool lab = opt().s("what")=="label";
    auto one=[&](const Img& m,int rule,Rng& g,int lim){ if(lab) { labelCase(m,rule,g,false); if(lim==2 || g.chance(25)) labelCase(m,rule,g,true); } else contourCase(m,rule,g,lim); };
    if( mode=="exhaustive" ) {
        int lim=(int)opt().i("limits",0);
        exhaustive(sh,(int)opt().i("maxw",4),(int)opt().i("maxh",4),(int)opt().i("maxpx",9),[&](const Img& m,int rule){ Rng g(seed+m.p.size()*31+(uint64_t)sh.c); one(m,rule,g,lim); });
    } else if( mode=="random" ) {
        int mx=(int)opt().i("size",12);
        for( long long k=0;k<N;k++ ) { if(!sh.take()) continue; Rng g(seed*7919+k); int w=g.range(1,mx),h=g.range(1,mx); if(g.chance(6)) w=1; if(g.chance(6)) h=1; if(g.chance(2)) w=0; if( k%199==5 ) longShape(g,w,h,400);
            Img m=randomImg(g,w,h); for( int rule=4;rule<=8;rule+=4 ) one(m,rule,g,2); }
    } else if( mode=="big" ) {
        for( long long k=0;k<N;k++ ) { if(!sh.take()) continue; Rng g(seed*104729+k); Img m=bigImg(g,(int)(k/2)%5); one(m,k%2?4:8,g,1); }
    } else if( mode=="many" ) {          // more blobs than fit into 16 bits
        for( long long k=0;k<N;k++ ) { if(!sh.take()) continue; Rng g(seed*104729+k); int w=g.range(500,700),h=134000/w+9; if( k%2 ) std::swap(w,h);
            Img m=blank(w,h); for( int y=0;y<h;y++ ) for( int x=0;x<w;x++ ) m.at(x,y)=(k%2?x:y)<134000/(k%2?h:w)?(x+y)%2==0:g.chance(60);   // blobs with holes and wide ones among the last
            if( (k/2)%2 ) { w=66000; h=g.range(1,2); if( k%2 ) std::swap(w,h); m=blank(w,h); int gap=g.pick(std::vector<int>{3,300,100000}); for( auto& v : m.p ) v=g.below((uint32_t)gap)!=0; }   // a long strip
            labelCase(m,k%4==3?8:4,g,k%2); }
    } else if( mode=="history" ) {
        for( long long k=0;k<N;k++ ) { if(!sh.take()) continue; Rng g(seed*15485863+k); History hs; hs.init(g.chance(50)?4:8);
            for( int s=g.range(3,10);s>0;s-- ) {
                if( g.chance(35) ) hs.setRule(g.chance(50)?4:8);
                if( g.chance(25) ) { if(g.chance(40)) hs.limits(0,2147483647LL); else hs.limits(g.range(0,8),g.range(0,14)); }
                if( g.chance(15) ) hs.saves(g.chance(50));
                bool big=k%100==99; int mx=big?60:9;
                Img m=randomImg(g,g.range(1,mx),g.range(1,mx)); if(g.chance(3)) m=blank(0,g.range(0,3));
                hs.process(m,g.chance(50),g);
            } }
    } else if( mode=="script" ) {
        auto sc=script();
        for( size_t k=0;k<sc.size();k++ ) { if(!sh.take()) continue; Rng g(seed*31+k); History hs; hs.init(k%2?4:8);
            for( auto& q : sc[k].a ) { std::string op=q["op"].s;
                if( op=="process" ) hs.process(named(q["p"].s,(int)q["w"].n,(int)q["h"].n,g),q["view"].bo,g);
                else if( op=="rule" ) hs.setRule((int)q["rule"].n);
                else if( op=="limits" ) hs.limits(q["min"].n,q["max"].n);
                else if( op=="save" ) hs.saves(q["save"].bo);
                else fatal("op "+op); } }
    } else fatal("mode");
    return 0;
}
