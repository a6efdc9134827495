// Coordinates of msat/gdal: each line one of
//   inv g0..g5 | pt g0..g5 x y | box <image|projected|map> a b c d | dec g0..g5
//   win X Y bands g0..g5 | x0 y0 w h | outX outY (0 0: unset)    (a view made by GDALTranslate)
//   rec X Y l t r b sx sy mode                                    (recode to a MEM dataset)
#include <msat/gdal/dataset.h>
#include <msat/gdal/gdaltranslate.h>
#include <msat/gdal/points.h>
#include <gdal_priv.h>
#include <ogr_spatialref.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <sstream>
using namespace std; using namespace msat;
struct Band : public GDALRasterBand {
    Band(GDALDataset* ds, int b, int w) { poDS=ds; nBand=b; eDataType=GDT_Int32; nBlockXSize=w; nBlockYSize=1; }
    CPLErr IReadBlock(int, int y, void* p) override { for (int i=0;i<nBlockXSize;++i) ((int32_t*)p)[i]=nBand*100000000+y*10000+i; return CE_None; }
};
struct Ds : public GDALDataset {
    double g[6]; bool has=true; OGRSpatialReference srs;
    Ds(int w, int h, int n) { nRasterXSize=w; nRasterYSize=h; for (int i=1;i<=n;++i) SetBand(i,new Band(this,i,w)); srs.SetWellKnownGeogCS("WGS84"); }
    CPLErr GetGeoTransform(double* o) override { if (!has) return CE_Failure; memcpy(o,g,48); return CE_None; }
    const OGRSpatialReference* GetSpatialRef() const override { return &srs; }
};
static double dbl(const string& h) { uint64_t u=stoull(h,nullptr,16); double d; memcpy(&d,&u,8); return d; }
static void bits(double d) { uint64_t u; memcpy(&u,&d,8); printf(" %016llx",(unsigned long long)u); }
static void pixels(GDALDataset* v) {
    // the corner pixels of every band
    printf(" %d %d %d",v->GetRasterXSize(),v->GetRasterYSize(),v->GetRasterCount());
    double g[6]; if (v->GetGeoTransform(g)==CE_None) for (double x: g) bits(x); else printf(" none none none none none none");
    for (int b=1;b<=v->GetRasterCount();++b) { int32_t p[2]={-1,-1}; int W=v->GetRasterXSize(),H=v->GetRasterYSize(); auto rb=v->GetRasterBand(b); CPLErr e=rb->RasterIO(GF_Read,0,0,1,1,p,1,1,GDT_Int32,0,0,nullptr); if (e==CE_None) e=rb->RasterIO(GF_Read,W-1,H-1,1,1,p+1,1,1,GDT_Int32,0,0,nullptr); if (e!=CE_None) printf(" fail"); else printf(" %d,%d",p[0],p[1]); }
}
int main() {
    GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); string line;
    while (getline(cin,line)) {
        istringstream in(line); string op; in>>op; auto D=[&]{ string h; in>>h; return dbl(h); };
        printf("%s",op.c_str()); fflush(stdout);
        if (op=="inv") { double a[6],o[6]={0,0,0,0,0,0}; for (double& x:a) x=D(); int r=dataset::invertGeoTransform(a,o); printf(" %d",r); if (!r) for (double x:o) bits(x); }
        else if (op=="pt"||op=="dec") {
            Ds ds(10,10,1); for (double& x:ds.g) x=D();
            if (op=="dec") { int xs,ys; double px,py; dataset::decodeGeotransform(&ds,xs,ys,px,py); printf(" %d %d",xs,ys); bits(px); bits(py); }
            else { int x,y; in>>x>>y; dataset::GeoReferencer r; int e=r.init(&ds); printf(" %d",e); if (!e) { double px,py,la,lo; r.pixelToProjected(x,y,px,py); bits(px); bits(py); int X,Y; r.projectedToPixel(px,py,X,Y); printf(" %d %d",X,Y); int k=r.projectedToLatlon(px,py,la,lo); if (k==CE_None) { double qx,qy; k=r.latlonToProjected(la,lo,qx,qy); } printf(" %s",k?"untransformable":"transformed"); if (!k) { bits(la); bits(lo); } } }
        } else if (op=="box") {
            string k; in>>k; double a,b,c,d; in>>a>>b>>c>>d; bool nz;
            if (k=="image") { proj::ImageBox x(proj::ImagePoint(a,b),proj::ImagePoint(c,d)); int p,q,w,h; x.boundingBox(p,q,w,h); nz=x.isNonZero(); printf(" %d %d %d %d",p,q,w,h); }
            else if (k=="projected") { proj::ProjectedBox x(proj::ProjectedPoint(a,b),proj::ProjectedPoint(c,d)); double p,q,w,h; x.boundingBox(p,q,w,h); nz=x.isNonZero(); printf(" %.17g %.17g %.17g %.17g",p,q,w,h); }
            else { proj::MapBox x(proj::MapPoint(a,b),proj::MapPoint(c,d)); double p,q,w,h; x.boundingBox(p,q,w,h); nz=x.isNonZero(); printf(" %.17g %.17g %.17g %.17g",p,q,w,h); }
            printf(" %d",(int)nz);
        } else if (op=="win") {
            int X,Y,n,ox,oy,has; in>>X>>Y>>n>>has; Ds ds(X,Y,n); ds.has=has; for (double& x:ds.g) x=D(); GDALTranslate t; for (int& w:t.anSrcWin) in>>w; in>>ox>>oy; string a=to_string(ox),b=to_string(oy); if (ox||oy) { t.pszOXSize=a.c_str(); t.pszOYSize=b.c_str(); }
            GDALDataset* v=t.translate(&ds); if (!v) printf(" refused"); else { printf(v==&ds?" same":" view"); pixels(v); if (v!=&ds) GDALClose(v); }
        } else if (op=="rec") {
            int X,Y,l,t,r,b,sx,sy,mode; in>>X>>Y>>l>>t>>r>>b>>sx>>sy>>mode; Ds ds(X,Y,1); double g[6]={5,2,0,7,0,-3}; memcpy(ds.g,g,48); auto drv=GetGDALDriverManager()->GetDriverByName("MEM"); proj::ImageBox c(proj::ImagePoint(l,t),proj::ImagePoint(r,b));
            GDALDataset* v=mode==0?dataset::recode(&ds,c,"x",drv):mode==1?dataset::recode(&ds,c,sx,sy,"x",drv):dataset::recode(&ds,sx,sy,"x",drv);
            if (!v) printf(" refused"); else { printf(" made"); pixels(v); GDALClose(v); }
        }
        printf("\n"); fflush(stdout);
    }
}
