// Derived rasters of gdal/reflectance over sources made here. Each line:
//   <kind> <channel> <given> <sources>, then each source: <time|none> <srs> <hasgt> <g0..g5> <w> <h> <bx> <by> <bands>,
//   each band: <channel|none> <scale> <offset> <hasscale> <hasoffset> <fails> <hasmetadata> <counts...>      (doubles as hexadecimal bits)
// srs: 0 none, 1 geographic, 2 geostationary, 3 local
#include <gdal/gdal_priv.h>
#include <gdal/reflectance/reflectance.h>
#include <gdal/reflectance/cos_sol_za.h>
#include <gdal/reflectance/sat_za.h>
#include <gdal/reflectance/jday.h>
#include <msat/gdal/const.h>
#include <ogr_spatialref.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
using namespace std;
static int gone=0;
struct Src : public GDALRasterBand {
    double ofs=0, sc=1; int okof=1, oksc=1, fails=0, w=0; vector<uint16_t> data;
    Src(GDALDataset* ds, int b, int w, int bx, int by): w(w) { poDS=ds; nBand=b; eDataType=GDT_UInt16; nBlockXSize=bx; nBlockYSize=by; }
    double GetOffset(int* ok) override { if (ok) *ok=okof; return ofs; }
    double GetScale(int* ok) override { if (ok) *ok=oksc; return sc; }
    CPLErr IReadBlock(int x, int y, void* b) override { if (fails) return CE_Failure; for (int j=0;j<nBlockYSize;++j) for (int i=0;i<nBlockXSize;++i) ((uint16_t*)b)[j*nBlockXSize+i]=data[(size_t)(y*nBlockYSize+j)*w+x*nBlockXSize+i]; return CE_None; }
};
struct Ds : public GDALDataset {
    double g[6]; int hasgt=1; OGRSpatialReference srs; int hassrs=1;
    Ds(int w, int h) { nRasterXSize=w; nRasterYSize=h; } ~Ds() { ++gone; } void put(int i, GDALRasterBand* b) { SetBand(i,b); }
    const OGRSpatialReference* GetSpatialRef() const override { return hassrs?&srs:nullptr; }
    CPLErr GetGeoTransform(double* o) override { if (!hasgt) return CE_Failure; memcpy(o,g,sizeof g); return CE_None; }
};
static double dbl(const string& h) { uint64_t u=stoull(h,nullptr,16); double d; memcpy(&d,&u,8); return d; }
static void bits(double d) { uint64_t u; memcpy(&u,&d,8); printf(" %016llx",(unsigned long long)u); }
int main() {
    GDALAllRegister(); CPLPushErrorHandler(CPLQuietErrorHandler); string line;
    while (getline(cin,line)) {
        istringstream in(line); string kind; int ch, given, n; in>>kind>>ch>>given>>n; auto D=[&]{ string h; in>>h; return dbl(h); };
        vector<Ds*> S; gone=0;
        for (int k=0;k<n;++k) {
            string t; int srs, hasgt, w, h, bx, by, nb; double g[6]; in>>t>>srs>>hasgt; for (double& x:g) x=D(); in>>w>>h>>bx>>by>>nb;
            auto ds=new Ds(w,h); memcpy(ds->g,g,sizeof g); ds->hasgt=hasgt; ds->hassrs=srs!=0; ds->srs.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
            if (srs==1) ds->srs.SetFromUserInput("EPSG:4326"); else if (srs==2) { ds->srs.SetFromUserInput("EPSG:4326"); ds->srs=OGRSpatialReference(); ds->srs.SetProjCS("geos"); ds->srs.SetWellKnownGeogCS("WGS84"); ds->srs.SetGEOS(0,35785831,0,0); ds->srs.SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); } else if (srs==3) ds->srs.SetFromUserInput("LOCAL_CS[\"x\",UNIT[\"metre\",1]]");
            if (t!="none") { for (char& c:t) if (c=='_') c=' '; ds->SetMetadataItem(MD_MSAT_DATETIME,t.c_str(),MD_DOMAIN_MSAT); }
            for (int b=1;b<=nb;++b) {
                string c; int md; auto s=new Src(ds,b,w,bx,by); ds->put(b,s); in>>c; s->sc=D(); s->ofs=D(); in>>s->oksc>>s->okof>>s->fails>>md;
                if (md) s->SetMetadataItem("KEPT",c.c_str(),MD_DOMAIN_MSAT);
                if (c!="none") s->SetMetadataItem(MD_MSAT_CHANNEL_ID,c.c_str(),MD_DOMAIN_MSAT);
                s->data.resize((size_t)w*h); for (auto& x:s->data) { int v; in>>v; x=v; }
            }
            S.push_back(ds);
        }
        unique_ptr<GDALDataset> out;
        try {
            if (kind=="cos_sol_za") out.reset(new msat::utils::CosSolZADataset(S[0])); else if (kind=="sat_za") out.reset(new msat::utils::SatZADataset(S[0])); else if (kind=="jday") out.reset(new msat::utils::JDayDataset(S[0]));
            else { auto r=new msat::utils::ReflectanceDataset(ch); out.reset(r); int k=0; for (auto s:S) r->add_source(s,given>>k++&1); r->init_rasterband(); }
            auto b=out->GetRasterBand(1); int bx,by,w=out->GetRasterXSize(),h=out->GetRasterYSize(); b->GetBlockSize(&bx,&by); const char* kept=b->GetMetadataItem("KEPT",MD_DOMAIN_MSAT); const char* dt=out->GetMetadataItem(MD_MSAT_DATETIME,MD_DOMAIN_MSAT);
            printf("ok %d %d %d %d %d %d %s %s",w,h,bx,by,(int)b->GetRasterDataType(),out->GetRasterCount(),kept?kept:"-",dt?dt:"-"); if (kind=="reflectance") printf(" %s %g %g %g",b->GetUnitType(),b->GetOffset(nullptr),b->GetScale(nullptr),b->GetNoDataValue(nullptr));
            double g[6]; out->GetGeoTransform(g); printf(" %d %d |",memcmp(g,S[0]->g,sizeof g)==0,out->GetSpatialRef()&&out->GetSpatialRef()->IsSame(S[0]->GetSpatialRef()));
            size_t sz=GDALGetDataTypeSizeBytes(b->GetRasterDataType()); vector<vector<double>> v(h,vector<double>(w)); bool ok=true;
            for (int y=0;y<h/by;++y) for (int x=0;x<w/bx;++x) {
                unique_ptr<uint8_t[]> o(new uint8_t[(size_t)bx*by*sz]); memset(o.get(),0xaa,(size_t)bx*by*sz); if (b->ReadBlock(x,y,o.get())!=CE_None) { ok=false; continue; }
                for (int j=0;j<by;++j) for (int i=0;i<bx;++i) { uint8_t* p=o.get()+((size_t)j*bx+i)*sz; double z; if (sz==8) memcpy(&z,p,8); else if (sz==4) { float f; memcpy(&f,p,4); z=f; } else { int16_t f; memcpy(&f,p,2); z=f; } v[y*by+j][x*bx+i]=z; }
            }
            if (!ok) printf(" error"); else {
                unique_ptr<OGRSpatialReference> ll(S[0]->srs.CloneGeogCS()); ll->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER); unique_ptr<OGRCoordinateTransformation> T(OGRCreateCoordinateTransformation(&S[0]->srs,ll.get()));
                for (int y=0;y<h;++y) for (int x=0;x<w;++x) { double a=S[0]->g[0]+S[0]->g[1]*x+S[0]->g[2]*y, c=S[0]->g[3]+S[0]->g[4]*x+S[0]->g[5]*y; int okp=T->Transform(1,&a,&c); bits(a); bits(c); bits(v[y][x]); (void)okp; }
            }
        } catch (std::exception& e) { printf("refused"); }
        int before=gone; out.reset(); printf(" | %d %d",before,gone); for (size_t k=0;k<S.size();++k) if (!(kind=="reflectance") || !(given>>k&1)) delete S[k];
        printf("\n"); fflush(stdout);
    }
}
