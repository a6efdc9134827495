// Views of msat/gdal/dataset over source bands made here. Each line:
//   block <type> <bx> <by> <xblock> <yblock> <offset> <scale> <hasnodata> <nodata> <fails> <counts...>   (doubles as hexadecimal bits)
//   info <type> <bx> <by> <offset> <scale> <min> <max> <okmin> <okmax>
//   types <type...>
#include <msat/gdal/dataset.h>
#include <gdal_priv.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
using namespace std;
struct Src : public GDALRasterBand {
    double ofs=0, sc=1, nd=0, mn=0, mx=0; int hasnd=0, okmn=1, okmx=1, fails=0, n=0; vector<uint8_t> data; int X=-1, Y=-1;
    Src(GDALDataset* ds, int b, GDALDataType t, int bx, int by) { poDS=ds; nBand=b; eDataType=t; nBlockXSize=bx; nBlockYSize=by; }
    double GetOffset(int* ok) override { if (ok) *ok=1; return ofs; }
    double GetScale(int* ok) override { if (ok) *ok=1; return sc; }
    double GetNoDataValue(int* ok) override { if (ok) *ok=hasnd; return nd; }
    double GetMinimum(int* ok) override { if (ok) *ok=okmn; return mn; }
    double GetMaximum(int* ok) override { if (ok) *ok=okmx; return mx; }
    const char* GetUnitType() override { return "unit of the source"; }
    CPLErr IReadBlock(int x, int y, void* b) override { X=x; Y=y; if (fails) return CE_Failure; memcpy(b,data.data(),data.size()); return CE_None; }
};
struct Ds : public GDALDataset { Ds(int w, int h) { nRasterXSize=w; nRasterYSize=h; } void put(int i, GDALRasterBand* b) { SetBand(i,b); } };
static double dbl(const string& h) { uint64_t u=stoull(h,nullptr,16); double d; memcpy(&d,&u,8); return d; }
static void bits(double d) { uint64_t u; memcpy(&u,&d,8); printf(" %016llx",(unsigned long long)u); }
int main() {
    CPLPushErrorHandler(CPLQuietErrorHandler); string line;
    while (getline(cin,line)) {
        istringstream in(line); string op; in>>op; auto D=[&]{ string h; in>>h; return dbl(h); };
        if (op=="types") {
            Ds ds(7,5); int t, i=0; while (in>>t) { auto s=new Src(&ds,++i,(GDALDataType)t,7,1); s->mn=100+i; ds.put(i,s); }
            msat::dataset::CalibratedDataset v(ds); printf("%d %d %d",v.GetRasterXSize(),v.GetRasterYSize(),v.GetRasterCount());
            for (int k=1;k<=v.GetRasterCount();++k) { auto b=v.GetRasterBand(k); printf(" %d:%d:%d:%g",b->GetBand(),(int)b->GetRasterDataType(),b->GetDataset()==&v,b->GetMinimum(nullptr)); }
        } else {
            int t,bx,by; in>>t>>bx>>by; int xb=0,yb=0; if (op=="block") in>>xb>>yb;
            Ds ds(bx*3,by*3); auto s=new Src(&ds,1,(GDALDataType)t,bx,by); ds.put(1,s); s->ofs=D(); s->sc=D();
            size_t sz=GDALGetDataTypeSizeBytes((GDALDataType)t);
            if (op=="block") {
                in>>s->hasnd; s->nd=D(); in>>s->fails; s->data.resize((size_t)bx*by*sz); long c; size_t k=0; while (in>>c && k<(size_t)bx*by) { if (sz==1) s->data[k]=c; else { uint16_t u=c; memcpy(&s->data[2*k],&u,2); } ++k; }
                msat::dataset::CalibratedDataset v(ds); auto b=v.GetRasterBand(1); size_t vs=GDALGetDataTypeSizeBytes(b->GetRasterDataType());
                unique_ptr<uint8_t[]> o(new uint8_t[(size_t)bx*by*vs]); memset(o.get(),0xaa,(size_t)bx*by*vs);
                CPLErr r=b->ReadBlock(xb,yb,o.get()); printf("%d %d %d",(int)b->GetRasterDataType(),(int)(r!=CE_Failure),(s->X==xb)+2*(s->Y==yb));
                if (r!=CE_Failure) for (size_t i=0;i<(size_t)bx*by;++i) { if (vs==4) { uint32_t u; memcpy(&u,o.get()+4*i,4); printf(" %08x",u); } else if (vs==1) printf(" %d",o[i]); else { uint16_t u; memcpy(&u,o.get()+2*i,2); printf(" %d",u); } }
            } else {
                s->mn=D(); s->mx=D(); in>>s->okmn>>s->okmx; msat::dataset::CalibratedDataset v(ds); auto b=v.GetRasterBand(1); int ok[5]={9,9,9,9,9};
                int x,y; b->GetBlockSize(&x,&y); printf("%d %d",x,y); bits(b->GetOffset(ok)); bits(b->GetScale(ok+1)); double nd=b->GetNoDataValue(ok+2); if (ok[2]) bits(nd); else printf(" none"); bits(b->GetMinimum(ok+3)); bits(b->GetMaximum(ok+4));
                for (int k:ok) printf(" %d",k); printf(" %s",b->GetUnitType());
            }
        }
        printf("\n"); fflush(stdout);
    }
}
