// The xRIT dataset over a scene made here (the files themselves are replaced). Each line:
//   <hrv> <channel> <bits> <hrit spacecraft> <column step> <line step> <longitude> <time: 10 bytes in hexadecimal> <slope> <offset> <start> <columns> <seed>   (reals as hexadecimal bits)
//   followed by blocks: xblock:yblock[:pixel,pixel,...]
#include <gdal/gdal_priv.h>
#include <gdal/xrit/dataset.h>
#include <gdal/xrit/rasterband.h>
#include <msat/hrit/MSG_HRIT.h>
#include <ogr_spatialref.h>
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <iostream>
#include <sstream>
#include <vector>
#include <memory>
#include <set>
using namespace std;
static struct { int hrv, ch, bits, sc; float cs, ls, lon; string time; double slope, offset; unsigned long long start, cols; uint64_t seed; } G;
static set<unsigned long long> asked;
static unsigned sample(uint64_t line, uint64_t i) { uint64_t x=(G.seed*1000003+line)*6364136223846793005ull+i*1442695040888963407ull; x^=x>>29; x*=0xbf58476d1ce4e5b9ull; x^=x>>32; return x&((1u<<G.bits)-1); }
namespace msat { namespace xrit {
DataAccess::DataAccess() {}
DataAccess::~DataAccess() {}
size_t DataAccess::line_start(size_t line) const { asked.insert(line); return G.start; }
void DataAccess::line_read(size_t line, MSG_SAMPLE* buf) const { asked.insert(line); for (size_t i=0;i<columns;++i) buf[i]=sample(line,i); }
void DataAccess::scan(const FileAccess&, MSG_data& pro, MSG_data&, MSG_header& h) {
    hrv=G.hrv; columns=G.cols; lines=0; swapX=swapY=false;
    h.segment_id=new MSG_header_segment_id(); h.segment_id->spectral_channel_id=G.ch; h.segment_id->spacecraft_id=(t_enum_MSG_spacecraft)G.sc;
    h.image_structure=new MSG_header_image_struct(); h.image_structure->number_of_bits_per_pixel=G.bits;
    h.image_navigation=new MSG_header_image_navig(); h.image_navigation->subsatellite_longitude=G.lon;
    auto p=pro.prologue=new MSG_data_level_15_header();
    auto& g=G.hrv?p->image_description.ReferenceGridHRV:p->image_description.ReferenceGridVIS_IR; auto& o=G.hrv?p->image_description.ReferenceGridVIS_IR:p->image_description.ReferenceGridHRV;
    g.ColumnDirGridStep=G.cs; g.LineDirGridStep=G.ls; o.ColumnDirGridStep=77; o.LineDirGridStep=78;
    for (int i=0;i<12;++i) { p->radiometric_proc.ImageCalibration[i].Cal_Slope=i==G.ch-1?G.slope:123; p->radiometric_proc.ImageCalibration[i].Cal_Offset=i==G.ch-1?G.offset:-7; }
    unsigned char b[16]={0}; auto& t=p->image_acquisition.PlannedAquisitionTime; for (auto x: {&t.TrueRepeatCycleStart,&t.PlannedForwardScanEnd,&t.PlannedRepeatCycleEnd}) { for (int i=0;i<10;++i) b[i]=x==&t.TrueRepeatCycleStart?stoi(G.time.substr(2*i,2),nullptr,16):i==1?0x11:0; x->read_from(b); }
}
} }
static double dbl(const string& h) { uint64_t u=stoull(h,nullptr,16); double d; memcpy(&d,&u,8); return d; }
static float flt(const string& h) { uint32_t u=stoull(h,nullptr,16); float d; memcpy(&d,&u,4); return d; }
static void bits(double d) { uint64_t u; memcpy(&u,&d,8); printf(" %016llx",(unsigned long long)u); }
static const char* s(const char* x) { return x?x:"(none)"; }
int main() {
    CPLPushErrorHandler(CPLQuietErrorHandler); string line;
    while (getline(cin,line)) {
        istringstream in(line); string a,b,c,d,e; in>>G.hrv>>G.ch>>G.bits>>G.sc>>a>>b>>c>>G.time>>d>>e>>G.start>>G.cols>>G.seed; G.cs=flt(a); G.ls=flt(b); G.lon=flt(c); G.slope=dbl(d); G.offset=dbl(e);
        {
            msat::xrit::FileAccess fa; unique_ptr<msat::xrit::XRITDataset> ds(new msat::xrit::XRITDataset(fa));
            if (!ds->init()) printf("refused");
            else {
                printf("%d %d %d %s|%s|%s",ds->GetRasterXSize(),ds->GetRasterYSize(),ds->GetRasterCount(),s(ds->GetMetadataItem("MSAT_SPACECRAFTID","")),s(ds->GetMetadataItem("MSAT_SPACECRAFT","")),s(ds->GetMetadataItem("MSAT_DATETIME","")));
                double g[6]; printf(" %d",(int)ds->GetGeoTransform(g)); for (double x: g) bits(x); auto r=ds->GetSpatialRef(); printf(" %.9g",r?r->GetProjParm("central_meridian",-999):-998);
                auto rb=ds->GetRasterBand(1); int bx,by,ok[3]={9,9,9}; rb->GetBlockSize(&bx,&by); printf(" %d %d %d %d %s|%s|%s|%s",bx,by,(int)rb->GetRasterDataType(),rb->GetBand(),s(rb->GetMetadataItem("MSAT_CHANNELID","")),s(rb->GetMetadataItem("MSAT_CHANNEL","")),rb->GetDescription(),s(rb->GetUnitType()));
                bits(rb->GetScale(ok)); bits(rb->GetOffset(ok+1)); bits(rb->GetNoDataValue(ok+2)); printf(" %d%d%d",ok[0],ok[1],ok[2]);
                int px=GDALGetDataTypeSizeBytes(rb->GetRasterDataType()); string op;
                while (in>>op) {
                    for (auto& ch: op) if (ch==':'||ch==',') ch=' ';
                    istringstream o(op); int x,y; o>>x>>y; asked.clear(); size_t n=(size_t)bx*px; unique_ptr<uint8_t[]> buf(new uint8_t[n]); memset(buf.get(),0xa5,n);
                    CPLErr e=static_cast<msat::xrit::XRITRasterBand*>(rb)->IReadBlock(x,y,buf.get()); printf(";%d",(int)(e!=CE_None)); if (e!=CE_None) continue;
                    printf(" %d",(int)(asked.size()==1 && *asked.begin()==(unsigned long long)y)); long long k; auto val=[&](size_t i){ if (px==4) { float f; memcpy(&f,buf.get()+4*i,4); return (double)f; } uint16_t u; memcpy(&u,buf.get()+2*i,2); return (double)u; };
                    size_t stray=0; for (size_t i=0;i<(size_t)bx;++i) if ((i<G.start||i-G.start>=G.cols)&&val(i)!=0) ++stray;
                    printf(" %zu",stray); while (o>>k) printf(" %.9g",val(k));
                }
            }
        }
        printf("\n"); fflush(stdout);
    }
}
