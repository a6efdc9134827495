// instances of the inline functions of msat/gdal/points.h, for extraction
#include <msat/gdal/points.h>
void geo_instances(msat::proj::ImageBox& a, msat::proj::ProjectedBox& b, msat::proj::MapBox& c, int* i, double* d, bool* r)
{
    a.boundingBox(i[0],i[1],i[2],i[3]); b.boundingBox(d[0],d[1],d[2],d[3]); c.boundingBox(d[0],d[1],d[2],d[3]);
    r[0]=a.isNonZero(); r[1]=b.isNonZero(); r[2]=c.isNonZero();
}
