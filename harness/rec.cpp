// Reads "<Class> <hex>" lines, decodes the record with the real read_from into 0xA5-filled storage of exactly
// sizeof(Class) and prints "<returned length> <hex of the storage>".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <msat/hrit/MSG_HRIT.h>
#include <unistd.h>
static std::vector<unsigned char> unhex(const std::string& h){ std::vector<unsigned char> v(h.size()/2); auto d=[](char c){return c<='9'?c-'0':c-'a'+10;}; for(size_t i=0;i<v.size();++i) v[i]=d(h[2*i])*16+d(h[2*i+1]); return v; }
static void hex(std::string& o,const void* p,size_t n){ static const char* D="0123456789abcdef"; const unsigned char* q=(const unsigned char*)p; for(size_t i=0;i<n;++i){ o+=D[q[i]>>4]; o+=D[q[i]&15]; } }
template<class T> static bool run(const char* name,const std::string& cls,const std::vector<unsigned char>& b){
  if(cls!=name) return false;
  unsigned char* in=(unsigned char*)malloc(b.size()?b.size():1); memcpy(in,b.data(),b.size());
  unsigned char* mem=(unsigned char*)malloc(sizeof(T)); memset(mem,0xA5,sizeof(T));
  T* t=reinterpret_cast<T*>(mem); asm volatile(""::"r"(t):"memory");
  size_t r=t->read_from(in); asm volatile(""::"r"(t):"memory");
  std::string o=std::to_string(r)+" "; hex(o,mem,sizeof(T)); o+="\n"; fputs(o.c_str(),stdout); fflush(stdout);
  free(mem); free(in); return true;
}
// "file <typecode> <product id> <data hex>": the data field through MSG_data, hex of each decoded record in order
static void file(const std::string& rest){
  size_t a=rest.find(' '),b=rest.find(' ',a+1); int type=atoi(rest.c_str()); std::string pid=rest.substr(a+1,b-a-1); std::vector<unsigned char> d=unhex(rest.substr(b+1));
  char nm[]="datXXXXXX"; int fd=mkstemp(nm); if(write(fd,d.data(),d.size())!=(ssize_t)d.size()) exit(3); close(fd);
  std::string o;
  { std::ifstream in(nm,std::ios::binary);
  MSG_header h; h.f_typecode=(t_enum_MSG_filetype)type; h.data_field_length=d.size()*8;
  MSG_header_annotation an; an.product_id_1=pid; h.annotation=&an;
  { MSG_data m; m.read_from(in,h);
    o="-";
    if(m.prologue){ o="P"; auto& p=*m.prologue;
      o+=" "; hex(o,&p.sat_status,sizeof p.sat_status); o+=" "; hex(o,&p.image_acquisition,sizeof p.image_acquisition); o+=" "; hex(o,&p.celestial_events,sizeof p.celestial_events);
      o+=" "; hex(o,&p.image_description,sizeof p.image_description); o+=" "; hex(o,&p.radiometric_proc,sizeof p.radiometric_proc); o+=" "; hex(o,&p.geometric_proc,sizeof p.geometric_proc); }
    if(m.epilogue){ o="E"; auto& p=*m.epilogue;
      o+=" "; hex(o,&p.product_stats,sizeof p.product_stats); o+=" "; hex(o,&p.navig_result,sizeof p.navig_result); o+=" "; hex(o,&p.radiometric_qlty,sizeof p.radiometric_qlty);
      o+=" "; hex(o,&p.geometric_qlty,sizeof p.geometric_qlty); o+=" "; hex(o,&p.timelin_comple,sizeof p.timelin_comple); }
  }
  h.annotation=0; }
  unlink(nm); o+="\n"; fputs(o.c_str(),stdout); fflush(stdout);
}
int main(){
  std::string l;
  while(std::getline(std::cin,l)){
    size_t s=l.find(' '); std::string c=l.substr(0,s);
    if(c=="file"){ file(l.substr(s+1)); continue; }
    std::vector<unsigned char> b=unhex(l.substr(s+1)); bool ok=false;
#define R(T) ok=ok||run<T>(#T,c,b);
    R(MSG_data_SatelliteStatus) R(MSG_data_ImageAcquisition) R(MSG_data_CelestialEvents) R(MSG_data_ImageDescription) R(MSG_data_RadiometricProc) R(MSG_data_GeometricProc)
    R(MSG_data_IMPFConfiguration) R(MSG_data_ImageProdStats) R(MSG_data_NavigExtrResult) R(MSG_data_RadiometricQuality) R(MSG_data_GeometricQuality) R(MSG_data_TimelinComple)
    R(MSG_SGSCommonHeader)
    if(!ok){ puts("?"); fflush(stdout); }
  }
}
