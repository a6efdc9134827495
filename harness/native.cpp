// "pkh <hex38>", "lh <hex27>", "marf <hex5114>", "unpack <hex>", "file <path>": decode with the real classes, members printed as the hex of the object
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <msat/msg-native/MSG_native.h>
typedef std::vector<unsigned char> B;
static B unhex(const std::string& h){ B v(h.size()/2); auto d=[](char c){return c<='9'?c-'0':c-'a'+10;}; for(size_t i=0;i<v.size();++i) v[i]=d(h[2*i])*16+d(h[2*i+1]); return v; }
static void hex(std::string& o,const void* p,size_t n){ static const char* D="0123456789abcdef"; const unsigned char* q=(const unsigned char*)p; for(size_t i=0;i<n;++i){ o+=D[q[i]>>4]; o+=D[q[i]&15]; } }
static void texts(std::string& o,U_MARF_Header& u){ for(unsigned i=0;i<U_MARF_Header::mph_lines;++i){ o+=" t"; hex(o,u.mphinfo[i].data(),u.mphinfo[i].size()); } }
static unsigned char* exact(const B& b){ unsigned char* p=(unsigned char*)malloc(b.size()?b.size():1); if(b.size()) memcpy(p,b.data(),b.size()); return p; }
int main(){
  std::string l;
  while(std::getline(std::cin,l)){
    size_t s=l.find(' '); std::string c=l.substr(0,s),a=l.substr(s+1),o=c;
    if(c=="pkh"){ unsigned char* p=exact(unhex(a)); IMPF_Packet_Header h; h.read_from(p); o+=" "; hex(o,&h,sizeof h); free(p); }
    else if(c=="lh"){ unsigned char* p=exact(unhex(a)); MSG_native_lineheader h; h.read_from(p); o+=" "; hex(o,&h,sizeof h); free(p); }
    else if(c=="marf"){ B b=unhex(a); b.push_back(0); unsigned char* p=exact(b); U_MARF_Header u; u.read_from(p); texts(o,u); free(p); }
    else if(c=="unpack"){ B b=unhex(a); for(int given=0;given<2;++given){ MSG_native_linedata d; d.datasize=b.size(); d.data_10bit=new unsigned char[b.size()]; if(b.size()) memcpy(d.data_10bit,b.data(),b.size());
        unsigned short* sm=given?new unsigned short[b.size()*8/10]:0; long n=-1; d.to_sample(&sm,&n); o+=" "+std::to_string(n)+" "; if(n>=0&&n<100000) hex(o,sm,n*2); delete[] sm; } }
    else if(c=="file"){
      MSG_native* m=new MSG_native;
      try {
        if(!m->open((char*)a.c_str())) o+=" cannot open";
        else {
          m->read(); texts(o,m->header.mph_sph_header); o+=" p"; hex(o,&m->header.impf_packet_header,sizeof(IMPF_Packet_Header)); o+=" p"; hex(o,&m->trailer.impf_packet_header,sizeof(IMPF_Packet_Header));
#define R(X) o+=" r"; hex(o,&X,sizeof X);
          R(m->header.l15.sat_status) R(m->header.l15.image_acquisition) R(m->header.l15.celestial_events) R(m->header.l15.image_description) R(m->header.l15.radiometric_proc) R(m->header.l15.geometric_proc) R(m->header.l15.IMPF_config)
          R(m->trailer.l15.product_stats) R(m->trailer.l15.navig_result) R(m->trailer.l15.radiometric_qlty) R(m->trailer.l15.geometric_qlty) R(m->trailer.l15.timelin_comple)
          for(int i=0;i<12;++i){ o+=" c"+std::to_string(m->line[i].size())+","+std::to_string(m->lines(i))+","+std::to_string(m->pixels(i))+",";
            unsigned short* d=m->data(i); if(d){ hex(o,d,(size_t)m->lines(i)*m->pixels(i)*2); delete[] d; } else o+="-";
            for(auto& q:m->line[i]){ o+=" l"; hex(o,&q.pkh,sizeof q.pkh); o+=" h"; hex(o,&q.header,sizeof q.header); o+=" d"; hex(o,q.data.data_10bit,q.data.datasize); } }
          m->close(); }
      } catch(std::exception& e){ o+=" EXC"; }
      delete m;
    }
    o+="\n"; fputs(o.c_str(),stdout); fflush(stdout);
  }
}
