// "<hex of a file>": parses it as an xRIT header from a file and prints the decoded records, or "EXC <what>".
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <typeinfo>
#include <unistd.h>
#include <msat/hrit/MSG_HRIT.h>
static std::string unhex(const std::string& h){ std::string v(h.size()/2,0); auto d=[](char c){return c<='9'?c-'0':c-'a'+10;}; for(size_t i=0;i<v.size();++i) v[i]=d(h[2*i])*16+d(h[2*i+1]); return v; }
static std::string hex(const std::string& s){ static const char* D="0123456789abcdef"; std::string o; for(unsigned char c:s){ o+=D[c>>4]; o+=D[c&15]; } return o; }
static std::string f9(float f){ char b[64]; snprintf(b,64,"%.9g",f); return b; }
template<class T> static std::string cds(T& t){ std::ostringstream o; o<<"day_from_epoch="<<t.get_day_from_epoch()<<",msec_in_day="<<t.get_msec_in_day()<<",unixtime="<<t.get_unixtime(); return o.str(); }
int main(){
  std::string l; std::cerr.setstate(std::ios::badbit);
  while(std::getline(std::cin,l)){
    std::string d=unhex(l); char nm[]="hdrXXXXXX"; int fd=mkstemp(nm); if(write(fd,d.data(),d.size())!=(ssize_t)d.size()) exit(3); close(fd);
    std::ostringstream o;
    try {
      std::ifstream in(nm,std::ios::binary); MSG_header h; h.read_from(in);
      o<<"primary type="<<(int)h.f_typecode<<" thl="<<h.total_header_length<<" dfl="<<h.data_field_length<<" size="<<h.filesize;
      if(auto p=h.image_structure) o<<"|struct bpp="<<(int)p->number_of_bits_per_pixel<<" cols="<<p->number_of_columns<<" lines="<<p->number_of_lines<<" comp="<<(int)p->compression_flag<<" pixels="<<p->image_pixels<<" size="<<p->image_size;
      if(auto p=h.image_navigation) o<<"|navig name="<<hex(p->pname)<<" lon="<<f9(p->subsatellite_longitude)<<" plane="<<f9(p->projection_plane)<<" plon="<<f9(p->projection_longitude)<<" csf="<<p->column_scaling_factor<<" lsf="<<p->line_scaling_factor<<" co="<<p->column_offset<<" lo="<<p->line_offset<<" CFAC="<<p->CFAC<<" LFAC="<<p->LFAC<<" COFF="<<p->COFF<<" LOFF="<<p->LOFF;
      if(auto p=h.image_data_function) o<<"|datafunc text="<<hex(p->data_definition_block);
      if(auto p=h.annotation) o<<"|annotation all="<<hex(p->annotation)<<" xrit_channel_id="<<hex(p->xrit_channel_id)<<" annotation_version="<<hex(p->annotation_version)<<" disseminating_s_c="<<hex(p->disseminating_s_c)<<" product_id_1="<<hex(p->product_id_1)<<" product_id_2="<<hex(p->product_id_2)<<" product_id_3="<<hex(p->product_id_3)<<" product_id_4="<<hex(p->product_id_4)<<" flags="<<hex(p->flags);
      if(auto p=h.timestamp) o<<"|timestamp "<<cds(*p);
      if(auto p=h.ancillary_text) o<<"|ancillary text="<<hex(p->ancillary_text);
      if(auto p=h.key) o<<"|key number="<<(int)p->key_number<<" seed="<<p->seed;
      if(auto p=h.segment_id) o<<"|segment sc="<<(int)p->spacecraft_id<<" ch="<<(int)p->spectral_channel_id<<" seq="<<p->sequence_number<<" start="<<p->planned_start_segment_sequence_number<<" end="<<p->planned_end_segment_sequence_number<<" fmt="<<(int)p->data_field_format;
      if(auto p=h.segment_quality){ o<<"|quality n="<<p->nlines; for(int i=0;i<p->nlines;++i) o<<" ["<<p->lq[i].line_number_in_grid<<","<<cds(p->lq[i].line_mean_acquisition)<<","<<(int)p->lq[i].line_validity<<","<<(int)p->lq[i].line_radiometric_quality<<","<<(int)p->lq[i].line_geometric_quality<<"]"; }
    } catch(std::exception& e){ o.str(""); o<<"EXC "<<typeid(e).name(); } catch(...){ o.str(""); o<<"THROWN non-standard exception"; }
    unlink(nm); std::string s=o.str()+"\n"; fputs(s.c_str(),stdout); fflush(stdout);
  }
}
