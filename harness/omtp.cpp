// "file HEX", "FileHeader|RecordHeader|LineHeader|ScanLine HEX": read with the real classes, values and what writing gives; "set CLS v..": by the setters;
// "new CLS"; "sel HEX all | one N | A B": line numbers and pixels of the lines selected; "disk HEX path": write() to and read() from a file
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <fstream>
#include <unistd.h>
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#include <msat/omtp-ids/ByteSex.hh>
static std::string unhex(const std::string& h){ std::string v(h.size()/2,0); auto d=[](char c){return c<='9'?c-'0':c-'a'+10;}; for(size_t i=0;i<v.size();++i) v[i]=d(h[2*i])*16+d(h[2*i+1]); return v; }
static std::string hex(const void* p,size_t n){ static const char* D="0123456789abcdef"; std::string o; const unsigned char* q=(const unsigned char*)p; for(size_t i=0;i<n;++i){ o+=D[q[i]>>4]; o+=D[q[i]&15]; } return o; }
static std::string hex(const std::string& s){ return hex(s.data(),s.size()); }
static std::string n(long v){ return std::to_string(v); }
#define N(f) +" "+n(h.f())
static std::string dump(const FileHeader& h){ return hex(h.fortran(),2) N(no_records) N(year) N(julian_day) N(hour) N(minute) N(process_year) N(process_julian_day) N(process_hour) N(process_minute) N(no_channels) N(vis_id) N(wv_id) N(ir_id) +" "+hex(std::string(h.satellite())) N(satellite_id) N(record_length) N(no_vis_average) N(no_wv_average) N(no_ir_average) N(averaging_type) N(sample_interval) N(ir_calibration) N(wv_calibration) N(fine_adjustment) N(ir_space_count) N(wv_space_count); }
static std::string dump(const RecordHeader& h){ return hex(h.fortran(),2) N(record_header_length) N(no_scanlines) N(record_length) N(zero); }
static std::string dump(const LineHeader& h){ return n(h.length()) N(line) N(start) N(no_pixels) N(channel_id) N(quality) +" "+n(h.pad()[0])+" "+n(h.pad()[1]); }
static std::string dump(const ScanLine& l){ std::string s=dump(l.lineheader())+" ["; if(l.linepixel().size()) s+=hex(&l.linepixel()[0],l.linepixel().size()); return s+"]"; }
static std::string dump(const OpenMTP_IDS& p){ std::string s=dump(p.fileheader()); for(size_t i=0;i<p.record().size();++i){ const Record& r=p.record()[i]; s+=" R "+dump(r.recordheader()); for(size_t j=0;j<r.scanline().size();++j) s+=" L "+dump(r.scanline()[j]); } return s; }
template<class C> static std::string through(const std::string& b){
  std::string o; std::istringstream is(b+std::string("\x5a\xa5",2)); C c;
  try { is>>c; } catch(const char* e){ return " THROW"; }
  if(!is.good()) return " FAILED";
  o=" "+dump(c)+" @"+n((long)is.tellg()-(long)b.size());
  std::ostringstream os;
  try { os<<c; } catch(const char* e){ return o+" REFUSED"; }
  return o+" "+hex(os.str());
}
static void setall(FileHeader& h,std::istringstream& i){ std::string t; int v; i>>t; t=unhex(t); if(t.size()&&t[0]&&t[1]) h.fortran(t.c_str());
#define S(f) i>>v; h.f(v);
  S(no_records) S(year) S(julian_day) S(hour) S(minute) S(process_year) S(process_julian_day) S(process_hour) S(process_minute) S(no_channels) S(vis_id) S(wv_id) S(ir_id) i>>t; h.satellite(unhex(t=="-"?"":t).c_str()); S(satellite_id) S(record_length) S(no_vis_average) S(no_wv_average) S(no_ir_average) S(averaging_type) S(sample_interval) S(ir_calibration) S(wv_calibration) S(fine_adjustment) S(ir_space_count) S(wv_space_count) }
static void setall(RecordHeader& h,std::istringstream& i){ std::string t; int v; i>>t; t=unhex(t); if(t.size()&&t[0]&&t[1]) h.fortran(t.c_str()); S(record_header_length) S(no_scanlines) S(record_length) S(zero) }
static void setall(LineHeader& h,std::istringstream& i){ int v,p[2]; S(length) S(line) S(start) S(no_pixels) S(channel_id) S(quality) i>>p[0]>>p[1]; h.pad(p); }
template<class C> static std::string made(std::istringstream& i,bool set){ C c; if(set) setall(c,i); std::ostringstream os; os<<c; return " "+dump(c)+" "+hex(os.str()); }
int main(){
  std::string l;
  while(std::getline(std::cin,l)){
    std::istringstream i(l); std::string c,a; i>>c; if(c!="line") i>>a; std::string o=c;
    try {
    if(c=="file") o+=through<OpenMTP_IDS>(unhex(a));
    else if(c=="FileHeader") o+=through<FileHeader>(unhex(a));
    else if(c=="RecordHeader") o+=through<RecordHeader>(unhex(a));
    else if(c=="LineHeader") o+=through<LineHeader>(unhex(a));
    else if(c=="ScanLine") o+=through<ScanLine>(unhex(a));
    else if(c=="line"){ ScanLine q; setall(q.lineheader(),i); std::string px; i>>px; px=unhex(px); q.linepixel().assign(px.begin(),px.end()); std::ostringstream os; os<<q; o+=" "+hex(os.str()); }
    else if(c=="bs"){ int w,k; unsigned long long v; i>>w>>k>>v; std::stringstream s; unsigned long long r=0; bool b=a=="big";
#define W(n) if(w==n){ if(b) ByteSex::big::write##n(s,v,k); else ByteSex::little::write##n(s,v,k); o+=" "+hex(s.str()); r=b?ByteSex::big::read##n(s,k):ByteSex::little::read##n(s,k); }
      W(2) W(4) W(8) o+=" "+std::to_string(r); }
    else if(c=="set"||c=="new") o+=a=="FileHeader"?made<FileHeader>(i,c=="set"):a=="RecordHeader"?made<RecordHeader>(i,c=="set"):made<LineHeader>(i,c=="set");
    else if(c=="sel"){
      OpenMTP_IDS p; std::istringstream is(unhex(a)); is>>p; std::string w; i>>w; std::vector<ScanLine> v;
      if(w=="all") v=p.scanline(); else if(w=="one"){ unsigned k; i>>k; v=p.scanline(k); } else { unsigned k; i>>k; v=p.scanline((unsigned)std::strtoul(w.c_str(),0,10),k); }
      for(size_t k=0;k<v.size();++k) o+=" L "+dump(v[k]);
    }
    else if(c=="disk"){
      OpenMTP_IDS p,q; std::istringstream is(unhex(a)); is>>p; std::string f; i>>f; p.write(f.c_str()); std::ifstream t(f.c_str(),std::ios::binary); std::stringstream ss; ss<<t.rdbuf(); q.read(f.c_str()); o+=" "+hex(ss.str())+" "+dump(q); unlink(f.c_str());
      try { OpenMTP_IDS m; m.read((f+".none").c_str()); o+=" READ"; } catch(const char* e){ o+=strstr(e,"none")?" missing":" unclear"; }
    }
    } catch(const char* e){ o+=" THROW"; }
    o+="\n"; fputs(o.c_str(),stdout); fflush(stdout);
  }
}
