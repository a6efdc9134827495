// Each line: "<short xRIT name>;op;op;..."; prints "scan fields;answer;answer;..." (see below), or "EXC" where a standard exception is thrown.
// ops: Ln line_read, Tn line_start, Sn segment, M path / U path: move a file away / put it back (scratch files only)
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <msat/xrit/dataaccess.h>
#include <msat/xrit/fileaccess.h>
#include <msat/hrit/MSG_HRIT.h>
static long live=0;
extern "C" { void __real__ZN8MSG_dataC1Ev(void*); void __real__ZN8MSG_dataD1Ev(void*);
void __wrap__ZN8MSG_dataC1Ev(void* p){ ++live; __real__ZN8MSG_dataC1Ev(p); }
void __wrap__ZN8MSG_dataD1Ev(void* p){ --live; __real__ZN8MSG_dataD1Ev(p); } }
// AddressSanitizer's own wrapper of glob() does not know GLOB_DOOFFS (it follows the reserved null entries): call the C library directly
extern "C" int __wrap_glob64(const char* p,int f,int (*e)(const char*,int),void* g){ static void* h=dlopen("libc.so.6",RTLD_NOW); return ((int(*)(const char*,int,int(*)(const char*,int),void*))dlsym(h,"glob64"))(p,f,e,g); }
extern "C" int __wrap_glob(const char* p,int f,int (*e)(const char*,int),void* g){ return __wrap_glob64(p,f,e,g); }
using namespace msat::xrit;
template<class F> static std::string tr(F f){ try { return f(); } catch(std::exception& e){ return "EXC"; } catch(...){ return "THROWN"; } }
int main(){
  std::string l; std::cerr.setstate(std::ios::badbit); std::cout.setstate(std::ios::badbit);
  while(std::getline(std::cin,l)){
    std::istringstream in(l); std::string name,op; std::getline(in,name,';'); std::string out; live=0;
    {
      DataAccess da; long base=0; MSG_data pro,epi; MSG_header h;
      out=tr([&]{ std::ostringstream o; FileAccess fa(name); da.scan(fa,pro,epi,h); o<<"seglines="<<da.seglines<<" columns="<<da.columns<<" lines="<<da.lines<<" hrv="<<da.hrv<<" swapX="<<da.swapX; return o.str(); });
      bool ok=out!="EXC"; base=live;
      while(ok && std::getline(in,op,';')){
        size_t n=op[0]=='M'||op[0]=='U'?0:strtoull(op.c_str()+1,0,10);
        switch(op[0]){
          case 'L': out+=";"+tr([&]{ std::vector<MSG_SAMPLE> b(da.columns+8,0x5a5a); da.line_read(n,b.data()); std::ostringstream o; unsigned long long hs=0; for(size_t i=0;i<da.columns;++i) hs=hs*1000003ull+b[i]+1; o<<hs; for(int i=0;i<8;++i) if(b[da.columns+i]!=0x5a5a) o<<" OUTSIDE"; return o.str(); }); break;
          case 'T': out+=";"+tr([&]{ return std::to_string(da.line_start(n)); }); break;
          case 'S': out+=";"+tr([&]{ MSG_data* d=da.segment(n); if(!d) return std::string("none"); return std::to_string(d->image->data[0])+","+std::to_string(d->image->data[1]); }); break;
          case 'M': rename(op.c_str()+1,(op.substr(1)+".away").c_str()); continue;
          case 'U': rename((op.substr(1)+".away").c_str(),op.c_str()+1); continue;
        }
        if(live-base>2) out+=" MORE THAN TWO SEGMENTS LOADED";
      }
    }
    if(live) out+=" "+std::to_string(live)+" SEGMENTS LEFT LOADED";
    puts(out.c_str()); fflush(stdout);
  }
}
