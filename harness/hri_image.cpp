// Reads commands on stdin; runs HRI_image of the repository.
#include <msat/hri/HRI_image.h>
#include <iostream>
#include <sstream>
#include <cstdio>
#include <cstring>
#include <vector>
#include <memory>
#include <stdexcept>
static std::unique_ptr<unsigned char[]> gen(unsigned seed,int n){ std::unique_ptr<unsigned char[]> b(new unsigned char[n>0?n:1]); unsigned x=seed*2654435761u+12345u; for(int i=0;i<n;i++){ x=x*1664525u+1013904223u; b[i]=x>>24; } return b; }
static unsigned fnv(const unsigned char*p,int n){ unsigned h=2166136261u; for(int i=0;i<n;i++) h=(h^p[i])*16777619u; return h; }
int main(){ std::string l; std::cerr.setstate(std::ios::failbit); while(std::getline(std::cin,l)){ std::istringstream in(l); std::string c,op; in>>c; std::string o;
  try {
    if(c=="shape"){ int s,f,b,f2,b2; in>>s>>f>>b; HRI_image i((HRI_image_satellite)s,(HRI_image_format)f,(HRI_image_band)b); 
      if(in>>f2>>b2) i.set_format_band((HRI_image_satellite)s,(HRI_image_format)f2,(HRI_image_band)b2);
      memset(i.get_image(),1,(size_t)i.npixels*i.nlines); char t[200]; snprintf(t,200,"shape %d %d %g %g %s %s %d",i.npixels,i.nlines,i.samplex,i.sampley,i.units.c_str(),i.long_name.c_str(),i.get_image_band()); o=t; }
    else if(c=="cal"){ int s,b,k; float cc,sc; in>>s>>b>>k>>cc>>sc; HRI_image i((HRI_image_satellite)s,A_FORMAT,(HRI_image_band)b); calibration_coefficients q; q.mpef_absolute=cc; q.space_count=sc; if(k) i.set_calibration(&q); const float*t=i.get_calibration(); o="cal"; char x[40]; for(int j=0;j<256;j++){ snprintf(x,40," %.9g",t[j]); o+=x; } }
    else if(c=="img"){ int s,f,b; in>>s>>f>>b; HRI_image i((HRI_image_satellite)s,(HRI_image_format)f,(HRI_image_band)b); memset(i.get_image(),0,(size_t)i.npixels*i.nlines); o="img";
      while(in>>op){ long a,q,r,d; std::string res;
        try {
          if(op=="P"){ in>>a>>q>>r; auto p=gen(r,q); i.put_line(p.get(),q,a); res="ok"; }
          else if(op=="H"){ in>>a>>q>>r>>d; auto p=gen(r,q); i.put_halfline(p.get(),q,a,d); res="ok"; }
          else if(op=="L"){ in>>a; res=std::to_string(fnv(i.get_line(a),i.npixels)); }
          else if(op=="X"){ in>>a>>q; res=std::to_string((int)i.get_pixel(a,q)); }
          else if(op=="A"){ res=std::to_string(fnv(i.get_image(),i.npixels*i.nlines)); }
        } catch(std::exception&e){ res="THROW"; }
        o+=" "+res; } }
  } catch(std::exception&e){ o="THROW"; }
  printf("%s\n",o.c_str()); fflush(stdout); } }
