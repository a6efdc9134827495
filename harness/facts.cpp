// "<function> <args>": prints the result of the facts function ("%.17g" for doubles, EXC for an exception)
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <stdexcept>
#include <msat/facts.h>
using namespace msat::facts; using std::string;
static string D(double d){ char b[64]; snprintf(b,64,"%.17g",d); return d!=d?"nan":b; }
static double rd(std::istream& i){ string s; i>>s; return strtod(s.c_str(),0); }
int main(){
  string l;
  while(std::getline(std::cin,l)){
    std::istringstream in(l); string f; in>>f; string o;
    auto I=[&]{ int x; in>>x; return x; };
    try {
      if(f=="spacecraftIDFromHRIT") o=std::to_string(spacecraftIDFromHRIT(I()));
      else if(f=="spacecraftIDToHRIT") o=std::to_string(spacecraftIDToHRIT(I()));
      else if(f=="spacecraftName") o=spacecraftName(I());
      else if(f=="spacecraftID"){ string n; std::getline(in,n); o=std::to_string(spacecraftID(n.substr(1))); }
      else if(f=="sensorName") o=sensorName(I());
      else if(f=="channelName"){ int a=I(),b=I(); o=channelName(a,b); }
      else if(f=="channelUnit"){ int a=I(),b=I(); o=channelUnit(a,b); }
      else if(f=="channelLevel"){ int a=I(),b=I(); o=channelLevel(a,b); }
      else if(f=="channel_central_wavelength"){ int a=I(),b=I(); o=D(channel_central_wavelength(a,b)); }
      else if(f=="channel_central_wave_number"){ int a=I(),b=I(); o=D(channel_central_wave_number(a,b)); }
      else if(f=="channel_from_central_wavelength"){ int a=I(); o=std::to_string(channel_from_central_wavelength(a,rd(in))); }
      else if(f=="channel_from_central_wave_number"){ int a=I(); o=std::to_string(channel_from_central_wave_number(a,rd(in))); }
      else if(f=="significantDigitsForChannel") o=std::to_string(significantDigitsForChannel(I()));
      else if(f=="defaultPackedMissing") o=D(defaultPackedMissing(I()));
      else if(f=="defaultScaledMissing") o=D(defaultScaledMissing(I()));
      else if(f=="jday"){ int a=I(),b=I(),c=I(); o=std::to_string(jday(a,b,c)); }
      else if(f=="cza3"){ int j=I(); double h=rd(in),a=rd(in),b=rd(in); o=D(cos_sol_za(j,h,a,b)); }
      else if(f=="cza5"){ int j=I(),h=I(),m=I(); double a=rd(in),b=rd(in); o=D(cos_sol_za(j,h,m,a,b)); }
      else if(f=="cza7"){ int y=I(),mo=I(),d=I(),h=I(),m=I(); double a=rd(in),b=rd(in); o=D(cos_sol_za(y,mo,d,h,m,a,b)); }
      else if(f=="sat_za"){ double a=rd(in),b=rd(in); o=D(sat_za(a,b)); }
      else if(f=="rt_cfac"){ double c=rd(in); o=D(CFACFromPixelHSize(pixelHSizeFromCFAC(c)))+" "+D(LFACFromPixelVSize(pixelVSizeFromLFAC(c)))+" "+D(pixelHSizeFromCFAC(c))+" "+D(pixelVSizeFromLFAC(c)); }
      else if(f=="rt_psx"){ double c=rd(in); o=D(pixelHSizeFromCFAC(CFACFromPixelHSize(c)))+" "+D(pixelVSizeFromLFAC(LFACFromPixelVSize(c))); }
      else if(f=="rt_dx"){ int n=I(); o=std::to_string(seviriDXFromCFAC(CFACFromSeviriDX(n)))+" "+std::to_string(seviriDYFromLFAC(LFACFromSeviriDY(n)))+" "+std::to_string(seviriDXFromColumnRes(columnResFromSeviriDX(n)))+" "+std::to_string(seviriDYFromLineRes(lineResFromSeviriDY(n)))+" "+D(CFACFromSeviriDX(n)); }
      else if(f=="rt_dxps"){ int n=I(); o=std::to_string(seviriDXFromPixelHSize(pixelHSizeFromSeviriDX(n)))+" "+std::to_string(seviriDYFromPixelVSize(pixelVSizeFromSeviriDY(n))); }
      else o="?";
    } catch(std::exception& e){ o="EXC"; } catch(...){ o="THROWN"; }
    puts(o.c_str()); fflush(stdout);
  }
}
