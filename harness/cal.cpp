// "<channel> <bpp> <slope> <offset> <slope2> <offset2>": calibration table of the channel (all other channels carry slope2/offset2); bpp -1: slope and offset
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <string>
#include <msat/hrit/MSG_data_RadiometricProc.h>
int main(){
  std::string l; MSG_data_RadiometricProc* p=new MSG_data_RadiometricProc();
  while(std::getline(std::cin,l)){
    int ch,bpp; double v[4]; if(sscanf(l.c_str(),"%d %d %la %la %la %la",&ch,&bpp,v,v+1,v+2,v+3)!=6){ printf("bad\n"); fflush(stdout); continue; }
    for(int i=0;i<12;++i){ p->ImageCalibration[i].Cal_Slope=v[i==ch-1?0:2]; p->ImageCalibration[i].Cal_Offset=v[i==ch-1?1:3]; }
    if(bpp<0){ double s,o; bool f; p->get_slope_offset(ch,s,o,f); printf("%.17g %.17g %d\n",s,o,(int)f); fflush(stdout); continue; }
    float* c=p->get_calibration(ch,bpp); for(int i=0;i<(1<<bpp);++i) printf("%s%.9g",i?" ":"",c[i]); printf("\n"); fflush(stdout); delete[] c;
  }
}
