// "<class> <hex>": decodes a time code and prints what its accessors give
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <algorithm>
#include <msat/hrit/MSG_time_cds.h>
static std::string us(std::string s){ std::replace(s.begin(),s.end(),' ','_'); return s; }
template<class T> static auto usec(T& t,int)->decltype(std::to_string(t.get_microsecs())){ return std::to_string(t.get_microsecs()); }
template<class T> static std::string usec(T&,long){ return "-"; }
template<class T> static auto nsec(T& t,int)->decltype(std::to_string(t.get_nanosecs())){ return std::to_string(t.get_nanosecs()); }
template<class T> static std::string nsec(T&,long){ return "-"; }
template<class T> static void cds(const unsigned char* b){
  T t; size_t n=t.read_from(b); const T& c=t; struct tm* m=t.get_timestruct(); char buf[64]; strftime(buf,64,"%Y,%m,%d,%H,%M,%S",m);
  std::string a=t.get_timestring(), k=c.get_timestring(), ch=t.get_timechar(); if(a!=k) a+=" const:"+k; if(a!=ch) a+=" char:"+ch;
  printf("%zu %u %u %lld %s %s %s %s\n",n,(unsigned)c.get_day_from_epoch(),(unsigned)c.get_msec_in_day(),(long long)t.get_unixtime(),usec(t,0).c_str(),nsec(t,0).c_str(),us(a).c_str(),buf); fflush(stdout);
}
int main(){
  std::string l; setenv("TZ","America/New_York",1); tzset();
  while(std::getline(std::cin,l)){
    size_t s=l.find(' '); std::string c=l.substr(0,s),h=l.substr(s+1); unsigned char* b=(unsigned char*)malloc(h.size()/2); auto d=[](char c){return c<='9'?c-'0':c-'a'+10;}; for(size_t i=0;i<h.size()/2;++i) b[i]=d(h[2*i])*16+d(h[2*i+1]);
    if(c=="MSG_time_cds_short") cds<MSG_time_cds_short>(b);
    else if(c=="MSG_time_cds") cds<MSG_time_cds>(b);
    else if(c=="MSG_time_cds_expanded") cds<MSG_time_cds_expanded>(b);
    else if(c=="MSG_time_cuc"){ MSG_time_cuc t; size_t n=t.read_from(b); printf("%zu %.17g %s %s\n",n,(double)t.get_time_cuc_r8(),us(t.get_coarse_time()).c_str(),us(t.get_fine_time()).c_str()); fflush(stdout); }
    else { MSG_time_generalized t; size_t n=t.read_from(b); std::string a=us(t.get_timestring()),k=us(t.get_timechar()); printf("%zu %lld %s %s\n",n,(long long)t.get_unixtime(),a.c_str(),k.c_str()); fflush(stdout); }
    free(b);
  }
}
