// Reads commands on stdin; runs the HRI readers of the repository on exact-size buffers.
#define private public
#include <msat/hri/HRI_machine.h>
#include <msat/hri/HRI_subframe_label.h>
#undef private
#include <msat/hri/HRI_subframe_identification.h>
#include <msat/hri/HRI_subframe_interpretation.h>
#include <cstring>
#include <cstdio>
#include <sstream>
#include <memory>
#include <vector>
#define private public
#include <msat/hri/HRI_subframe_keyslot.h>
#undef private
using namespace std;
static unique_ptr<char[]> unhex(const string& h,size_t&n){ n=h.size()/2; unique_ptr<char[]> b(new char[n?n:1]); for(size_t i=0;i<n;i++){ unsigned x; sscanf(h.c_str()+2*i,"%2x",&x); b[i]=(char)x; } return b; }
static string R(float f){ unsigned u; memcpy(&u,&f,4); char t[20]; snprintf(t,20,"%x",u); return t; }
static string R(double f){ unsigned long long u; memcpy(&u,&f,8); char t[20]; snprintf(t,20,"%llx",u); return t; }
static string R(short v){ return to_string(v); } static string R(unsigned short v){ return to_string(v); } static string R(int v){ return to_string(v); } static string R(unsigned v){ return to_string(v); } static string R(unsigned char v){ return to_string(v); } static string R(bool v){ return to_string((int)v); }
int main(){ string l; while(getline(cin,l)){ istringstream in(l); string c,a,b; in>>c>>a; size_t n; string o;
  try {
    if(c=="field"){ in>>b; auto p=unhex(b,n); HRI_machine m; o="field ";
      if(a=="r4_from_buff") o+=R(m.r4_from_buff((const unsigned char*)p.get()));
      if(a=="r8_from_buff") o+=R(m.r8_from_buff((const unsigned char*)p.get()));
      if(a=="i2_from_buff") o+=R(m.i2_from_buff((const unsigned char*)p.get()));
      if(a=="i4_from_buff") o+=R(m.i4_from_buff((const unsigned char*)p.get()));
      if(a=="r4_from_char6") o+=R(m.r4_from_char6((const char*)p.get()));
      if(a=="r4_from_char5") o+=R(m.r4_from_char5((const char*)p.get()));
      if(a=="r4_from_char3") o+=R(m.r4_from_char3((const char*)p.get()));
      if(a=="r4f_from_char3") o+=R(m.r4f_from_char3((const char*)p.get()));
      if(a=="r4f_from_char5") o+=R(m.r4f_from_char5((const char*)p.get()));
      if(a=="i2_from_char3") o+=R(m.i2_from_char3((const char*)p.get()));
      if(a=="i2_from_char2") o+=R(m.i2_from_char2((const char*)p.get()));
    }
    else if(c=="HRI_subframe_label"){ auto p=unhex(a,n); HRI_subframe_label r(p.get()); p.reset(); o="label";
      o+=" "+R(r.number_of_frames_in_subframe); o+=" "+R(r.total_number_of_subframes); o+=" "+R(r.current_subframe_number); o+=" "+R(r.image_line_number); o+=" "+R(r.image_number_from_mission_start); o+=" "+R(r.format_indicator); o+=" "+R(r.VISs_indicator); o+=" "+R(r.VISn_indicator); o+=" "+R(r.IR_indicator); o+=" "+R(r.WV_indicator); o+=" "+R(r.grid_indicator); o+=" "+R(r.encryption_indicator); o+=" "+R(r.scan_direction_indicator); o+=" "+R(r.key_number_VIS_s_indicator); o+=" "+R(r.key_number_VIS_n_indicator); o+=" "+R(r.key_number_IR_indicator); o+=" "+R(r.key_number_WV_indicator);
      o+=" ";
      o+=r.is_A_format()?"1":"0"; o+=r.is_B_format()?"1":"0"; o+=r.is_X_format()?"1":"0"; o+=r.is_VISs_present()?"1":"0"; o+=r.is_VISn_present()?"1":"0"; o+=r.is_IR_present()?"1":"0"; o+=r.is_WV_present()?"1":"0"; o+=r.is_grid_present()?"1":"0"; o+=r.is_VISs_1st_half_present()?"1":"0"; o+=r.is_VISs_2nd_half_present()?"1":"0"; o+=r.is_VISn_1st_half_present()?"1":"0"; o+=r.is_VISn_2nd_half_present()?"1":"0"; o+=r.is_VISs_reduced()?"1":"0"; o+=r.is_VISn_reduced()?"1":"0"; o+=r.is_VISs_encrypted()?"1":"0"; o+=r.is_VISn_encrypted()?"1":"0"; o+=r.is_IR_encrypted()?"1":"0"; o+=r.is_WV_encrypted()?"1":"0"; o+=r.is_scan_SN_EW()?"1":"0"; o+=r.is_scan_NS_EW()?"1":"0"; o+=r.is_scan_SN_WE()?"1":"0"; o+=r.is_scan_NS_WE()?"1":"0";
    }
    else if(c=="HRI_subframe_interpretation"){ auto p=unhex(a,n); HRI_subframe_interpretation r(p.get()); o="interp";
      o+=" "+R(r.cal.bbc1ir); o+=" "+R(r.cal.bbsd1i); o+=" "+R(r.cal.bbc1wv); o+=" "+R(r.cal.bbsd1w); o+=" "+R(r.cal.bb1t); o+=" "+R(r.cal.bb2t); o+=" "+R(r.cal.bbc2ir); o+=" "+R(r.cal.bbsd2i); o+=" "+R(r.cal.bbc2wv); o+=" "+R(r.cal.bbsd2w); o+=" "+R(r.cal.time1_day); o+=" "+R(r.cal.time1_slot); o+=" "+R(r.cal.calir); o+=" "+R(r.cal.irspc); o+=" "+R(r.cal.time2_day); o+=" "+R(r.cal.time2_slot); o+=" "+R(r.cal.calwv); o+=" "+R(r.cal.wvspc); o+=" "+R(r.cal.time3_day); o+=" "+R(r.cal.time3_slot); o+=" "+R(r.cal.ir_gain); o+=" "+R(r.cal.wv_gain); o+=" "+R(r.cal.v1_gain); o+=" "+R(r.cal.v2_gain); o+=" "+R(r.oper.degsra); o+=" "+R(r.oper.degsde); o+=" "+R(r.oper.degnra); o+=" "+R(r.oper.degnde); o+=" "+R(r.oper.finatt_x); o+=" "+R(r.oper.finatt_y); o+=" "+R(r.oper.finatt_z); o+=" "+R(r.oper.farade_1); o+=" "+R(r.oper.farade_2); o+=" "+R(r.oper.nrslot); o+=" "+R(r.oper.spndur); o+=" "+R(r.oper.flecl); o+=" "+R(r.oper.fldec); o+=" "+R(r.oper.flman); o+=" "+R(r.oper.flmode); o+=" "+R(r.oper.flir1); o+=" "+R(r.oper.flir2); o+=" "+R(r.oper.flwv1); o+=" "+R(r.oper.flwv2); o+=" "+R(r.oper.flvis1); o+=" "+R(r.oper.flvis2); o+=" "+R(r.oper.flvis3); o+=" "+R(r.oper.flvis4); o+=" "+R(r.imag.imstat_1); o+=" "+R(r.imag.imstat_2); o+=" "+R(r.imag.imstat_3); o+=" "+R(r.imag.imstat_4); o+=" "+R(r.imag.imstat_5); o+=" "+R(r.imag.imstat_6); o+=" "+R(r.imag.imstat_7); o+=" "+R(r.imag.imstat_8); o+=" "+R(r.imag.imstat_9); o+=" "+R(r.imag.imstat_10); o+=" "+R(r.imag.imstat_11); o+=" "+R(r.imag.limhor_1); o+=" "+R(r.imag.limhor_2); o+=" "+R(r.imag.limhor_3); o+=" "+R(r.imag.limhor_4); o+=" "+R(r.imag.limhor_5); o+=" "+R(r.imag.limhor_6); o+=" "+R(r.imag.limhor_7); o+=" "+R(r.imag.limhor_8); o+=" "+R(r.imag.limhor_9); o+=" "+R(r.imag.limhor_10); o+=" "+R(r.imag.limhor_11); o+=" "+R(r.imag.limhor_12); o+=" "+R(r.imag.satdis); o+=" "+R(r.imag.sorbof_x); o+=" "+R(r.imag.sorbof_y); o+=" "+R(r.imag.sorbof_z); o+=" "+R(r.imag.norbof_x); o+=" "+R(r.imag.norbof_y); o+=" "+R(r.imag.norbof_z); o+=" "+R(r.imag.xddifm); o+=" "+R(r.imag.yddifm); o+=" "+R(r.imag.xscm); o+=" "+R(r.imag.yscm); o+=" "+R(r.imag.conds_1); o+=" "+R(r.imag.conds_2); o+=" "+R(r.imag.conds_3); o+=" "+R(r.imag.conds_4); o+=" "+R(r.imag.lowdyn_ir); o+=" "+R(r.imag.lowdyn_v1); o+=" "+R(r.imag.lowdyn_v2); o+=" "+R(r.imag.lowdyn_wv); o+=" "+R(r.imag.higdyn_ir); o+=" "+R(r.imag.higdyn_v1); o+=" "+R(r.imag.higdyn_v2); o+=" "+R(r.imag.higdyn_wv); o+=" "+R(r.imag.mvis1); o+=" "+R(r.imag.mvis2); o+=" "+R(r.imag.snnom_ir); o+=" "+R(r.imag.snnom_v1); o+=" "+R(r.imag.snnom_v2); o+=" "+R(r.imag.snnom_wv); o+=" "+R(r.imag.snnlin); o+=" "+R(r.imag.snrep_ir); o+=" "+R(r.imag.snrep_v1); o+=" "+R(r.imag.snrep_v2); o+=" "+R(r.imag.snrep_wv); o+=" "+R(r.imag.snrwp_ir); o+=" "+R(r.imag.snrwp_v1); o+=" "+R(r.imag.snrwp_v2); o+=" "+R(r.imag.snrwp_wv); o+=" "+R(r.imag.swmnep_ir); o+=" "+R(r.imag.swmnep_v1); o+=" "+R(r.imag.swmnep_v2); o+=" "+R(r.imag.swmnep_wv); o+=" "+R(r.imag.swmnwp_ir); o+=" "+R(r.imag.swmnwp_v1); o+=" "+R(r.imag.swmnwp_v2); o+=" "+R(r.imag.swmnwp_wv); o+=" "+R(r.imag.snmxep_ir); o+=" "+R(r.imag.snmxep_v1); o+=" "+R(r.imag.snmxep_v2); o+=" "+R(r.imag.snmxep_wv); o+=" "+R(r.imag.snmxwp_ir); o+=" "+R(r.imag.snmxwp_v1); o+=" "+R(r.imag.snmxwp_v2); o+=" "+R(r.imag.snmxwp_wv);
      o+=memcmp(r.mesg.admin_message,p.get()+560,800)?" different":" same";
    }
    else if(c=="HRI_subframe_identification"){ auto p=unhex(a,n); HRI_subframe_identification r(p.get()); p.reset(); char t[200];
      snprintf(t,200,"ident %s %d %d %d %d %d %d %d %d %d %d %.0f %d%d%d%d%d",r.satellite.c_str(),r.meteosat_id,r.year,(int)r.julian_day,(int)r.nominal_time,r.month,r.day,r.hour,r.minute,(int)r.column_offset,(int)r.line_offset,r.longitude,r.is_Meteosat(),r.is_GOES_E(),r.is_GOES_W(),r.is_GMS(),r.is_GOMS()); o=t; }
    else if(c=="HRI_subframe_keyslot"){ auto p=unhex(a,n); HRI_subframe_keyslot r(p.get()); p.reset(); o="keys "; bool first=true;
      for(int i=0;i<120;i++) if(r.keys[i].usage){ char t[60]; int k=snprintf(t,60,"%s%d:%d:",first?"":" ",i,(int)r.keys[i].key_number); for(int j=0;j<8;j++) k+=snprintf(t+k,60-k,"%02x",r.keys[i].message_key[j]); o+=t; first=false; } }
  } catch(std::exception&e){ o="THROW"; }
  printf("%s\n",o.c_str()); fflush(stdout); } }
