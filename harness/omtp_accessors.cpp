// the accessors of the OpenMTP-IDS headers, which are inline: this file makes the compiler emit them
#include <msat/omtp-ids/OpenMTP-IDS.hh>
#define A(C,f) int get_##C##_##f(const C* h){ return h->f(); } void set_##C##_##f(C* h,int v){ h->f(v); }
#define T(C,f) const char* get_##C##_##f(const C* h){ return h->f(); } void set_##C##_##f(C* h,const char* v){ h->f(v); }
extern "C" {
T(FileHeader,fortran) A(FileHeader,no_records) A(FileHeader,year) A(FileHeader,julian_day) A(FileHeader,hour) A(FileHeader,minute) A(FileHeader,process_year) A(FileHeader,process_julian_day) A(FileHeader,process_hour) A(FileHeader,process_minute) A(FileHeader,no_channels) A(FileHeader,vis_id) A(FileHeader,wv_id) A(FileHeader,ir_id) T(FileHeader,satellite) A(FileHeader,satellite_id) A(FileHeader,record_length) A(FileHeader,no_vis_average) A(FileHeader,no_wv_average) A(FileHeader,no_ir_average) A(FileHeader,averaging_type) A(FileHeader,sample_interval) A(FileHeader,ir_calibration) A(FileHeader,wv_calibration) A(FileHeader,fine_adjustment) A(FileHeader,ir_space_count) A(FileHeader,wv_space_count)
T(RecordHeader,fortran) A(RecordHeader,record_header_length) A(RecordHeader,no_scanlines) A(RecordHeader,record_length) A(RecordHeader,zero)
A(LineHeader,length) A(LineHeader,line) A(LineHeader,start) A(LineHeader,no_pixels) A(LineHeader,channel_id) A(LineHeader,quality)
const int* get_LineHeader_pad(const LineHeader* h){ return h->pad(); } void set_LineHeader_pad(LineHeader* h,const int* v){ h->pad(v); }
}
