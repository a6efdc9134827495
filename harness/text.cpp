// msat/utils/string on concrete texts: each line  <function> <hex> [<hex>]
#include <msat/utils/string.h>
#include <iostream>
#include <memory>
#include <cstring>
using namespace std;
// the text in a heap block of its exact size
static string tx(const string& h) { if (h=="-") return string(); string r; r.reserve(h.size()/2); for (size_t i=0;i+1<h.size();i+=2) r+=(char)stoi(h.substr(i,2),nullptr,16); r.shrink_to_fit(); return r; }
static string hx(const string& s) { string r; char b[3]; for (unsigned char c: s) { snprintf(b,3,"%02x",c); r+=b; } return r.empty()?"-":r; }
int main() {
    string line;
    while (getline(cin,line)) {
        auto w=[&](int k){ size_t p=0; while (k--) { p=line.find(' ',p); if (p==string::npos) return string(); ++p; } size_t q=line.find(' ',p); return line.substr(p,q==string::npos?q:q-p); };
        string f=w(0), a=tx(w(1)), o;
        try {
            if (f=="encode_url") o=hx(msat::str::encode_url(a));
            else if (f=="decode_url") o=hx(msat::str::decode_url(a));
            else if (f=="encode_cstring") o=hx(msat::str::encode_cstring(a));
            else if (f=="decode_cstring") { size_t n=0; o=hx(msat::str::decode_cstring(a,n)); o+=" "+to_string(n); }
            else if (f=="encode_base64") o=hx(msat::str::encode_base64(a));
            else if (f=="decode_base64") o=hx(msat::str::decode_base64(a));
            else if (f=="lstrip") o=hx(msat::str::lstrip(a));
            else if (f=="rstrip") o=hx(msat::str::rstrip(a));
            else if (f=="strip") o=hx(msat::str::strip(a));
            else if (f=="startswith") o=msat::str::startswith(a,tx(w(2)))?"1":"0";
            else if (f=="endswith") o=msat::str::endswith(a,tx(w(2)))?"1":"0";
        } catch (std::exception& e) { o=string("exception ")+e.what(); }
        cout<<o<<endl;
    }
}
