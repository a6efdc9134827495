// names of xRIT files, on concrete texts: each line  <function> <hex>...
#include <msat/xrit/fileaccess.h>
#include <iostream>
#include <sstream>
#include <stdexcept>
using namespace std;
using namespace msat::xrit;
static string tx(const string& h) { if (h=="-") return string(); string r; r.reserve(h.size()/2); for (size_t i=0;i+1<h.size();i+=2) r+=(char)stoi(h.substr(i,2),nullptr,16); r.shrink_to_fit(); return r; }
static string hx(const string& s) { string r; char b[3]; for (unsigned char c: s) { snprintf(b,3,"%02x",c); r+=b; } return r.empty()?"-":r; }
static string all(const FileAccess& f) { return hx(f.directory)+" "+hx(f.resolution)+" "+hx(f.productid1)+" "+hx(f.productid2)+" "+hx(f.timing); }
int main() {
    string line;
    while (getline(cin,line)) {
        stringstream in(line); string f, w[6], o; in>>f; for (auto& x: w) { string t; if (in>>t) x=tx(t); }
        try {
            if (f=="valid") o=isValid(w[0])?"1":"0";
            else if (f=="parse") { FileAccess a; a.directory=a.resolution=a.productid1=a.productid2=a.timing="before"; a.parse(w[0]); o=all(a); }
            else if (f=="new") { FileAccess a(w[0]); o=all(a); }
            else {
                FileAccess a; a.directory=w[0]; a.resolution=w[1]; a.productid1=w[2]; a.productid2=w[3]; a.timing=w[4];
                if (f=="channel") { FileAccess b(a,w[5]), c; c.directory=c.timing="before"; c.parse(a,w[5]); o=all(b)+" "+all(c)+" "+all(a); }
                else if (f=="complete") { a.ensureComplete(); o="complete"; }
                else if (f=="prologue") o=hx(a.prologueFile());
                else if (f=="epilogue") o=hx(a.epilogueFile());
                else if (f=="segment") for (auto& s: a.segmentFiles()) o+=(o.empty()?"":" ")+hx(s);
            }
        } catch (std::exception& e) { o="refused"; }
        cout<<o<<endl;
    }
}
