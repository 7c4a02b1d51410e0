// JSON values shared by the drivers
#include "d_common.h"
#include <iostream>
#include <cstring>
static void wstr(std::ostream & out, const std::string & s) {
    out << '"';
    for(size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if(c == '"' || c == '\\') out << '\\' << (char)c;
        else if(c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); out << b; }
        else if(c >= 128) {   // bytes are passed through as latin-1 code points
            char b[8]; snprintf(b, 8, "\\u%04x", c); out << b; }
        else out << (char)c;
    }
    out << '"';
}
void J::write(std::ostream & out) const {
    switch(t) {
    case NUL: out << "\"null\""; break;
    case BOOL: out << (b ? "true" : "false"); break;
    case INT: out << i; break;
    case DBL: { char buf[40]; snprintf(buf, 40, "%.17g", d); out << '"' << buf << '"'; break; }
    case STR: wstr(out, s); break;
    case ARR: out << '['; for(size_t n = 0; n < a.size(); n++) { if(n) out << ','; a[n].write(out); } out << ']'; break;
    case OBJ: out << '{'; for(size_t n = 0; n < o.size(); n++) { if(n) out << ','; wstr(out, o[n].first); out << ':'; o[n].second.write(out); } out << '}'; break;
    }
}
struct P {
    const std::string & s; size_t p;
    P(const std::string & x) : s(x), p(0) {}
    void ws() { while(p < s.size() && (s[p]==' '||s[p]=='\n'||s[p]=='\t'||s[p]=='\r')) p++; }
    void fail(const char * m) { throw std::runtime_error(std::string("driver json: ") + m); }
    J val() {
        ws();
        if(p >= s.size()) fail("eof");
        char c = s[p];
        if(c == '{') {
            J j = J::Obj(); p++; ws();
            if(s[p] == '}') { p++; return j; }
            while(true) {
                ws(); J k = str(); ws(); if(s[p] != ':') fail("colon"); p++;
                j.o.push_back(std::make_pair(k.s, val())); ws();
                if(s[p] == ',') { p++; continue; }
                if(s[p] == '}') { p++; return j; }
                fail("object");
            }
        }
        if(c == '[') {
            J j = J::Arr(); p++; ws();
            if(s[p] == ']') { p++; return j; }
            while(true) {
                j.a.push_back(val()); ws();
                if(s[p] == ',') { p++; continue; }
                if(s[p] == ']') { p++; return j; }
                fail("array");
            }
        }
        if(c == '"') return str();
        if(!s.compare(p, 4, "true")) { p += 4; return J(true); }
        if(!s.compare(p, 5, "false")) { p += 5; return J(false); }
        if(!s.compare(p, 4, "null")) { p += 4; return J(); }
        size_t q = p; bool dbl = false;
        while(q < s.size() && strchr("+-0123456789.eE", s[q])) { if(strchr(".eE", s[q])) dbl = true; q++; }
        std::string x = s.substr(p, q-p); if(x.empty()) fail("value"); p = q;
        if(dbl) return J(atof(x.c_str()));
        return J(atoll(x.c_str()));
    }
    J str() {
        if(s[p] != '"') fail("string");
        p++; std::string r;
        while(s[p] != '"') {
            if(p >= s.size()) fail("string eof");
            if(s[p] == '\\') {
                p++;
                switch(s[p]) {
                case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
                case 'b': r += '\b'; break; case 'f': r += '\f'; break;
                case 'u': { unsigned v = strtoul(s.substr(p+1, 4).c_str(), 0, 16); p += 4;
                    if(v > 255) fail("only bytes in \\u"); r += (char)v; break; }
                default: r += s[p];
                }
                p++;
            } else r += s[p++];
        }
        p++;
        return J(r);
    }
};
J J::parse(const std::string & s) { P p(s); return p.val(); }

std::string WStr(int k) { std::ostringstream o; o << 'w' << k; return o.str(); }
int WNum(const std::string & s) {
    if(s.size() < 2 || s[0] != 'w') return -1000000;
    for(size_t i = 1; i < s.size(); i++) if(s[i] < '0' || s[i] > '9') return -1000000;
    return atoi(s.c_str()+1);
}

