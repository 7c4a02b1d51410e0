// Common parts of the conformance driver: a small JSON value, the operation registry.
#ifndef TVDRIVE_COMMON_H
#define TVDRIVE_COMMON_H
#include <string>
#include <cstring>
#include <vector>
#include <map>
#include <utility>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <sstream>

struct J {
    enum T { NUL, BOOL, INT, DBL, STR, ARR, OBJ } t;
    bool b; long long i; double d; std::string s;
    std::vector<J> a;
    std::vector<std::pair<std::string, J> > o;
    J() : t(NUL), b(false), i(0), d(0) {}
    J(bool x) : t(BOOL), b(x), i(0), d(0) {}
    J(int x) : t(INT), b(false), i(x), d(0) {}
    J(long x) : t(INT), b(false), i(x), d(0) {}
    J(long long x) : t(INT), b(false), i(x), d(0) {}
    J(size_t x) : t(INT), b(false), i((long long)x), d(0) {}
    J(double x) : t(DBL), b(false), i(0), d(x) {}
    J(const std::string & x) : t(STR), b(false), i(0), d(0), s(x) {}
    J(const char * x) : t(STR), b(false), i(0), d(0), s(x) {}
    static J Arr() { J j; j.t = ARR; return j; }
    static J Obj() { J j; j.t = OBJ; return j; }
    J & push(const J & v) { t = ARR; a.push_back(v); return *this; }
    J & set(const std::string & k, const J & v) {
        t = OBJ;
        for(size_t n = 0; n < o.size(); n++) if(o[n].first == k) { o[n].second = v; return *this; }
        o.push_back(std::make_pair(k, v)); return *this;
    }
    bool has(const std::string & k) const {
        for(size_t n = 0; n < o.size(); n++) if(o[n].first == k) return true;
        return false;
    }
    const J & operator[](const std::string & k) const {
        for(size_t n = 0; n < o.size(); n++) if(o[n].first == k) return o[n].second;
        throw std::runtime_error("driver: missing key " + k);
    }
    const J & operator[](const char * k) const { return (*this)[std::string(k)]; }
    const J & at(size_t n) const { return a.at(n); }
    size_t size() const { return t == OBJ ? o.size() : a.size(); }
    double num() const { return t == DBL ? d : (t == BOOL ? b : (double)i); }
    int n() const { return t == DBL ? (int)d : (t == BOOL ? (int)b : (int)i); }
    bool is(const std::string & k) const { return has(k) && (*this)[k].n() != 0; }
    int geti(const std::string & k, int def) const { return has(k) ? (*this)[k].n() : def; }
    std::string gets(const std::string & k, const std::string & def) const { return has(k) ? (*this)[k].s : def; }
    void write(std::ostream & out) const;
    static J parse(const std::string & s);
};

typedef J (*OpFn)(const J & in);
std::map<std::string, OpFn> & Ops();
struct OpReg { OpReg(const char * n, OpFn f) { Ops()[n] = f; } };
#define OP(name) static J op_##name(const J & in); static OpReg reg_##name(#name, op_##name); static J op_##name(const J & in)

// A real value as an integer scaled by s, with sentinels for what is not representable
inline J Sc(double x, double s) {
    if(x != x) return J(2000000001);
    double y = x * s;
    if(y > 1.9e9) return J(2000000002);
    if(y < -1.9e9) return J(-2000000002);
    return J((long long)llround(y));
}
// An exact integer (sentinel -1999999999 when it is not one)
inline J Ex(double x) {
    if(x != x) return J(2000000001);
    if(x > 1.9e9) return J(2000000002);
    if(x < -1.9e9) return J(-2000000002);
    if(x != std::floor(x)) return J(1999999999);
    return J((long long)x);
}
// The arity-independent word naming: number k <-> string "w<k>"
std::string WStr(int k);
int WNum(const std::string & s);   // -1000000 for something else

#endif
