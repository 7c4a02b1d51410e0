// Sparse vectors, the dictionary, formulas, option parsing.
#include "d_graph.h"
#include <travatar/sparse-map.h>
#include <travatar/symbol-set.h>
#include <travatar/math-query.h>
#include <travatar/config-base.h>
#include <fstream>
#include <unistd.h>
#include <algorithm>
using namespace travatar;
using namespace std;

// ---- sparse vectors: a history of operations over vector registers v and map registers m
static J rawv(const SparseVector & v, double s) {
    J r = J::Arr();
    for(size_t i = 0; i < v.GetImpl().size(); i++) { J p = J::Arr(); p.push(J(FUn(v.GetImpl()[i].first))).push(Sc(v.GetImpl()[i].second, s)); r.push(p); }
    return r;
}
OP(sparse) {
    double den = in["den"].num();
    for(int i = 0; i < 10; i++) FID(i);          // identifiers in order
    vector<SparseVector> v(in["nv"].n());
    vector<SparseMap> m(in["nm"].n());
    J out = J::Arr();
    const J & ops = in["ops"];
    for(size_t i = 0; i < ops.size(); i++) {
        const J & o = ops.at(i);
        const string & k = o.at(0).s;
        J obs;
        #define A(ix) o.at(ix).n()
        if(k == "new") {
            vector<SparsePair> p;
            for(size_t x = 0; x < o.at(2).size(); x++) p.push_back(make_pair(FID(o.at(2).at(x).at(0).n()), o.at(2).at(x).at(1).num()/den));
            v[A(1)] = SparseVector(p); obs = rawv(v[A(1)], den);
        } else if(k == "add") { v[A(1)].Add(FID(A(2)), A(3)/den); obs = rawv(v[A(1)], den); }
        else if(k == "pluseq") { v[A(1)] += v[A(2)]; obs = rawv(v[A(1)], den); }
        else if(k == "minuseq") { v[A(1)] -= v[A(2)]; obs = rawv(v[A(1)], den); }
        else if(k == "plus") { v[A(1)] = v[A(2)] + v[A(3)]; obs = rawv(v[A(1)], den); }
        else if(k == "minus") { v[A(1)] = v[A(2)] - v[A(3)]; obs = rawv(v[A(1)], den); }
        else if(k == "scale") { v[A(1)] = v[A(2)] * (Real)A(3); obs = rawv(v[A(1)], den); }
        else if(k == "dot") { obs = Sc(v[A(1)] * v[A(2)], den*den); }
        else if(k == "eq") { obs = J((v[A(1)] == v[A(2)]) ? 1 : 0); if((v[A(1)] == v[A(2)]) == (v[A(1)] != v[A(2)])) obs = J(2); }
        else if(k == "text") { v[A(1)] = Dict::ParseSparseVector(Dict::PrintSparseVector(v[A(2)])); obs = rawv(v[A(1)], den); }
        else if(k == "tomap") { m[A(1)] = v[A(2)].ToMap(); obs = MapJ(m[A(1)], den); }
        else if(k == "mpluseqv") { m[A(1)] += v[A(2)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mminuseqv") { m[A(1)] -= v[A(2)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mplusv") { m[A(1)] = m[A(2)] + v[A(3)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mminusv") { m[A(1)] = m[A(2)] - v[A(3)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mpluseq") { m[A(1)] += m[A(2)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mminuseq") { m[A(1)] -= m[A(2)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mplus") { m[A(1)] = m[A(2)] + m[A(3)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mminus") { m[A(1)] = m[A(2)] - m[A(3)]; obs = MapJ(m[A(1)], den); }
        else if(k == "mscale") { m[A(1)] = m[A(2)] * (Real)A(3); obs = MapJ(m[A(1)], den); }
        else if(k == "mdot") { obs = Sc(m[A(1)] * m[A(2)], den*den); }
        else if(k == "mdotv") { obs = Sc(m[A(1)] * v[A(2)], den*den); }
        else if(k == "meq") { obs = J((m[A(1)] == m[A(2)]) ? 1 : 0); if((m[A(1)] == m[A(2)]) == (m[A(1)] != m[A(2)])) obs = J(2); }
        else if(k == "mtext") { m[A(1)] = Dict::ParseSparseMap(Dict::PrintSparseMap(m[A(2)])); obs = MapJ(m[A(1)], den); }
        else if(k == "mnorm") { SparseMap n = m[A(1)]; NormalizeL1(n, A(2)); obs = MapJ(n, 1000.0); }
        else throw runtime_error("driver: op " + k);
        out.push(obs);
    }
    return out;
}

// ---- the dictionary, one thread
OP(dict) {
    const J & ws = in["words"]; const J & ops = in["ops"];
    map<string,int> idx;
    for(size_t i = 0; i < ws.size(); i++) idx[ws.at(i).s] = (int)i;
    J out = J::Arr();
    vector<int> got;
    for(size_t i = 0; i < ops.size(); i++) {
        const J & o = ops.at(i); const string & k = o.at(0).s;
        if(k == "wid") { int id = Dict::WID(ws.at(o.at(1).n()).s); got.push_back(id); out.push(J(id)); }
        else if(k == "sym") {
            int id = got.at(o.at(1).n() % got.size()); J r = J::Arr(); r.push(J(id));
            if(id < 0) r.push(J(-1)); else { const string & s = Dict::WSym(id); r.push(J(idx.count(s) ? idx[s] : -2)); }
            out.push(r);
        } else if(k == "freeze") { Dict::Freeze(); out.push(J(0)); }
        else if(k == "sent") {   // a whole sentence there and back
            string s; for(size_t x = 0; x < o.at(1).size(); x++) s += (x ? (x % 2 ? " " : "  ") : "") + ws.at(o.at(1).at(x).n()).s;
            Sentence sent = Dict::ParseWords(s);
            J r = J::Arr(); for(size_t x = 0; x < sent.size(); x++) { r.push(J((int)sent[x])); got.push_back(sent[x]); }
            out.push(r);
        } else if(k == "save") {  // a separate symbol set, written and read back
            SymbolSet<int> ss; J r = J::Arr();
            for(size_t x = 0; x < o.at(1).size(); x++) ss.GetId(ws.at(o.at(1).at(x).n()).s, true);
            stringstream st; ss.ToStream(st);
            SymbolSet<int> * s2 = SymbolSet<int>::FromStream(st);
            for(size_t x = 0; x < o.at(1).size(); x++) {
                J p = J::Arr(); const string & w = ws.at(o.at(1).at(x).n()).s;
                p.push(J((int)ss.GetId(w))).push(J((int)s2->GetId(w))).push(J((int)ss.GetId(w + "#"))); r.push(p);
            }
            r.push(J::Arr().push(J(ss.size())).push(J(s2->size())).push(J(-1)));
            out.push(r);
        } else throw runtime_error("driver: op " + k);
    }
    return out;
}

// ---- formulas
OP(math) {
    map<WordId,Real> vars;
    for(size_t i = 0; i < in["vars"].size(); i++) vars[Dict::WID(in["vars"].at(i).at(0).s)] = in["vars"].at(i).at(1).num()/in["vden"].num();
    J r = J::Obj();
    try {
        Real x = MathQuery::Evaluate(vars, in["q"].s);
        r.set("ok", J(1)).set("v", Sc(x, 1000));
    } catch(std::runtime_error & e) { r.set("ok", J(0)).set("v", J(0)); }
    return r;
}

// ---- options
struct Conf : public ConfigBase { void MM(int a, int b) { minArgs_ = a; maxArgs_ = b; } };
extern int g_outfd;
static void on_exit_die() {
    const char * m = "{\"st\":\"ok\",\"out\":{\"die\":1,\"obs\":[],\"main\":[]}}\n";
    if(write(g_outfd, m, strlen(m))) {}
    _exit(0);
}
OP(config) {
    atexit(on_exit_die);
    Conf c; c.MM(in["min"].n(), in["max"].n());
    for(size_t i = 0; i < in["opts"].size(); i++) c.AddConfigEntry(in["opts"].at(i).at(0).s, in["opts"].at(i).at(1).s, "description");
    J obs = J::Arr(); J out = J::Obj();
    const J & ops = in["ops"];
    try {
        for(size_t i = 0; i < ops.size(); i++) {
            const J & o = ops.at(i); const string & k = o.at(0).s;
            if(k == "args") {
                vector<string> a; a.push_back("prog");
                for(size_t x = 0; x < o.at(2).size(); x++) a.push_back(o.at(2).at(x).s);
                vector<char*> av; for(size_t x = 0; x < a.size(); x++) av.push_back(&a[x][0]);
                c.LoadConfig((int)av.size(), &av[0], false);
            } else if(k == "file") {
                char nm[] = "/tmp/tvconf-XXXXXX"; int fd = mkstemp(nm); close(fd);
                { ofstream f(nm); f << o.at(2).s; }
                try { c.LoadConfig(string(nm)); } catch(...) { unlink(nm); throw; }
                unlink(nm);
            } else if(k == "setint") c.SetInt(o.at(1).s, o.at(2).n());
            else if(k == "setbool") c.SetBool(o.at(1).s, o.at(2).n());
            else if(k == "setreal") c.SetReal(o.at(1).s, o.at(2).n()/1000.0);
            else if(k == "setstr") c.SetString(o.at(1).s, o.at(2).s);
            else if(k == "int") { obs.push(J(c.GetInt(o.at(1).s))); }
            else if(k == "real") { obs.push(Sc(c.GetReal(o.at(1).s), 1000)); }
            else if(k == "bool") { obs.push(J(c.GetBool(o.at(1).s) ? 1 : 0)); }
            else if(k == "str") { obs.push(J(c.GetString(o.at(1).s))); }
            else if(k == "strs") { vector<string> a = c.GetStringArray(o.at(1).s); J r = J::Arr(); for(size_t x = 0; x < a.size(); x++) r.push(J(a[x])); obs.push(r); }
            else throw runtime_error("driver: op " + k);
        }
        out.set("die", J(0));
    } catch(std::runtime_error & e) {
        if(!strncmp(e.what(), "driver", 6)) throw;
        out.set("die", J(1)); obs = J::Arr();
    }
    J mn = J::Arr();
    if(!out["die"].n()) for(size_t i = 0; i < c.GetMainArgs().size(); i++) mn.push(J(c.GetMainArgs()[i]));
    out.set("obs", obs).set("main", mn);
    return out;
}
