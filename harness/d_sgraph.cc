#include "d_sgraph.h"
#include <boost/unordered_map.hpp>
using namespace travatar;
using namespace std;

string WTok(int id) { if(id < 0) { ostringstream o; o << 'x' << (-1 - id); return o.str(); } return "'" + Dict::WSym(id); }
int TokW(const string & s) { return s[0] == '\'' ? Dict::WID(s.substr(1)) : -1 - atoi(s.c_str() + 1); }
static string lab(int id) { return id == UNLABELED ? "-" : "'" + Dict::WSym(id); }
static int labid(const string & s) { return s == "-" ? UNLABELED : Dict::WID(s.substr(1)); }
J SWords(const vector<int> & w) { J r = J::Arr(); for(size_t i = 0; i < w.size(); i++) r.push(J(WTok(w[i]))); return r; }
vector<int> SJWords(const J & j) { vector<int> r; for(size_t i = 0; i < j.size(); i++) r.push_back(TokW(j.at(i).s)); return r; }
J SCfg(const CfgData & t) {
    J o = J::Obj(), y = J::Arr();
    for(size_t k = 0; k < t.syms.size(); k++) y.push(J(lab(t.syms[k])));
    return o.set("w", SWords(t.words)).set("l", J(lab(t.label))).set("y", y);
}
J STrg(const CfgDataVector & t) { J r = J::Arr(); for(size_t i = 0; i < t.size(); i++) r.push(SCfg(t[i])); return r; }
CfgDataVector SJTrg(const J & j) {
    CfgDataVector r;
    for(size_t i = 0; i < j.size(); i++) {
        const J & t = j.at(i);
        CfgData c(SJWords(t["w"]));
        if(t.has("l")) c.label = labid(t["l"].s);
        if(t.has("y")) for(size_t k = 0; k < t["y"].size(); k++) c.syms.push_back(labid(t["y"].at(k).s));
        r.push_back(c);
    }
    return r;
}
static J fj(const map<string,double> & m, double scale) {
    J r = J::Arr();
    for(map<string,double>::const_iterator it = m.begin(); it != m.end(); ++it)
        if(it->second != 0) { J p = J::Arr(); p.push(J(it->first)).push(Sc(it->second, scale)); r.push(p); }
    return r;
}
J SVec(const SparseVector & v, double scale) {
    map<string,double> m; const vector<SparsePair> & x = v.GetImpl();
    for(size_t i = 0; i < x.size(); i++) m[Dict::WSym(x[i].first)] += x[i].second;
    return fj(m, scale);
}
J SMap(const SparseMap & v, double scale) {
    map<string,double> m;
    for(SparseMap::const_iterator it = v.begin(); it != v.end(); ++it) m[Dict::WSym(it->first)] += it->second;
    return fj(m, scale);
}
SparseMap SJMap(const J & j) { SparseMap m; for(size_t i = 0; i < j.size(); i++) m[Dict::WID(j.at(i).at(0).s)] = j.at(i).at(1).num(); return m; }
HyperGraph * SGraph(const J & j) {
    HyperGraph * g = new HyperGraph;
    if(j.has("words")) g->SetWords(SJWords(j["words"]));
    double den = j.has("den") ? j["den"].num() : 1;
    const J & ns = j["nodes"]; const J & es = j["edges"];
    for(size_t i = 0; i < ns.size(); i++) {
        const J & n = ns.at(i);
        g->AddNode(new HyperNode(n.has("sym") ? TokW(n["sym"].s) : -1, -1, make_pair(n.geti("b", -1), n.geti("e", -1))));
    }
    for(size_t i = 0; i < es.size(); i++) {
        const J & e = es.at(i);
        HyperNode * h = g->GetNode(e["h"].n());
        HyperEdge * x = new HyperEdge(h);
        for(size_t k = 0; k < e["t"].size(); k++) x->AddTail(g->GetNode(e["t"].at(k).n()));
        if(e.has("s")) x->SetScore(e["s"].num() / den);
        if(e.has("f")) { SparseMap m = SJMap(e["f"]); vector<SparsePair> v(m.begin(), m.end()); for(size_t k = 0; k < v.size(); k++) v[k].second /= den; x->SetFeatures(SparseVector(v)); }
        if(e.has("src")) x->SetSrcStr(e["src"].s);
        if(e.has("trg")) x->SetTrgData(SJTrg(e["trg"]));
        g->AddEdge(x); h->AddEdge(x);
    }
    return g;
}
J SGraphJ(const HyperGraph & g, double scale, double fscale) {
    J r = J::Obj(), ns = J::Arr(), es = J::Arr();
    for(int i = 0; i < g.NumNodes(); i++) {
        const HyperNode * n = g.GetNode(i);
        J o = J::Obj(), ed = J::Arr();
        for(int k = 0; k < n->NumEdges(); k++) ed.push(J(n->GetEdge(k)->GetId()));
        o.set("id", J(n->GetId())).set("sym", J(lab(n->GetSym()))).set("b", J(n->GetSpan().first)).set("e", J(n->GetSpan().second)).set("ed", ed);
        ns.push(o);
    }
    for(int i = 0; i < g.NumEdges(); i++) {
        const HyperEdge * e = g.GetEdge(i);
        J o = J::Obj(), t = J::Arr();
        for(int k = 0; k < e->NumTails(); k++) t.push(J(e->GetTail(k)->GetId()));
        o.set("id", J(e->GetId())).set("h", J(e->GetHead()->GetId())).set("t", t).set("s", Sc(e->GetScore(), scale))
         .set("f", SVec(e->GetFeatures(), fscale)).set("trg", STrg(e->GetTrgData())).set("src", J(e->GetSrcStr()));
        es.push(o);
    }
    return r.set("nodes", ns).set("edges", es).set("words", SWords(g.GetWords()));
}
J SPathJ(HyperPath & p, double scale, double fscale) {
    J o = J::Obj(), ed = J::Arr();
    for(int i = 0; i < p.NumEdges(); i++) ed.push(J(p.GetEdge(i)->GetId()));
    return o.set("edges", ed).set("s", Sc(p.GetScore(), scale)).set("trg", STrg(p.GetTrgData())).set("f", SVec(p.CalcFeatures(), fscale));
}
