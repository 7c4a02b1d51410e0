// Forest operations: n-best, inside/outside, pruning, scoring.
#include "d_graph.h"
#include <travatar/trimmer-nbest.h>
#include <travatar/nbest-list.h>
#include <travatar/sparse-map.h>
#include <boost/shared_ptr.hpp>
#include <boost/scoped_ptr.hpp>
#include <set>
using namespace travatar;
using namespace std;

int WID(int k) { return k < 0 ? k : Dict::WID(WStr(k)); }
int WUn(int id) { if(id < 0) return id; return WNum(Dict::WSym(id)); }
int FID(int k) { ostringstream o; o << 'f' << k; return Dict::WID(o.str()); }
int FUn(int id) {
    const string & s = Dict::WSym(id);
    if(s.size() > 1 && s[0] == 'f') return atoi(s.c_str()+1);
    if(s == "unk") return 900;
    if(s == "lm") return 901;
    if(s == "lmunk") return 902;
    if(s == "parse") return 903;
    return 999;
}
SparseMap JMap(const J & j) {
    SparseMap m;
    for(size_t i = 0; i < j.size(); i++) m[FID(j.at(i).at(0).n())] = j.at(i).at(1).num();
    return m;
}
SparseVector JVec(const J & j) {
    SparseMap m = JMap(j);
    vector<SparsePair> v(m.begin(), m.end());
    return SparseVector(v);
}
static J mapj(const map<int,double> & m, double scale) {
    J r = J::Arr();
    for(map<int,double>::const_iterator it = m.begin(); it != m.end(); ++it)
        if(it->second != 0) { J p = J::Arr(); p.push(J(it->first)).push(Sc(it->second, scale)); r.push(p); }
    return r;
}
J MapJ(const SparseMap & s, double scale) {
    map<int,double> m;
    for(SparseMap::const_iterator it = s.begin(); it != s.end(); ++it) m[FUn(it->first)] += it->second;
    return mapj(m, scale);
}
J VecJ(const SparseVector & s, double scale) {
    map<int,double> m;
    const vector<SparsePair> & v = s.GetImpl();
    for(size_t i = 0; i < v.size(); i++) m[FUn(v[i].first)] += v[i].second;
    return mapj(m, scale);
}
HyperGraph * JGraph(const J & j) {
    HyperGraph * g = new HyperGraph;
    if(j.has("rule_edges") && j["rule_edges"].n()) g->SetEdgeType(HyperGraph::RULE_EDGE);
    if(j.has("words")) for(size_t i = 0; i < j["words"].size(); i++) g->AddWord(WID(j["words"].at(i).n()));
    double den = j.has("den") ? j["den"].num() : 1;
    const J & ns = j["nodes"]; const J & es = j["edges"];
    for(size_t i = 0; i < ns.size(); i++) {
        const J & n = ns.at(i);
        HyperNode * h = new HyperNode(n.has("sym") ? WID(n["sym"].n()) : -1, -1, make_pair(n.geti("b", -1), n.geti("e", -1)));
        g->AddNode(h);
    }
    for(size_t i = 0; i < es.size(); i++) {
        const J & e = es.at(i);
        HyperNode * h = g->GetNode(e["h"].n());
        HyperEdge * x = g->GetEdgeType() == HyperGraph::RULE_EDGE ? new RuleEdge(h) : new HyperEdge(h);
        for(size_t k = 0; k < e["t"].size(); k++) x->AddTail(g->GetNode(e["t"].at(k).n()));
        if(e.has("s")) x->SetScore(e["s"].num() / den);
        if(e.has("f")) x->SetFeatures(JVec(e["f"]));
        if(e.has("src")) x->SetSrcStr(e["src"].s);
        if(e.has("trg")) for(size_t f = 0; f < e["trg"].size(); f++)
            for(size_t w = 0; w < e["trg"].at(f).size(); w++) x->AddTrgWord(WID(e["trg"].at(f).at(w).n()), f);
        g->AddEdge(x);
        h->AddEdge(x);
    }
    return g;
}
static J words(const vector<int> & w) { J r = J::Arr(); for(size_t i = 0; i < w.size(); i++) r.push(J(WUn(w[i]))); return r; }
static J trg(const CfgDataVector & t) { J r = J::Arr(); for(size_t i = 0; i < t.size(); i++) r.push(words(t[i].words)); return r; }
J GraphJ(const HyperGraph & g, double scale, double fscale) {
    J r = J::Obj(), ns = J::Arr(), es = J::Arr();
    for(int i = 0; i < g.NumNodes(); i++) {
        const HyperNode * n = g.GetNode(i);
        J o = J::Obj();
        if(n == NULL) { o.set("id", J(-1)); ns.push(o); continue; }
        J ed = J::Arr();
        for(int k = 0; k < n->NumEdges(); k++) ed.push(J(n->GetEdge(k)->GetId()));
        o.set("id", J(n->GetId())).set("sym", J(n->GetSym() < 0 ? n->GetSym() : WUn(n->GetSym())))
         .set("b", J(n->GetSpan().first)).set("e", J(n->GetSpan().second)).set("ed", ed);
        ns.push(o);
    }
    for(int i = 0; i < g.NumEdges(); i++) {
        const HyperEdge * e = g.GetEdge(i);
        J o = J::Obj(), t = J::Arr();
        for(int k = 0; k < e->NumTails(); k++) t.push(J(e->GetTail(k)->GetId()));
        o.set("id", J(e->GetId())).set("h", J(e->GetHead()->GetId())).set("t", t).set("s", Sc(e->GetScore(), scale))
         .set("f", VecJ(e->GetFeatures(), fscale)).set("trg", trg(e->GetTrgData()));
        if(!e->GetSrcStr().empty()) o.set("src", J(e->GetSrcStr()));
        es.push(o);
    }
    return r.set("nodes", ns).set("edges", es).set("words", words(g.GetWords()));
}
J PathJ(HyperPath & p, double scale, double fscale) {
    J o = J::Obj(), ed = J::Arr();
    for(int i = 0; i < p.NumEdges(); i++) ed.push(J(p.GetEdge(i)->GetId()));
    return o.set("edges", ed).set("s", Sc(p.GetScore(), scale)).set("trg", trg(p.GetTrgData())).set("f", VecJ(p.CalcFeatures(), fscale));
}
static J nbj(NbestList & nb, double scale, double fscale) {
    J r = J::Arr();
    for(size_t i = 0; i < nb.size(); i++) r.push(PathJ(*nb[i], scale, fscale));
    return r;
}
OP(nbest) {
    if(in.has("nf")) GlobalVars::trg_factors = in["nf"].n();
    boost::scoped_ptr<HyperGraph> g(JGraph(in["g"]));
    double den = in["g"].has("den") ? in["g"]["den"].num() : 1;
    if(in.has("w")) { Weights w; w.SetCurrent(JMap(in["w"])); g->ScoreEdges(w); g->ResetViterbiScores(); den = 1; }
    NbestList nb = g->GetNbest(in["n"].n(), in.is("uniq"));
    J r = J::Obj();
    r.set("nb", nbj(nb, den, 1));
    if(in.has("w")) { J es = J::Arr(); for(int i = 0; i < g->NumEdges(); i++) es.push(Sc(g->GetEdge(i)->GetScore(), 1)); r.set("es", es); }
    return r;
}
OP(insideout) {
    boost::scoped_ptr<HyperGraph> g(JGraph(in["g"]));
    for(int i = 0; i < g->NumEdges(); i++) if(!in.is("dom")) g->GetEdge(i)->SetScore(log(in["g"]["edges"].at(i)["w"].num()));
    g->InsideOutsideNormalize();
    J r = J::Arr();
    for(int i = 0; i < g->NumEdges(); i++) r.push(Sc(exp(g->GetEdge(i)->GetScore()), 10000));
    J o = J::Obj(); return o.set("post", r);
}
OP(trim) {
    boost::scoped_ptr<HyperGraph> g(JGraph(in["g"]));
    double den = in["g"].has("den") ? in["g"]["den"].num() : 1;
    TrimmerNbest t(in["n"].n());
    boost::scoped_ptr<HyperGraph> h(t.TransformGraph(*g));
    J r = J::Obj();
    r.set("g", GraphJ(*h, den, 1));
    h->ResetViterbiScores(); g->ResetViterbiScores();
    NbestList nb = h->GetNbest(in["n"].n(), false);
    r.set("nb", nbj(nb, den, 1));
    NbestList nb2 = g->GetNbest(in["n"].n(), false);
    r.set("nb0", nbj(nb2, den, 1));
    return r;
}
