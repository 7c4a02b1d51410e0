// Rule extraction: minimal rules, composition, attachment of unaligned words, Hiero rules.
#include "d_sgraph.h"
#include <boost/scoped_ptr.hpp>
#include <boost/shared_ptr.hpp>
#include <travatar/forest-extractor.h>
#include <travatar/rule-composer.h>
#include <travatar/alignment.h>
using namespace travatar;
using namespace std;

static J rulegraph(const HyperGraph & g) {
    J ns = J::Arr(), es = J::Arr();
    for(int i = 0; i < g.NumNodes(); i++) {
        const HyperNode * n = g.GetNode(i);
        J ts = J::Arr(), ed = J::Arr();
        const set<int> & s = n->GetTrgSpan();
        for(set<int>::const_iterator it = s.begin(); it != s.end(); ++it) ts.push(J(*it));
        for(int k = 0; k < n->NumEdges(); k++) ed.push(J(n->GetEdge(k)->GetId()));
        J o = J::Obj();
        ns.push(o.set("id", J(n->GetId())).set("b", J(n->GetSpan().first)).set("e", J(n->GetSpan().second)).set("sym", J(n->GetSym() == -1 ? string("-") : WTok(n->GetSym())))
                 .set("ts", ts).set("ed", ed).set("pseudo", J(n->IsFrontier() == HyperNode::NOT_FRONTIER ? 1 : 0)));
    }
    for(int i = 0; i < g.NumEdges(); i++) {
        const RuleEdge * e = static_cast<const RuleEdge*>(g.GetEdge(i));
        J t = J::Arr(), f = J::Arr(), o = J::Obj();
        for(int k = 0; k < e->NumTails(); k++) t.push(J(e->GetTail(k)->GetId()));
        for(size_t k = 0; k < e->GetFragmentEdges().size(); k++) f.push(J(e->GetFragmentEdges()[k]->GetId()));
        es.push(o.set("id", J(e->GetId())).set("h", J(e->GetHead()->GetId())).set("t", t).set("fr", f).set("s", Sc(e->GetScore(), 1000)).set("trg", STrg(e->GetTrgData())));
    }
    J r = J::Obj();
    return r.set("nodes", ns).set("edges", es);
}
// fields of a printed rule: source, target, alignment; the probability only checked against the score
static J fields(const string & s, double score) {
    vector<string> f; size_t p = 0, q;
    while((q = s.find(" ||| ", p)) != string::npos) { f.push_back(s.substr(p, q - p)); p = q + 5; }
    f.push_back(s.substr(p));
    J r = J::Arr();
    if(f.size() != 4) { r.push(J("?" + s)); return r; }
    double pr = atof(f[2].c_str()), w = exp(score);
    r.push(J(f[0])).push(J(f[1])).push(J(f[3])).push(J(fabs(pr - w) <= 2e-5 * w ? 1 : 0));
    return r;
}
OP(extract) {
    boost::scoped_ptr<HyperGraph> src(SGraph(in["g"]));
    Alignment al;
    for(size_t i = 0; i < in["align"].size(); i++) al.AddAlignment(make_pair(in["align"].at(i).at(0).n(), in["align"].at(i).at(1).n()));
    Sentence trg = SJWords(in["trg"]);
    LabeledSpans labs;
    if(in.has("labs")) for(size_t i = 0; i < in["labs"].size(); i++) labs[make_pair(in["labs"].at(i).at(0).n(), in["labs"].at(i).at(1).n())] = Dict::WID(in["labs"].at(i).at(2).s.substr(1));
    ForestExtractor ex;
    ex.SetMaxAttach(in.geti("att", 1)); ex.SetMaxNonterm(in.geti("nt", 5));
    boost::shared_ptr<HyperGraph> g(ex.ExtractMinimalRules(*src, al));
    vector<boost::shared_ptr<HyperGraph> > keep(1, g);
    if(in.has("compose")) { RuleComposer c(in["compose"].n(), in.geti("lex", 0)); g.reset(c.TransformGraph(*g)); keep.push_back(g); }
    string at = in.gets("attach", "none");
    if(at == "top") { g.reset(ex.AttachNullsTop(*g, al, trg.size())); keep.push_back(g); }
    else if(at == "exh") { g.reset(ex.AttachNullsExhaustive(*g, al, trg.size())); keep.push_back(g); }
    J r = rulegraph(*g), rs = J::Arr();
    for(int i = 0; i < g->NumEdges(); i++) {
        const RuleEdge & e = *static_cast<const RuleEdge*>(g->GetEdge(i));
        if(e.GetHead()->IsFrontier() == HyperNode::NOT_FRONTIER) { rs.push(J::Arr()); continue; }
        try { rs.push(fields(ex.RuleToString(e, src->GetWords(), trg, al, in.has("labs") ? &labs : NULL), e.GetScore())); }
        catch(std::exception & x) { J a = J::Arr(); a.push(J(string("!") + x.what())); rs.push(a); }
    }
    return r.set("rules", rs);
}
// composition of given rules; every rule is its own fragment
OP(compose) {
    boost::scoped_ptr<HyperGraph> g0(SGraph(in["g"])), frag(SGraph(in["g"]));
    HyperGraph g; g.SetEdgeType(HyperGraph::RULE_EDGE);
    for(int i = 0; i < g0->NumNodes(); i++) { const HyperNode * n = g0->GetNode(i); g.AddNode(new HyperNode(n->GetSym(), -1, n->GetSpan())); }
    for(int i = 0; i < g0->NumEdges(); i++) {
        const HyperEdge * e = g0->GetEdge(i);
        RuleEdge * x = new RuleEdge(g.GetNode(e->GetHead()->GetId()));
        for(int k = 0; k < e->NumTails(); k++) x->AddTail(g.GetNode(e->GetTail(k)->GetId()));
        x->AddFragmentEdge(frag->GetEdge(i));
        x->SetScore(e->GetScore()); x->SetTrgData(e->GetTrgData());
        g.AddEdge(x); x->GetHead()->AddEdge(x);
    }
    RuleComposer c(in["order"].n(), in.geti("lex", 0));
    boost::scoped_ptr<HyperGraph> h(c.TransformGraph(g));
    return rulegraph(*h);
}
#include <travatar/hiero-extractor.h>
OP(hiero) {
    Sentence s, t;
    for(size_t i = 0; i < in["src"].size(); i++) s.push_back(Dict::WID(in["src"].at(i).s));
    for(size_t i = 0; i < in["trg"].size(); i++) t.push_back(Dict::WID(in["trg"].at(i).s));
    Alignment al;
    for(size_t i = 0; i < in["align"].size(); i++) al.AddAlignment(make_pair(in["align"].at(i).at(0).n(), in["align"].at(i).at(1).n()));
    HieroExtractor ex; ex.SetMaxInitialPhrase(in["maxphrase"].n()); ex.SetMaxTerminals(in["maxterm"].n());
    HieroExtractor::PhrasePairs ps = ex.ExtractPhrase(al, s, t);
    J ph = J::Arr(), gs = J::Arr(), r = J::Obj();
    for(size_t i = 0; i < ps.size(); i++) { J p = J::Arr(); p.push(J(ps[i].first.first)).push(J(ps[i].first.second)).push(J(ps[i].second.first)).push(J(ps[i].second.second)); ph.push(p); }
    vector<vector<HieroRule*> > rs = ex.ExtractHieroRule(al, s, t);
    for(size_t i = 0; i < rs.size(); i++) {
        J g = J::Arr();
        for(size_t k = 0; k < rs[i].size(); k++) {
            J one = J::Arr(), a = J::Arr();
            const vector<pair<int,int> > & v = rs[i][k]->GetAlignments();
            for(size_t z = 0; z < v.size(); z++) { J q = J::Arr(); a.push(q.push(J(v[z].first)).push(J(v[z].second))); }
            g.push(one.push(J(rs[i][k]->ToString())).push(a));
            delete rs[i][k];
        }
        gs.push(g);
    }
    return r.set("phrases", ph).set("groups", gs);
}
