// Minimum error rate training: envelopes, line search, tuning runs.
#include "d_graph.h"
#include <travatar/tune-mert.h>
#include <travatar/tune-greedy-mert.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/tuning-example-forest.h>
#include <travatar/mert-geometry.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-wer.h>
#include <travatar/eval-measure-zeroone.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/check-equal.h>
#include <boost/scoped_ptr.hpp>
using namespace travatar;
using namespace std;

// the statistics as a sum and a denominator, with the score they stand for
static EvalStatsPtr Stat(const J & h) { return EvalStatsPtr(new EvalStatsZeroOne(h["v"].num(), h["d"].num())); }
static J StatJ(const EvalStats & s) { const vector<EvalStatsDataType> & v = s.GetVals(); return J::Arr().push(Sc(v[0], 1)).push(Sc(v[1], 1)); }
static double Lim(const J & j) { return j.n() <= -100000 ? -REAL_MAX : (j.n() >= 100000 ? REAL_MAX : j.num() / 2); }
static J HullJ(const ConvexHull & h) {
    J a = J::Arr();
    for(size_t i = 0; i < h.size(); i++) a.push(J::Arr().push(Sc(h[i].first.first, 1e5)).push(Sc(h[i].first.second, 1e5)).push(StatJ(*h[i].second)));
    return a;
}
static vector<boost::shared_ptr<TuningExample> > Lists(const J & ls) {
    vector<boost::shared_ptr<TuningExample> > v;
    for(size_t i = 0; i < ls.size(); i++) {
        TuningExampleNbest * x = new TuningExampleNbest;
        for(size_t k = 0; k < ls.at(i).size(); k++) x->AddHypothesis(JVec(ls.at(i).at(k)["f"]), Stat(ls.at(i).at(k)));
        v.push_back(boost::shared_ptr<TuningExample>(x));
    }
    return v;
}

OP(linesearch) {
    vector<boost::shared_ptr<TuningExample> > xs = Lists(in["lists"]);
    SparseMap w = JMap(in["w"]), g = JMap(in["g"]);
    J hs = J::Arr();
    for(size_t i = 0; i < xs.size(); i++) hs.push(HullJ(xs[i]->CalculateConvexHull(w, g)));
    J o = J::Obj().set("hulls", hs);
    LineSearchResult r = in.is("norange") ? TuneMert::LineSearch(w, g, xs) : TuneMert::LineSearch(w, g, xs, make_pair((Real)Lim(in["lo"]), (Real)Lim(in["hi"])));
    o.set("pos", Sc(r.pos, 1e5)).set("gain", Sc(r.gain, 1e6)).set("before", StatJ(*r.before)).set("after", StatJ(*r.after));
    J ps = J::Arr();
    for(size_t i = 0; i < xs.size(); i++) ps.push(MapJ(xs[i]->CalculatePotentialGain(w), 1e6));
    o.set("pot", ps);
    return o;
}

OP(gradrange) {
    TuneMert t;
    SparseMap w = JMap(in["w"]), g = JMap(in["g"]);
    pair<Real,Real> r = t.FindGradientRange(w, g, make_pair((Real)Lim(in["lo"]), (Real)Lim(in["hi"])));
    return J::Arr().push(Sc(r.first, 1e5)).push(Sc(r.second, 1e5));
}

OP(merttune) {
    vector<boost::shared_ptr<TuningExample> > xs = Lists(in["lists"]);
    SparseMap w = JMap(in["w"]);
    boost::scoped_ptr<Tune> t;
    bool greedy = in.is("greedy");
    if(greedy) { TuneGreedyMert * g = new TuneGreedyMert; g->SetThreads(in["threads"].n()); t.reset(g); }
    else { TuneMert * m = new TuneMert; m->SetDirections(in.gets("dirs", "coord")); t.reset(m); }
    for(size_t i = 0; i < xs.size(); i++) t->AddExample(xs[i]);
    const J & rs = in["rs"];
    for(size_t i = 0; i < rs.size(); i++) t->SetRange(rs.at(i)["k"].n() < 0 ? -1 : FID(rs.at(i)["k"].n()), Lim(rs.at(i)["lo"]), Lim(rs.at(i)["hi"]));
    t->Init(w);
    double score = t->RunTuning(w);
    // the model scores under the weights found
    J ms = J::Arr();
    for(size_t i = 0; i < in["lists"].size(); i++) {
        J a = J::Arr();
        for(size_t k = 0; k < in["lists"].at(i).size(); k++) a.push(Sc(w * JVec(in["lists"].at(i).at(k)["f"]), 1e5));
        ms.push(a);
    }
    return J::Obj().set("score", Sc(score, 1e6)).set("m", ms).set("w", MapJ(w, 1e5));
}

static J Words(const Sentence & w) { J r = J::Arr(); for(size_t i = 0; i < w.size(); i++) r.push(J(WUn(w[i]))); return r; }
// Envelopes of forests; the hull itself by the semiring, and what tuning uses
struct Opened : public TuningExampleForest {
    Opened(EvalMeasure * m, const vector<Sentence> & r, int id, Real mult) : TuningExampleForest(m, r, id, mult) { }
    J Lines(const SparseMap & w, const SparseMap & g) {
        vector<boost::shared_ptr<MertHull> > hulls(forest_->NumNodes());
        MertHullWeightFunction func(w, g);
        CalculateMertHull(func, hulls, 0);
        MertHull top = *hulls[0]; top.Sort();
        J a = J::Arr();
        for(size_t i = 0; i < top.size(); i++) {
            const MertLine & l = *top.GetLines()[i];
            vector<Sentence> s(GlobalVars::trg_factors);
            l.ConstructTranslation(forest_->GetWords(), &s);
            vector<bool> used(forest_->NumEdges(), false); l.CollectEdgesUsed(&used);
            J u = J::Arr(); for(size_t k = 0; k < used.size(); k++) if(used[k]) u.push(J((int)k));
            J tr = J::Arr(); for(size_t f = 0; f < s.size(); f++) tr.push(Words(s[f]));
            a.push(J::Obj().set("x", Sc(l.x, 1e5)).set("m", Sc(l.m, 1)).set("b", Sc(l.b, 1)).set("tr", tr).set("used", u));
        }
        return a;
    }
};
OP(foresthull) {
    GlobalVars::trg_factors = in["nf"].n();
    boost::scoped_ptr<EvalMeasure> ev(EvalMeasureLoader::CreateMeasureFromString(in["eval"].s));
    vector<Sentence> refs; for(size_t i = 0; i < in["refs"].size(); i++) { Sentence s; for(size_t k = 0; k < in["refs"].at(i).size(); k++) s.push_back(WID(in["refs"].at(i).at(k).n())); refs.push_back(s); }
    Opened x(ev.get(), refs, 0, 1);
    for(size_t i = 0; i < in["gs"].size(); i++) { boost::shared_ptr<HyperGraph> g(JGraph(in["gs"].at(i))); x.AddHypothesis(g); }
    SparseMap w = JMap(in["w"]), g = JMap(in["g"]);
    J o = J::Obj();
    if(in.is("active")) x.FindActiveFeatures();
    o.set("lines", x.Lines(w, g));
    o.set("hull", HullJ(x.CalculateConvexHull(w, g)));
    if(in.is("twice")) o.set("hull2", HullJ(x.CalculateConvexHull(w, g)));
    else o.set("hull2", o["hull"]);
    return o;
}
