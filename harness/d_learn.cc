// Online learning of weights: histories of updates, adjustments and reads.
#include "d_graph.h"
#include <travatar/weights.h>
#include <travatar/weights-perceptron.h>
#include <travatar/weights-average-perceptron.h>
#include <travatar/weights-delayed-perceptron.h>
#include <travatar/weights-adagrad.h>
#include <travatar/tune-online.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/hyper-graph.h>
#include <travatar/nbest-list.h>
#include <travatar/dict.h>
#include <boost/scoped_ptr.hpp>
using namespace travatar;
using namespace std;

static int Key(int k) { if(k < 0) return -1; ostringstream o; o << "feat" << k; return Dict::WID(o.str()); }
static SparseVector Feats(const J & j) {
    vector<SparsePair> p;
    for(size_t i = 0; i < j.size(); i++) p.push_back(SparsePair(Key(j.at(i).at(0).n()), j.at(i).at(1).n() / 2.0));
    return SparseVector(p);
}
static J Final(const SparseMap & m, int nk, double sc) {
    J a = J::Arr();
    for(int k = 0; k < nk; k++) { SparseMap::const_iterator it = m.find(Key(k)); a.push(Sc(it == m.end() ? 0 : it->second, sc)); }
    return a;
}

OP(learn) {
    string kind = in["kind"].s;
    int nk = in["nk"].n(); double sc = in["scale"].num();
    SparseMap init;
    // features are entered in the dictionary in a fixed order
    for(int k = 0; k < nk; k++) Key(k);
    for(size_t i = 0; i < in["init"].size(); i++) init[Key(in["init"].at(i).at(0).n())] = in["init"].at(i).at(1).n() / 8.0;
    boost::scoped_ptr<Weights> w;
    WeightsPerceptron * p = NULL;
    if(kind == "perceptron") p = new WeightsPerceptron(init);
    else if(kind == "average") p = new WeightsAveragePerceptron(init);
    else if(kind == "adagrad") p = new WeightsAdagrad(init);
    if(p) {
        w.reset(p);
        p->SetL1Coeff(in["l1"].n() / 8.0); p->SetLearningRate(in["rate"].n() / 4.0); p->SetMarginScale(in["margin"].n());
    } else w.reset(new WeightsDelayedPerceptron(init));
    const J & rs = in["rs"];
    for(size_t i = 0; i < rs.size(); i++) w->SetRange(Key(rs.at(i)["k"].n()), rs.at(i)["lo"].n() <= -1000000000 ? -REAL_MAX : rs.at(i)["lo"].n() / 8.0, rs.at(i)["hi"].n() >= 1000000000 ? REAL_MAX : rs.at(i)["hi"].n() / 8.0);
    boost::scoped_ptr<EvalMeasure> ev(EvalMeasureLoader::CreateMeasureFromString(in.gets("eval", "zeroone")));
    J out = J::Arr();
    const J & ops = in["ops"];
    for(size_t i = 0; i < ops.size(); i++) {
        const J & o = ops.at(i);
        string t = o["t"].s;
        J r = J::Arr();
        if(t == "upd") {
            w->Update(Feats(o["o"]), o["os"].num(), o["oe"].num(), Feats(o["s"]), o["ss"].num(), o["se"].num());
        } else if(t == "nbest") {
            vector<pair<Real,Real> > s; vector<SparseVector*> f;
            for(size_t n = 0; n < o["scores"].size(); n++) {
                s.push_back(make_pair((Real)o["scores"].at(n).at(0).n(), (Real)o["scores"].at(n).at(1).n()));
                f.push_back(new SparseVector(Feats(o["feats"].at(n))));
            }
            w->AdjustNbest(s, f);
            for(size_t n = 0; n < f.size(); n++) delete f[n];
        } else if(t == "adj") {
            NbestList l; vector<HyperEdge*> own;
            for(size_t n = 0; n < o["list"].size(); n++) {
                const J & h = o["list"].at(n);
                boost::shared_ptr<HyperPath> path(new HyperPath);
                // the features in two edges
                SparseVector f = Feats(h["f"]); SparseVector a, b;
                for(size_t m = 0; m < f.GetImpl().size(); m++) (m % 2 ? a : b).Add(f.GetImpl()[m].first, f.GetImpl()[m].second);
                HyperEdge * e1 = new HyperEdge, * e2 = new HyperEdge; own.push_back(e1); own.push_back(e2);
                e1->SetFeatures(a); e2->SetFeatures(b); path->AddEdge(e1); path->AddEdge(e2);
                CfgDataVector d(1); for(size_t m = 0; m < h["w"].size(); m++) d[0].words.push_back(WID(h["w"].at(m).n()));
                path->SetTrgData(d); path->SetScore(h["m"].num());
                l.push_back(path);
            }
            vector<Sentence> refs; Sentence src; src.push_back(WID(0));
            for(size_t n = 0; n < o["refs"].size(); n++) { Sentence s; for(size_t m = 0; m < o["refs"].at(n).size(); m++) s.push_back(WID(o["refs"].at(n).at(m).n())); refs.push_back(s); }
            w->Adjust(src, refs, *ev, l);
            l.clear();
            for(size_t n = 0; n < own.size(); n++) delete own[n];
        } else if(t == "get") {
            r.push(Sc(w->GetCurrent(Key(o["k"].n())), sc));
        } else if(t == "cget") {
            const Weights & c = *w;
            r.push(Sc(c.GetCurrent(Key(o["k"].n())), sc));
        } else if(t == "dot") {
            const Weights & c = *w;
            r.push(Sc(c * Feats(o["f"]), sc));
        } else if(t == "score") {
            HyperGraph g; HyperNode * n = new HyperNode(1, -1, make_pair(0, 1)); g.AddNode(n);
            HyperEdge * e = new HyperEdge(n); e->SetFeatures(Feats(o["f"])); n->AddEdge(e); g.AddEdge(e);
            g.ScoreEdges(*w);
            r.push(Sc(e->GetScore(), sc));
        } else if(t == "final") {
            r = Final(w->GetFinal(), nk, sc);
        } else throw runtime_error("driver: unknown step");
        out.push(r);
    }
    return out;
}

// Whole online tuning of one n-best list
OP(tuneonline) {
    double sc = in["scale"].num(); int nk = in["nk"].n();
    for(int k = 0; k < nk; k++) Key(k);
    TuneOnline t;
    t.SetUpdate(in["kind"].s); t.SetLearningRate(in["rate"].n() / 4.0); t.SetMarginScale(in["margin"].n());
    boost::scoped_ptr<EvalMeasure> ev(EvalMeasureLoader::CreateMeasureFromString("zeroone"));
    TuningExampleNbest * x = new TuningExampleNbest; boost::shared_ptr<TuningExample> px(x);
    Sentence ref; ref.push_back(WID(0));
    for(size_t n = 0; n < in["list"].size(); n++) {
        Sentence s; s.push_back(WID(in["list"].at(n)["e"].n() ? 0 : 1));
        x->AddHypothesis(Feats(in["list"].at(n)["f"]), ev->CalculateStats(ref, s));
    }
    t.AddExample(px);
    SparseMap w;
    double ret = t.RunTuning(w);
    return J::Obj().set("ret", Sc(ret, 1000)).set("w", Final(w, nk, sc));
}
