// Evaluation measures: statistics of sentence pairs, their accumulation and scores.
#include "d_graph.h"
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure-nist.h>
#include <travatar/cfg-data.h>
#include <boost/algorithm/string.hpp>
using namespace travatar;
using namespace std;

static const double LN2 = 0.69314718055994530942;
static Sentence JSent(const J & j) { Sentence s; for(size_t i = 0; i < j.size(); i++) s.push_back(WID(j.at(i).n())); return s; }
static vector<Sentence> JSents(const J & j) { vector<Sentence> s; for(size_t i = 0; i < j.size(); i++) s.push_back(JSent(j.at(i))); return s; }
// A score and its logarithm (-2000000000: the score is zero)
static void ScoreJ(J & o, double s) {
    o.set("sc", Sc(s, 1e5));
    o.set("ln", s > 0 ? Sc(log(s), 1e6) : (s == 0 ? J(-2000000000) : J(2000000001)));
}
static J Vals(EvalStats & st, double scale) {
    // through the written form, which also exists for combined measures
    J r = J::Arr();
    const vector<EvalStatsDataType> & v = st.GetVals();
    if(v.size()) { for(size_t i = 0; i < v.size(); i++) r.push(Sc(v[i], scale)); return r; }
    istringstream iss(st.WriteStats()); double x;
    while(iss >> x) r.push(Sc(x, scale));
    return r;
}
static J StatJ(EvalStats & st, double scale) {
    J o = J::Obj();
    o.set("v", Vals(st, scale));
    ScoreJ(o, st.ConvertToScore());
    if(EvalStatsBleu * b = dynamic_cast<EvalStatsBleu*>(&st)) {
        BleuReport r = b->CalcBleuReport();
        J p = J::Arr(); for(size_t i = 0; i < r.scores.size(); i++) p.push(Sc(r.scores[i], 1e5));
        o.set("prec", p).set("lnbp", r.brevity > 0 ? Sc(log(r.brevity), 1e6) : J(-2000000000)).set("hl", Ex(r.sys_len)).set("rl", Ex(r.ref_len));
        J q = J::Arr();
        q.push(Sc(b->GetLengthRatio(), 1e5));
        for(int i = 0; i < b->GetNgramOrder(); i++) q.push(Sc(b->GetMatch(i), 1e5)).push(Sc(b->GetSysCount(i), 1e5)).push(Sc(b->GetRefCount(i), 1e5));
        o.set("acc", q);
    }
    return o;
}

// The statistics of each sentence pair, of the sum of all, with the chosen way of computing them
OP(evalstat) {
    string cfg = in["eval"].s;
    boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(cfg));
    const J & ps = in["pairs"];
    double scale = in["scale"].num() * (in.is("nats") ? LN2 : 1);
    double sscale = in.is("nats") ? LN2 : 1;
    vector<vector<Sentence> > refs, syss;
    for(size_t i = 0; i < ps.size(); i++) { refs.push_back(JSents(ps.at(i)["r"])); syss.push_back(JSents(ps.at(i)["s"])); }
    if(in.has("inits")) {
        vector<vector<Sentence> > init; for(size_t i = 0; i < in["inits"].size(); i++) init.push_back(JSents(in["inits"].at(i)));
        m->InitializeWithReferences(init);
    }
    int way = in["way"].n(), f = in["factor"].n();
    J per = J::Arr();
    EvalStatsPtr tot;
    for(size_t i = 0; i < ps.size(); i++) {
        const J & p = ps.at(i);
        int rid = p.geti("rid", INT_MAX), sid = p.geti("sid", INT_MAX);
        if(p.is("clear")) m->ClearCache();
        EvalStatsPtr st;
        if(way == 0) st = m->CalculateStats(refs[i][f], syss[i][f]);
        else if(way == 1) st = m->CalculateCachedStats(refs[i], syss[i], rid, sid);
        else if(way == 2) {
            CfgDataVector d; for(size_t k = 0; k < syss[i].size(); k++) d.push_back(CfgData(syss[i][k]));
            st = m->CalculateCachedStats(refs[i], d, rid, sid);
        } else if(way == 3) {
            EvalMeasureBleu * b = dynamic_cast<EvalMeasureBleu*>(m.get());
            if(!b) throw runtime_error("driver: not bleu");
            st = b->CalculateStats(refs[i][f], syss[i][f], rid, sid);
        } else if(way == 4) st = m->CalculateCachedStats(refs[i][f], syss[i][f], rid, sid);
        else throw runtime_error("driver: way");
        J o = StatJ(*st, scale);
        if(in.is("nats")) { o.set("c", Vals(*st, in["scale"].num())); double s = st->ConvertToScore() * sscale; ScoreJ(o, s); }
        per.push(o);
        if(!tot) tot = st->Clone(); else tot->PlusEquals(*st);
    }
    J out = J::Obj();
    out.set("per", per);
    if(tot) { J o = StatJ(*tot, scale); if(in.is("nats")) { o.set("c", Vals(*tot, in["scale"].num())); ScoreJ(o, tot->ConvertToScore() * sscale); } out.set("tot", o); }
    return out;
}

// A history of operations over registers of statistics
OP(evalhist) {
    boost::shared_ptr<EvalMeasure> m(EvalMeasureLoader::CreateMeasureFromString(in["eval"].s));
    vector<boost::shared_ptr<EvalMeasure> > subs;
    for(size_t i = 0; i < in["subs"].size(); i++)
        subs.push_back(boost::shared_ptr<EvalMeasure>(EvalMeasureLoader::CreateMeasureFromString(in["subs"].at(i).s)));
    const J & ps = in["pairs"]; const J & ops = in["ops"];
    double scale = in["scale"].num();
    vector<EvalStatsPtr> r(in["nr"].n());
    J out = J::Arr();
    for(size_t i = 0; i < ops.size(); i++) {
        const J & o = ops.at(i); const string & k = o.at(0).s;
        J obs;
        #define RG(ix) r.at(o.at(ix).n())
        if(k == "sent") {
            const J & p = ps.at(o.at(2).n());
            vector<Sentence> rf(1, JSent(p["r"])), sy(1, JSent(p["s"]));
            RG(1) = m->CalculateCachedStats(rf, sy);
        }
        else if(k == "clone") RG(1) = RG(2)->Clone();
        else if(k == "plus") RG(1) = RG(2)->Plus(*RG(3));
        else if(k == "pluseq") RG(1)->PlusEquals(*RG(2));
        else if(k == "times") RG(1) = RG(2)->Times(o.at(3).n() / 2.0);
        else if(k == "timeseq") RG(1)->TimesEquals(o.at(2).n() / 2.0);
        else if(k == "plustimes") RG(1)->PlusEqualsTimes(*RG(2), o.at(3).n() / 2.0);
        else if(k == "rw") { string s = RG(2)->WriteStats(); RG(1) = m->ReadStats(s); }
        else if(k == "eq") { obs = J((*RG(1) == *RG(2)) ? 1 : 0); }
        else if(k == "iszero") { obs = J(RG(1)->IsZero() ? 1 : 0); }
        else if(k == "score") {
            obs = J::Obj();
            ScoreJ(obs, RG(1)->ConvertToScore());
            J s = J::Arr(), tx = J::Arr();
            if(subs.size()) {
                vector<string> cols; string w = RG(1)->WriteStats(); boost::split(cols, w, boost::is_any_of("\t"));
                for(size_t x = 0; x < subs.size() && x < cols.size(); x++) s.push(Sc(subs[x]->ReadStats(cols[x])->ConvertToScore(), 1e5));
            }
            obs.set("sub", s);
        }
        else throw runtime_error("driver: op " + k);
        if(k != "eq" && k != "iszero" && k != "score") {
            // every register is looked at: an operation changes none but its own
            obs = J::Arr();
            for(size_t x = 0; x < r.size(); x++) if(r[x]) obs.push(Vals(*r[x], scale)); else obs.push(J::Arr());
        }
        out.push(obs);
    }
    return out;
}
