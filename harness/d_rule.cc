// Rule lookup: tree-to-string tables, synchronous grammars, integrated and composed language models.
#include "d_sgraph.h"
#include <travatar/lookup-table-hash.h>
#include <travatar/lookup-table-marisa.h>
#include <travatar/lookup-table-fsm.h>
#include <travatar/lookup-table-cfglm.h>
#include <travatar/translation-rule-hiero.h>
#include <travatar/lm-composer-bu.h>
#include <travatar/lm-composer-incremental.h>
#include <travatar/weights.h>
#include <travatar/nbest-list.h>
#include <boost/scoped_ptr.hpp>
#include <fstream>
#include <unistd.h>
using namespace travatar;
using namespace std;

static const double FS = 1000;
static string tmpfile_with(const string & text, const char * suffix) {
    static int n = 0; ostringstream o; o << "tvd-" << getpid() << '-' << n++ << suffix;
    ofstream f(o.str().c_str(), ios::binary); f << text; f.close(); return o.str();
}
struct Unlink { vector<string> f; ~Unlink() { for(size_t i = 0; i < f.size(); i++) unlink(f[i].c_str()); } };

OP(t2s) {
    if(in.has("nf")) GlobalVars::trg_factors = in["nf"].n();
    boost::scoped_ptr<LookupTable> tm; Unlink u;
    bool hash = in["storage"].s == "hash"; string route = in.gets("route", "stream");
    if(route == "stream") { istringstream is(in["tm"].s); if(hash) tm.reset(LookupTableHash::ReadFromRuleTable(is)); else tm.reset(LookupTableMarisa::ReadFromRuleTable(is)); }
    else {
        string f = route == "file" ? tmpfile_with(in["tm"].s, ".tm") : in["file"].s;
        if(route == "file") u.f.push_back(f);
        if(hash) tm.reset(LookupTableHash::ReadFromFile(f)); else tm.reset(LookupTableMarisa::ReadFromFile(f));
    }
    tm->SetMatchAllUnk(in.is("all_unk")); tm->SetSaveSrcStr(in.is("src")); tm->SetConsiderTrg(in.is("trg"));
    boost::scoped_ptr<HyperGraph> g(SGraph(in["g"]));
    J r = J::Obj(), outs = J::Arr();
    boost::scoped_ptr<HyperGraph> o(tm->TransformGraph(*g));
    return SGraphJ(*o, FS, FS);
}
static J hrule(const TranslationRuleHiero & r) {
    J o = J::Obj();
    return o.set("src", SCfg(r.GetSrcData())).set("trg", STrg(r.GetTrgData())).set("f", SVec(r.GetFeatures(), FS));
}
// {tables:[text], limits:[n], root, unk, del, src, words, nf}
OP(fsm) {
    if(in.has("nf")) GlobalVars::trg_factors = in["nf"].n();
    Unlink u; vector<string> fs;
    for(size_t i = 0; i < in["tables"].size(); i++) { u.f.push_back(tmpfile_with(in["tables"].at(i).s, ".tm")); fs.push_back(u.f.back()); }
    if(in.has("files")) { fs.clear(); for(size_t i = 0; i < in["files"].size(); i++) fs.push_back(in["files"].at(i).s); }
    J r = J::Obj();
    if(in.is("list")) {
        J all = J::Arr();
        for(size_t i = 0; i < fs.size(); i++) {
            ifstream is(fs[i].c_str());
            boost::scoped_ptr<RuleFSM> rf(RuleFSM::ReadFromRuleTable(is)); J l = J::Arr();
            const RuleSet & rs = rf->GetRules();
            for(size_t k = 0; k < rs.size(); k++) for(size_t q = 0; q < rs[k].size(); q++) l.push(hrule(*rs[k][q]));
            all.push(l);
        }
        r.set("rules", all);
    }
    boost::scoped_ptr<LookupTableFSM> tm(LookupTableFSM::ReadFromFiles(fs));
    tm->SetTrgFactors(GlobalVars::trg_factors);
    tm->SetDeleteUnknown(in.is("del"));
    if(in.has("root")) tm->SetRootSymbol(Dict::WID(in["root"].s));
    if(in.has("unk")) tm->SetUnkSymbol(Dict::WID(in["unk"].s));
    if(in.has("limits")) { vector<int> l; for(size_t i = 0; i < in["limits"].size(); i++) l.push_back(in["limits"].at(i).n()); tm->SetSpanLimits(l); }
    tm->SetSaveSrcStr(in.is("src"));
    HyperGraph g; g.SetWords(SJWords(in["words"]));
    boost::scoped_ptr<HyperGraph> o(tm->TransformGraph(g));
    return r.set("g", SGraphJ(*o, FS, FS));
}
static J nblist(NbestList & nb, double s, double fs) { J r = J::Arr(); for(size_t i = 0; i < nb.size(); i++) r.push(SPathJ(*nb[i], s, fs)); return r; }
// {table, lm(text or ""), w, words, pop, chart, nb}
OP(cfglm) {
    if(in.has("nf")) GlobalVars::trg_factors = in["nf"].n();
    Unlink u; u.f.push_back(tmpfile_with(in["table"].s, ".tm"));
    vector<string> fs(1, u.f[0]);
    boost::scoped_ptr<LookupTableCFGLM> tm(LookupTableCFGLM::ReadFromFiles(fs));
    if(in.has("lm") && in["lm"].s != "") { u.f.push_back(tmpfile_with(in["lm"].s, ".arpa")); tm->LoadLM(u.f[1] + in.gets("lmopt", "")); }
    if(in.has("pop")) tm->SetPopLimit(in["pop"].n());
    if(in.has("chart")) tm->SetChartLimit(in["chart"].n());
    tm->SetTrgFactors(GlobalVars::trg_factors);
    tm->SetRootSymbol(Dict::WID(in.gets("root", "S"))); tm->SetUnkSymbol(Dict::WID(in.gets("unk", "X")));
    Weights w(SJMap(in["w"])); tm->SetWeights(w);
    HyperGraph g; g.SetWords(SJWords(in["words"]));
    boost::scoped_ptr<HyperGraph> o(tm->TransformGraph(g));
    o->ScoreEdges(w); o->ResetViterbiScores();
    J r = J::Obj();
    NbestList nb; if(o->NumNodes() > 0) nb = o->GetNbest(in.geti("nb", 5), false);
    r.set("nb", nblist(nb, FS, FS));
    return r.set("g", SGraphJ(*o, FS, FS));
}
// {g, lms:[text], lmopt:[..], w, search: bu|inc, pop, chart, nb, consec}
OP(lmcomp) {
    if(in.has("nf")) GlobalVars::trg_factors = in["nf"].n();
    Unlink u; vector<string> fs;
    for(size_t i = 0; i < in["lms"].size(); i++) { u.f.push_back(tmpfile_with(in["lms"].at(i).s, ".arpa")); fs.push_back(u.f.back() + (in.has("lmopt") ? in["lmopt"].at(i).s : string(""))); }
    SparseMap w = SJMap(in["w"]);
    boost::shared_ptr<HyperGraph> cur(SGraph(in["g"]));
    bool consec = in.is("consec");
    for(size_t i = 0; i < (consec ? fs.size() : 1); i++) {
        vector<string> x = consec ? vector<string>(1, fs[i]) : fs;
        boost::scoped_ptr<LMComposer> lm;
        if(in["search"].s == "bu") { LMComposerBU * p = new LMComposerBU(x); p->SetStackPopLimit(in.geti("pop", 100000)); p->SetChartLimit(in.geti("chart", 0)); lm.reset(p); }
        else { LMComposerIncremental * p = new LMComposerIncremental(x); p->SetStackPopLimit(in.geti("pop", 100000)); lm.reset(p); }
        if(in.has("w0")) { lm->UpdateWeights(SJMap(in["w0"])); }
        lm->UpdateWeights(w);
        cur.reset(lm->TransformGraph(*cur));
    }
    J r = J::Obj();
    NbestList nb; if(cur->NumNodes() > 0) nb = cur->GetNbest(in.geti("nb", 5), false);
    r.set("nb", nblist(nb, FS, FS));
    return r.set("g", SGraphJ(*cur, FS, FS));
}
