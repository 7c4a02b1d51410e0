// Tree formats, binarization and tree transformations.
#include "d_sgraph.h"
#include <travatar/tree-io.h>
#include <travatar/binarizer.h>
#include <travatar/binarizer-cky.h>
#include <travatar/binarizer-directional.h>
#include <travatar/word-splitter-regex.h>
#include <travatar/word-splitter-compound.h>
#include <travatar/unary-flattener.h>
#include <travatar/caser.h>
#include <boost/scoped_ptr.hpp>
#include <fstream>
#include <unistd.h>
using namespace travatar;
using namespace std;

static TreeIO * tio(const J & in, const string & f) {
    if(f == "penn") return new PennTreeIO;
    if(f == "rule") return new RuleTreeIO;
    if(f == "word") return new WordTreeIO;
    if(f == "json") return new JSONTreeIO;
    if(f == "mosesxml") return new MosesXMLTreeIO;
    if(f == "egret") { EgretTreeIO * e = new EgretTreeIO; e->SetNormalize(in.geti("norm", 1)); return e; }
    throw runtime_error("driver: format " + f);
}
static J readall(const J & in, const string & fmt, const string & text, double scale, double fscale, bool ex) {
    boost::scoped_ptr<TreeIO> io(tio(in, fmt));
    istringstream iss(text);
    J gs = J::Arr(); string end = "null", msg;
    for(int i = 0; i < 50; i++) {
        try {
            boost::scoped_ptr<HyperGraph> g(io->ReadTree(iss));
            if(!g.get()) break;
            if(ex) for(int k = 0; k < g->NumEdges(); k++) {
                HyperEdge * e = g->GetEdge(k);
                e->SetScore(exp(e->GetScore()));
                vector<SparsePair> v = e->GetFeatures().GetImpl();
                for(size_t m = 0; m < v.size(); m++) v[m].second = exp(v[m].second);
                e->SetFeatures(SparseVector(v));
            }
            gs.push(SGraphJ(*g, scale, fscale));
        } catch(std::exception & e) { end = "err"; msg = e.what(); break; }
    }
    J r = J::Obj();
    return r.set("gs", gs).set("end", J(end));
}
OP(tree_read) {
    return readall(in, in["fmt"].s, in["text"].s, in.has("scale") ? in["scale"].num() : 1000, in.has("fscale") ? in["fscale"].num() : 1000, in.is("ex"));
}
OP(tree_write) {
    boost::scoped_ptr<HyperGraph> g(SGraph(in["g"]));
    string text;
    { boost::scoped_ptr<TreeIO> io(tio(in, in["fmt"].s)); ostringstream o; io->WriteTree(*g, o); text = o.str(); }
    J r = J::Obj(); r.set("text", J(text));
    if(in["fmt"].s != "mosesxml") r.set("back", readall(in, in["fmt"].s, text + "\n", 1000, 1000, false));
    return r;
}
OP(tree_transform) {
    boost::scoped_ptr<HyperGraph> g(SGraph(in["g"]));
    boost::scoped_ptr<GraphTransformer> t;
    string k = in["how"].s;
    if(k == "split") t.reset(new WordSplitterRegex(in["re"].s));
    else if(k == "compound") {
        char name[] = "lmXXXXXX.arpa"; int fd = mkstemps(name, 5); close(fd);
        { ofstream o(name); o << in["lm"].s; }
        t.reset(new WordSplitterCompound(name, in["minchar"].n(), in["threshold"].num(), in["filler"].s));
        unlink(name);
    } else if(k == "flatten") t.reset(new UnaryFlattener);
    else if(k == "low") { Caser * c = new Caser; c->SetType(Caser::LOW); t.reset(c); }
    else if(k == "title") { Caser * c = new Caser; c->SetType(Caser::TITLE); t.reset(c); }
    else if(k == "true") {
        Caser * c = new Caser; c->SetType(Caser::TRUE);
        for(size_t i = 0; i < in["model"].size(); i++) c->AddTrueValue(in["model"].at(i).s);
        t.reset(c);
    } else if(k.substr(0, 4) == "bin:") t.reset(Binarizer::CreateBinarizerFromString(k.substr(4)));
    else throw runtime_error("driver: transform " + k);
    boost::scoped_ptr<HyperGraph> h(t->TransformGraph(*g));
    J r = J::Obj();
    return r.set("g", SGraphJ(*h, 1000, 1000));
}
