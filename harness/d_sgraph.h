// Graphs whose symbols, words and features are plain strings.
#ifndef TVDRIVE_SGRAPH_H
#define TVDRIVE_SGRAPH_H
#include "d_graph.h"
travatar::HyperGraph * SGraph(const J & j);               // {words,nodes:[{sym,b,e}],edges:[{h,t,s,f,trg,src}],den}
J SGraphJ(const travatar::HyperGraph & g, double scale, double fscale);
J SPathJ(travatar::HyperPath & p, double scale, double fscale);
J SVec(const travatar::SparseVector & v, double scale);   // [[name, value]...] sorted, zeros left out
J SMap(const travatar::SparseMap & v, double scale);
travatar::SparseMap SJMap(const J & j);                    // [[name, value]...]
J STrg(const travatar::CfgDataVector & t);                // [{w:[...],l:label,y:[syms]}]
travatar::CfgDataVector SJTrg(const J & j);
J SCfg(const travatar::CfgData & t);
std::string WTok(int id);                                  // 'word | x<k>
int TokW(const std::string & s);
J SWords(const std::vector<int> & w);
std::vector<int> SJWords(const J & j);
#endif
