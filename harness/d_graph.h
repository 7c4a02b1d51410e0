#ifndef TVDRIVE_GRAPH_H
#define TVDRIVE_GRAPH_H
#include "d_common.h"
#include <travatar/hyper-graph.h>
#include <travatar/translation-rule.h>
#include <travatar/dict.h>
#include <travatar/weights.h>
#include <travatar/io-util.h>
#include <travatar/global-debug.h>

int WID(int k);            // word number -> dictionary id (negative numbers stay)
int WUn(int id);           // dictionary id -> word number (negative ids stay)
int FID(int k);            // feature number -> dictionary id "f<k>"
int FUn(int id);
travatar::SparseVector JVec(const J & j);
travatar::SparseMap JMap(const J & j);                  // [[k,v],...] -> map
J MapJ(const travatar::SparseMap & m, double scale);    // sorted [[k,v],...]
J VecJ(const travatar::SparseVector & m, double scale);
travatar::HyperGraph * JGraph(const J & j);             // graph from JSON
J GraphJ(const travatar::HyperGraph & g, double scale, double fscale);
J PathJ(travatar::HyperPath & p, double scale, double fscale);
#endif
