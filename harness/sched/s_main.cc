// tvsched: explores schedules of small scenarios over the real thread pool, output collector and dictionary.
// One JSON scenario per input line; prints the distinct event traces seen.
#include "../d_common.h"
#include "sched.h"
#include <travatar/thread-pool.h>
#include <travatar/task.h>
#include <travatar/output-collector.h>
#include <travatar/dict.h>
#include <boost/thread.hpp>
#include <iostream>
#include <map>
#include <travatar/travatar-runner.h>
#include <travatar/config-travatar-runner.h>
#include <fstream>
#include <sstream>
#include <cstdlib>
#include <set>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace travatar;
using namespace std;

static string r_str(const J & j) { ostringstream o; j.write(o); return o.str(); }
static J ev = J::Arr();
static int outfd = -1;
static void emit(const char * why) {
    J r = J::Obj(); r.set("end", J(why)).set("ev", ev);
    const Decision * d; int n = sched_decisions(&d);
    J dj = J::Arr();
    for(int i = 0; i < n && i < 20000; i++) { J t = J::Arr(); t.push(J(d[i].n)).push(J(d[i].taken)).push(J(d[i].preempt)); dj.push(t); }
    ostringstream o; o << r_str(r) << '\n' << r_str(dj) << '\n';
    string s = o.str(); size_t p = 0;
    while(p < s.size()) { ssize_t k = write(outfd, s.data()+p, s.size()-p); if(k <= 0) break; p += k; }
    _exit(0);
}
static void E1(const char * k, int a = -1, int b = -1) { J e = J::Arr(); e.push(J(k)).push(J(a)).push(J(b)); ev.push(e); }

// ------------------------------------------------------------------ thread pool
static volatile int gate = 0;
static set<int> gated;
static map<int,int> work;
struct TTask : public Task {
    int id; TTask(int i) : id(i) { }
    void Run() {
        E1("start", id);
        for(int i = 0; i < work[id]; i++) sched_yield_now();
        if(gated.count(id)) sched_block_until(&gate);
        E1("end", id);
    }
    ~TTask() { E1("del", id); }
};
static ThreadPool * pool;
static void script(const J & ops);
struct Bg { const J * ops; Bg(const J * o) : ops(o) { } void operator()() { script(*ops); } };
static void script(const J & ops) {
    vector<boost::thread*> bg;
    for(size_t i = 0; i < ops.size(); i++) {
        const J & o = ops.at(i); const string & k = o.at(0).s;
        if(k == "submit") {
            int id = o.at(1).n(); E1("call", id);
            try { pool->Submit(new TTask(id)); E1("ret", id); } catch(std::runtime_error & e) { E1("err", id); }
        } else if(k == "wait") { E1("waitcall", o.at(1).n()); pool->Wait(); E1("waitret", o.at(1).n()); }
        else if(k == "stop") { E1("stopcall", o.at(1).n()); pool->Stop(o.at(1).n()); E1("stopret", o.at(1).n()); }
        else if(k == "settle") sched_settle();
        else if(k == "open") { sched_set(&gate); }
        else if(k == "bg") { bg.push_back(new boost::thread(Bg(&o.at(1)))); }
        else if(k == "joinbg") { for(size_t x = 0; x < bg.size(); x++) bg[x]->join(); bg.clear(); }
    }
}
static void scen_pool(const J & in) {
    for(size_t i = 0; i < in["gated"].size(); i++) gated.insert(in["gated"].at(i).n());
    for(size_t i = 0; i < in["work"].size(); i++) work[in["work"].at(i).at(0).n()] = in["work"].at(i).at(1).n();
    pool = new ThreadPool(in["w"].n(), in["limit"].n());
    if(in.is("keep")) pool->SetDeleteTasks(false);
    script(in["script"]);
}

// ------------------------------------------------------------------ output collector
struct CountBuf : public std::streambuf {
    string s; size_t flushed; CountBuf() : flushed(0) { }
    int overflow(int c) { s += (char)c; sched_yield_now(); return c; }
    std::streamsize xsputn(const char * p, std::streamsize n) { for(int i = 0; i < n; i++) { s += p[i]; if(i % 3 == 0) sched_yield_now(); } return n; }
    int sync() { flushed = s.size(); return 0; }
};
static CountBuf ob, eb;
static OutputCollector * coll;
static bool quiet;
static J pieces(const string & s) {
    J r = J::Arr(); string c;
    for(size_t i = 0; i < s.size(); i++) { if(s[i] == ';') { r.push(J(atoi(c.c_str()))); c = ""; } else c += s[i]; }
    if(!c.empty()) r.push(J(-1));
    return r;
}
static string txt(int id, int n) { string r; for(int i = 0; i < n; i++) { ostringstream o; o << id << ';'; r += o.str(); } return r; }
struct Wr { const J * ops; Wr(const J * o) : ops(o) { }
    void operator()() {
        for(size_t i = 0; i < ops->size(); i++) {
            const J & o = ops->at(i); int id = o.at(0).n();
            J c = J::Arr(); c.push(J("call")).push(J(id)); ev.push(c);
            if(o.at(1).n() == 0 && o.at(2).n() == 0) coll->Skip(id);
            else coll->Write(id, txt(id, o.at(1).n()), txt(id, o.at(2).n()));
            if(quiet) { E1("retq", id); continue; }
            J e = J::Arr(); e.push(J("ret")).push(J(id)).push(pieces(ob.s)).push(pieces(eb.s))
                .push(pieces(ob.s.substr(0, ob.flushed)).size()).push(pieces(eb.s.substr(0, eb.flushed)).size());
            ev.push(e);
        }
    } };
static void scen_collect(const J & in) {
    ostream os(&ob), es(&eb);
    quiet = in.geti("quiet", 0);
    coll = new OutputCollector(&os, &es, in["buffer"].n());
    const J & th = in["threads"];
    vector<boost::thread*> ts;
    for(size_t i = 1; i < th.size(); i++) ts.push_back(new boost::thread(Wr(&th.at(i))));
    Wr w(&th.at(0)); w();
    for(size_t i = 0; i < ts.size(); i++) ts[i]->join();
    coll->Flush();
    J e = J::Arr(); e.push(J("final")).push(J(-1)).push(pieces(ob.s)).push(pieces(eb.s))
        .push(pieces(ob.s.substr(0, ob.flushed)).size()).push(pieces(eb.s.substr(0, eb.flushed)).size());
    ev.push(e);
}

// ------------------------------------------------------------------ dictionary
static vector<int> seen;
static void rec(const char * k, int a, int b) { E1(k, a, b); }
struct Dc { const J * ops; const J * words; Dc(const J * o, const J * w) : ops(o), words(w) { }
    void operator()() {
        for(size_t i = 0; i < ops->size(); i++) {
            const J & o = ops->at(i); const string & k = o.at(0).s;
            if(k == "wid") { int id = Dict::WID(words->at(o.at(1).n()).s); seen.push_back(id); rec("wid", o.at(1).n(), id); }
            else if(k == "sym" && !seen.empty()) {
                int id = seen[(seen.size() - 1) - (o.at(1).n() % seen.size())];
                if(id < 0) continue;
                const string * sp = &Dict::WSym(id); sched_yield_now();
                int r = -2; for(size_t x = 0; x < words->size(); x++) if(words->at(x).s == *sp) r = (int)x;
                rec("sym", id, r);
            }
        }
    } };
static void scen_dict(const J & in) {
    const J & ph = in["phases"];
    for(size_t p = 0; p < ph.size(); p++) {
        vector<boost::thread*> ts;
        for(size_t i = 1; i < ph.at(p).size(); i++) ts.push_back(new boost::thread(Dc(&ph.at(p).at(i), &in["words"])));
        Dc d(&ph.at(p).at(0), &in["words"]); d();
        for(size_t i = 0; i < ts.size(); i++) { ts[i]->join(); delete ts[i]; }
        if(p + 1 < ph.size()) { Dict::Freeze(); E1("freeze"); }
    }
}

// ------------------------------------------------------------------ the decoder
// Runs the decoder in-process on the given input; the schedule is controlled from the moment its workers exist.
static string slurp(const string & f) { ifstream i(f.c_str()); stringstream o; o << i.rdbuf(); return o.str(); }
static void decode(const J & in, int threads, const string & dir) {
    vector<string> a; a.push_back("travatar");
    for(size_t i = 0; i < in["args"].size(); i++) a.push_back(in["args"].at(i).s);
    ostringstream ts; ts << threads; a.push_back("-threads"); a.push_back(ts.str());
    for(size_t i = 0; i < in["outs"].size(); i++) { a.push_back("-" + in["outs"].at(i).s); a.push_back(dir + "/" + in["outs"].at(i).s); }
    vector<char*> av; for(size_t i = 0; i < a.size(); i++) av.push_back((char*)a[i].c_str());
    ConfigTravatarRunner conf; conf.LoadConfig((int)av.size(), &av[0], true);
    istringstream is(in["input"].s); stringbuf ob, eb;
    streambuf * ci = cin.rdbuf(is.rdbuf()), * co = cout.rdbuf(&ob), * ce = cerr.rdbuf(&eb);
    cin.clear();
    { TravatarRunner r; r.Run(conf); }
    cin.rdbuf(ci); cout.rdbuf(co); cerr.rdbuf(ce);
    J e = J::Arr(); e.push(J("out")).push(J(ob.str()));
    for(size_t i = 0; i < in["outs"].size(); i++) e.push(J(slurp(dir + "/" + in["outs"].at(i).s)));
    ev.push(e);
}

static bool run_one(const J & in, const SchedConf & cf, string & trace, vector<Decision> & dec) {
    int pp[2]; if(pipe(pp)) exit(3);
    pid_t pid = fork();
    if(pid == 0) {
        close(pp[0]); outfd = pp[1];
        alarm(in.geti("alarm", 20));
        struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
        const string & k = in["scen"].s;
        char dir[] = "dec-XXXXXX";
        if(k == "decode" && !mkdtemp(dir)) _exit(7);
        Dict::WID("warm-up");
        if(k != "decode" || in["threads"].n() > 1) sched_start(cf, emit);
        try {
            if(k == "pool") scen_pool(in); else if(k == "collect") scen_collect(in); else if(k == "dict") scen_dict(in); else if(k == "decode") decode(in, in["threads"].n(), dir); else _exit(8);
        } catch(std::exception & e) { sched_stop(); emit("exception"); }
        sched_stop();
        emit("done");
    }
    close(pp[1]);
    string got; char buf[65536]; ssize_t n;
    while((n = read(pp[0], buf, sizeof buf)) > 0) got.append(buf, n);
    close(pp[0]);
    int st; waitpid(pid, &st, 0);
    size_t nl = got.find('\n');
    if(nl == string::npos) {
        if(WIFSIGNALED(st)) trace = WTERMSIG(st) == SIGALRM ? "{\"end\":\"hang\",\"ev\":[]}" : "{\"end\":\"crash\",\"ev\":[]}";
        else trace = "{\"end\":\"exit\",\"ev\":[]}";
        return true;
    }
    trace = got.substr(0, nl);
    J d = J::parse(got.substr(nl+1));
    dec.clear();
    for(size_t i = 0; i < d.size(); i++) { Decision x; x.n = d.at(i).at(0).n(); x.taken = d.at(i).at(1).n(); x.preempt = d.at(i).at(2).n(); dec.push_back(x); }
    return true;
}

int main(int argc, char ** argv) {
    string line;
    while(getline(cin, line)) {
        if(line.empty()) continue;
        J in = J::parse(line);
        map<string,int> traces; long runs = 0; bool complete = false;
        int nrand = in.geti("nrand", 100), npct = in.geti("npct", 0), ndfs = in.geti("ndfs", 0), bound = in.geti("bound", 2);
        unsigned long seed = in.geti("seed", 1);
        vector<Decision> dec; string tr;
        for(int i = 0; i < nrand; i++) {
            SchedConf c; memset(&c, 0, sizeof c);
            c.horizon = in.geti("horizon", 0); c.limit = in.geti("limit_steps", 0);
            c.seed = seed * 1000003UL + i; c.mode = 0;
            static const double ps[] = {0.5, 0.2, 0.05, 0.9}, pm[] = {0, 0.02, 0.2, 0.005}, pl[] = {0.001, 0.01, 0.0001, 0.1};
            c.psync = ps[i % 4]; c.pmem = (c.horizon ? pl : pm)[(i / (c.horizon ? 1 : 4)) % 4]; c.pspur = (i % 5 == 4) ? 0.03 : 0;
            run_one(in, c, tr, dec); traces[tr]++; runs++;
        }
        for(int i = 0; i < npct; i++) {
            SchedConf c; memset(&c, 0, sizeof c);
            c.horizon = in.geti("horizon", 0); c.limit = in.geti("limit_steps", 0);
            c.seed = seed * 7000003UL + i; c.mode = 1; c.depth = 1 + i % 5; c.pmem = (i % 3) ? 1 : 0;
            run_one(in, c, tr, dec); traces[tr]++; runs++;
        }
        if(ndfs) {
            // every schedule with at most `bound` preemptions at synchronisation calls, depth first
            vector<int> pre; bool more = true; int k = 0;
            while(more && k < ndfs) {
                SchedConf c; memset(&c, 0, sizeof c);
                c.seed = 1; c.mode = 2; c.choices = pre.empty() ? NULL : &pre[0]; c.nchoices = (int)pre.size();
                run_one(in, c, tr, dec); traces[tr]++; runs++; k++;
                // next: the deepest decision that has an untried alternative within the bound
                more = false;
                for(int i = (int)dec.size() - 1; i >= 0; i--) {
                    if(dec[i].taken + 1 >= dec[i].n) continue;
                    int used = 0; for(int x = 0; x < i; x++) if(dec[x].preempt && dec[x].taken > 0) used++;
                    if(dec[i].preempt && used + 1 > bound) continue;
                    pre.clear(); for(int x = 0; x < i; x++) pre.push_back(dec[x].taken);
                    pre.push_back(dec[i].taken + 1); more = true; break;
                }
            }
            complete = !more;
        }
        cout << "{\"runs\":" << runs << ",\"complete\":" << (complete ? 1 : 0) << ",\"traces\":[";
        bool first = true;
        for(map<string,int>::iterator it = traces.begin(); it != traces.end(); ++it) { if(!first) cout << ','; first = false; cout << it->first; }
        cout << "]}" << endl;
    }
    return 0;
}
