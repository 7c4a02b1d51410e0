// tvdrive: reads one JSON case per line on stdin ({"op":...}), runs each in a forked child, writes one JSON line per
// case: {"st":"ok","out":...} | {"st":"exc","msg":...} | {"st":"crash","sig":n} | {"st":"hang"}
#include "d_common.h"
#include <iostream>
#include <fstream>
#include <cstring>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>

std::map<std::string, OpFn> & Ops() { static std::map<std::string, OpFn> m; return m; }

static int timeout_s = 20;
int g_outfd = -1;
static void childrun(const std::string & line, int fd) {
    g_outfd = fd;
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = timeout_s; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 3000UL*1024*1024; setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    J res = J::Obj();
    try {
        J in = J::parse(line);
        std::map<std::string, OpFn>::iterator it = Ops().find(in["op"].s);
        if(it == Ops().end()) { res.set("st", "noop"); }
        else {
            J out = it->second(in);
            res.set("st", "ok"); res.set("out", out);
        }
    } catch(std::exception & e) {
        res = J::Obj();
        std::string m = e.what();
        bool drv = m.compare(0, 7, "driver:") == 0 || m.compare(0, 7, "driver ") == 0;
        res.set("st", drv ? "driver" : "exc"); res.set("msg", m);
    } catch(...) { res = J::Obj(); res.set("st", "exc"); res.set("msg", "unknown"); }
    std::ostringstream o; res.write(o); o << '\n';
    std::string r = o.str();
    size_t p = 0;
    while(p < r.size()) { ssize_t n = write(fd, r.data()+p, r.size()-p); if(n <= 0) break; p += n; }
    _exit(0);
}

int main(int argc, char ** argv) {
    std::ios::sync_with_stdio(false);
    if(argc > 1) timeout_s = atoi(argv[1]);
    std::vector<std::string> lines; std::string l;
    while(std::getline(std::cin, l)) if(!l.empty()) lines.push_back(l);
    int real_out = dup(1);
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    if(!getenv("TVDRIVE_STDERR")) dup2(devnull, 2);
    FILE * fo = fdopen(real_out, "w");
    for(size_t i = 0; i < lines.size(); i++) {
        int pp[2]; if(pipe(pp)) return 3;
        pid_t pid = fork();
        if(pid < 0) return 4;
        if(pid == 0) { close(pp[0]); close(real_out); alarm(timeout_s*3); childrun(lines[i], pp[1]); }
        close(pp[1]);
        std::string got; char buf[65536]; ssize_t n;
        while((n = read(pp[0], buf, sizeof buf)) > 0) got.append(buf, n);
        close(pp[0]);
        int st = 0; waitpid(pid, &st, 0);
        if(!got.empty() && got[got.size()-1] == '\n') fputs(got.c_str(), fo);
        else {
            int sig = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
            if(sig == SIGXCPU || sig == SIGALRM || sig == SIGKILL) fprintf(fo, "{\"st\":\"hang\",\"sig\":%d}\n", sig);
            else fprintf(fo, "{\"st\":\"crash\",\"sig\":%d,\"code\":%d}\n", sig, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
        }
    }
    fclose(fo);
    return 0;
}
