#include "core.h"
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <sstream>
#include <fstream>
#include <iostream>

namespace core {

Ctx *cx = nullptr;
static unsigned char *state_map = nullptr;
static const size_t STATE_BITS = 1u << 24;

std::string strf(const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char buf[4096];
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    std::string out;
    if(n < (int)sizeof(buf)) out = buf;
    else{ out.resize((size_t)n + 1); vsnprintf(&out[0], out.size(), fmt, ap2); out.resize((size_t)n); }
    va_end(ap2);
    return out;
}
std::string quote(const std::string &s, size_t max){
    std::string o;
    for(size_t i = 0; i < s.size() && i < max; i++){
        unsigned char c = s[i];
        if(c == '\r') o += "\\r"; else if(c == '\n') o += "\\n";
        else if(c < 32 || c > 126 || c == '\\') o += strf("\\x%02x", c);
        else o += c;
    }
    if(s.size() > max) o += strf("...(%zu)", s.size());
    return o;
}

void Ctx::ev(const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    nev++;
    mix(std::string(buf));
    if(trace) fprintf(trace, "%6llu %s\n", (unsigned long long)nev, buf);
}
void Ctx::note(const char *fmt, ...){
    if(!trace) return;
    va_list ap; va_start(ap, fmt);
    fprintf(trace, "       ");
    vfprintf(trace, fmt, ap);
    fprintf(trace, "\n");
    va_end(ap);
}
void Ctx::fail(const char *p, const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if(trace) fprintf(trace, "       !! %s: %s\n", p, buf);
    // "*" means: the run itself is broken (abort, livelock...), so whatever is
    // being decided is not shown to hold
    bool mine = prop == "ALL" || prop == p || !strcmp(p, "*");
    if(!mine){ others[p]++; return; }
    if(violated) return;
    violated = true;
    vprop = p;
    vmsg = buf;
}
static std::set<std::string> known_tags;
void Ctx::finding(const char *tag, const char *p, const char *fmt, ...){
    va_list ap; va_start(ap, fmt);
    char buf[2048];
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if(!known_tags.count(tag)) return fail(p, "[%s] %s", tag, buf);
    if(trace) fprintf(trace, "       ?? %s known finding %s: %s\n", p, tag, buf);
    if(prop == "ALL" || prop == p) stats[std::string("known_") + tag]++;
}
void Ctx::state(uint64_t h){
    h = mix64(h);
    if(state_map){
        size_t b = h & (STATE_BITS - 1);
        state_map[b >> 3] |= 1u << (b & 7);
    }
}

std::string Plan::str() const {
    std::string o = "seed " + std::to_string(seed) + "\n";
    for(auto &k : knobs) o += "knob " + k.first + " " + std::to_string(k.second) + "\n";
    for(auto &i : items){
        o += "item " + i.kind;
        for(auto v : i.a) o += " " + std::to_string(v);
        o += "\n";
    }
    return o;
}
bool Plan::parse(const std::string &text, std::string &err){
    std::istringstream in(text);
    std::string line;
    while(std::getline(in, line)){
        if(line.empty() || line[0] == '#') continue;
        std::istringstream ls(line);
        std::string w;
        ls >> w;
        if(w == "seed") ls >> seed;
        else if(w == "knob"){ std::string n; int64_t v; ls >> n >> v; knobs[n] = v; }
        else if(w == "item"){
            Item it; ls >> it.kind;
            int64_t v; while(ls >> v) it.a.push_back(v);
            items.push_back(it);
        }else{ err = "bad plan line: " + line; return false; }
    }
    return true;
}

static void alarm_cb(int){
    // a run that does not end in a minute of real time does not end
    const char m[] = "sim: run does not terminate\n";
    if(write(2, m, sizeof(m) - 1)){}
    _exit(77);
}

static Result run_one(const Plan &p, const std::string &prop, FILE *trace){
    Ctx c;
    c.prop = prop;
    c.trace = trace;
    cx = &c;
    alarm(60);
    the_sim.run(p);
    alarm(0);
    Result r;
    r.violated = c.violated;
    r.prop = c.vprop;
    r.msg = c.vmsg;
    r.hash = c.hash;
    r.stats = c.stats;
    for(auto &o : c.others) r.stats["other_violation_" + o.first] += o.second;
    r.stats["events"] += (int64_t)c.nev;
    cx = nullptr;
    return r;
}

static double now(){
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string esc(const std::string &s){
    std::string o;
    for(unsigned char c : s){
        if(c == '"' || c == '\\'){ o += '\\'; o += c; }
        else if(c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += c;
    }
    return o;
}

static std::map<std::string, std::string> opts(int argc, char **argv, int from, std::vector<std::string> &pos){
    std::map<std::string, std::string> o;
    for(int i = from; i < argc; i++){
        std::string a = argv[i];
        if(a.compare(0, 2, "--") == 0 && i + 1 < argc){ o[a.substr(2)] = argv[++i]; }
        else pos.push_back(a);
    }
    return o;
}

static int cmd_run(std::map<std::string, std::string> &o){
    std::string prop = o["prop"];
    uint64_t start = strtoull(o["start"].c_str(), 0, 10);
    uint64_t step = o.count("step") ? strtoull(o["step"].c_str(), 0, 10) : 1;
    uint64_t count = o.count("count") ? strtoull(o["count"].c_str(), 0, 10) : 1000000000ull;
    double limit = o.count("time") ? atof(o["time"].c_str()) : 1e9;
    bool keep_going = o.count("keep-going");
    size_t batch = o.count("batch") ? atoi(o["batch"].c_str()) : 10;
    if(o.count("states")){
        int fd = (int)syscall(SYS_openat, AT_FDCWD, o["states"].c_str(), O_RDWR | O_CREAT, 0644);
        if(fd < 0 || syscall(SYS_ftruncate, fd, (long)(STATE_BITS / 8))){ perror("states"); return 2; }
        state_map = (unsigned char*)mmap(0, STATE_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    std::map<std::string, int64_t> total;
    std::set<uint64_t> hashes;
    int64_t runs = 0, nontrivial = 0;
    double t0 = now();
    uint64_t seed = start, done = 0;
    bool bad = false;
    while(done < count && now() - t0 < limit && (!bad || keep_going)){
        int pfd[2];
        if(pipe(pfd)) return 2;
        fflush(stdout);
        pid_t pid = fork();
        if(pid < 0){ perror("fork"); return 2; }
        if(pid == 0){
            close(pfd[0]);
            FILE *f = fdopen(pfd[1], "w");
            for(size_t i = 0; i < batch && done + i < count; i++){
                if(i && now() - t0 >= limit) break;
                uint64_t s = seed + i * step;
                fprintf(f, "B %llu\n", (unsigned long long)s);
                fflush(f);
                Plan p = the_sim.gen(s, prop);
                Result r = run_one(p, prop, nullptr);
                for(auto &kv : r.stats) fprintf(f, "S %s %lld\n", kv.first.c_str(), (long long)kv.second);
                fprintf(f, "E %llu %d %s %s\n", (unsigned long long)r.hash, (int)r.violated,
                    r.violated ? r.prop.c_str() : "-", r.violated ? esc(r.msg).c_str() : "-");
                fflush(f);
                if(r.violated && !keep_going) break;
            }
            fclose(f);
            _exit(0);
        }
        close(pfd[1]);
        FILE *f = fdopen(pfd[0], "r");
        char *line = nullptr; size_t cap = 0; ssize_t n;
        uint64_t cur = 0; bool in = false; size_t ended = 0;
        std::map<std::string, int64_t> st;
        while((n = getline(&line, &cap, f)) > 0){
            if(line[n-1] == '\n') line[--n] = 0;
            if(line[0] == 'B'){ cur = strtoull(line + 2, 0, 10); in = true; st.clear(); }
            else if(line[0] == 'S'){
                char *sp = strchr(line + 2, ' ');
                *sp = 0;
                st[line + 2] += atoll(sp + 1);
            }else if(line[0] == 'E'){
                char *e; uint64_t h = strtoull(line + 2, &e, 10);
                int v = (int)strtol(e, &e, 10);
                in = false; ended++; runs++;
                bool nt = st.count("nontrivial") && st["nontrivial"];
                if(nt){ nontrivial++; hashes.insert(h); }
                for(auto &kv : st){
                    if(kv.first.compare(0, 4, "max_") == 0) total[kv.first] = std::max(total[kv.first], kv.second);
                    else total[kv.first] += kv.second;
                }
                if(v){
                    printf("VIOL %llu %s\n", (unsigned long long)cur, e + 1);
                    bad = true;
                }
            }
        }
        free(line);
        fclose(f);
        int status = 0;
        waitpid(pid, &status, 0);
        if(in){
            // the child died inside seed cur
            std::string why = WIFSIGNALED(status) ? strf("signal %d", WTERMSIG(status))
                : strf("exit status %d", WEXITSTATUS(status));
            printf("VIOL %llu * the program died: %s\n", (unsigned long long)cur, why.c_str());
            bad = true;
            runs++;
            seed = cur + step;
            done = (seed - start) / step;
        }else{
            if(!ended) break;
            seed += ended * step;
            done += ended;
        }
    }
    printf("SUMMARY {\"runs\": %lld, \"nontrivial\": %lld, \"distinct\": %zu, \"wall\": %.3f, \"next\": %llu, \"stats\": {",
        (long long)runs, (long long)nontrivial, hashes.size(), now() - t0, (unsigned long long)seed);
    bool first = true;
    for(auto &kv : total){
        printf("%s\"%s\": %lld", first ? "" : ", ", kv.first.c_str(), (long long)kv.second);
        first = false;
    }
    printf("}}\n");
    return bad ? 10 : 0;
}

static int cmd_replay(std::map<std::string, std::string> &o, const std::string &file){
    std::ifstream in(file);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p; std::string err;
    if(!in || !p.parse(ss.str(), err)){ fprintf(stderr, "%s: %s\n", file.c_str(), err.c_str()); return 2; }
    FILE *t = nullptr;
    if(o.count("trace")) t = o["trace"] == "-" ? stdout : fopen(o["trace"].c_str(), "w");
    if(t) setvbuf(t, nullptr, _IOLBF, 0);
    Result r = run_one(p, o["prop"], t);
    printf("RESULT %s %s hash=%016llx events=%lld %s\n", r.violated ? "violation" : "ok",
        r.violated ? r.prop.c_str() : "-", (unsigned long long)r.hash,
        (long long)r.stats["events"], r.msg.c_str());
    if(o.count("stats")) for(auto &kv : r.stats) printf("  %s=%lld\n", kv.first.c_str(), (long long)kv.second);
    fflush(stdout);
    _exit(r.violated ? 10 : 0);
}
} // namespace core

using namespace core;
int main(int argc, char **argv){
    signal(SIGPIPE, SIG_IGN);
    signal(SIGALRM, alarm_cb);
    std::vector<std::string> pos;
    if(argc < 2){ fprintf(stderr, "usage: %s run|gen|replay ...\n", argv[0]); return 2; }
    std::string cmd = argv[1];
    auto o = opts(argc, argv, 2, pos);
    if(o["prop"].empty()) o["prop"] = "ALL";
    {
        std::stringstream ks(o["known"]);
        std::string t;
        while(std::getline(ks, t, ',')) known_tags.insert(t);
    }
    the_sim.process_init();
    if(cmd == "run") return cmd_run(o);
    if(cmd == "gen"){
        Plan p = the_sim.gen(strtoull(o["seed"].c_str(), 0, 10), o["prop"]);
        fputs(p.str().c_str(), stdout);
        return 0;
    }
    if(cmd == "replay" && pos.size() == 1) return cmd_replay(o, pos[0]);
    fprintf(stderr, "bad usage\n");
    return 2;
}
