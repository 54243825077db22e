// Property-based testing engine: choice-sequence generation, shrinking, replay, statistics.
//
//  * Every random decision of a case is one 32-bit choice taken from a recorded sequence, so that a case is a pure
//    function of that sequence; in search mode the choices come from splitmix64(VERIF_SEED, worker, case).
//  * Cases run in forked workers; a case that fails an oracle, crashes (sanitizer, signal) or burns more than its
//    CPU limit is shrunk on its choice sequence (drop operations, then lower values) and written as a replay file.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <set>
#include <sstream>
#include <fstream>
#include <functional>
#include <algorithm>
#include <chrono>
#include <exception>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>

namespace pbt {

struct Failure {
    std::string msg;
};

template <typename... A>
inline std::string cat(const A &... a) {
    std::ostringstream o;
    using x = int[];
    (void)x{0, ((o << a), 0)...};
    return o.str();
}

#define PBT_CHECK(cond, ...)                                                                     \
    do {                                                                                         \
        if (!(cond)) throw ::pbt::Failure{::pbt::cat(__VA_ARGS__)};                              \
    } while (0)

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

enum { MAX_CHOICES = 1 << 17, MAX_SPANS = 1 << 14, MSG = 4096 };

struct Shared {
    volatile uint32_t n;
    volatile uint32_t nspans;
    volatile uint64_t case_no;
    volatile uint32_t state;    // 0 idle, 1 in case, 2 failed oracle, 3 all cases done
    char msg[MSG];
    uint32_t choices[MAX_CHOICES];
    uint32_t spans[MAX_SPANS];
};

// The source of all choices of one case.
class Src {
public:
    Shared * sh;
    bool random;
    uint64_t st = 0;
    const std::vector<uint32_t> * replay = nullptr;
    size_t rpos = 0;
    size_t ops_left = 0;
    bool verbose = false;
    bool nontriv = false;
    std::string log_text;
    std::map<std::string, uint64_t> * labels = nullptr;
    uint64_t hash = 1469598103934665603ull;

    uint32_t raw() {
        uint32_t v;
        if (random) {
            st = st + 0x9e3779b97f4a7c15ull;
            v = uint32_t(mix64(st) >> 16);
        } else {
            v = rpos < replay->size() ? (*replay)[rpos] : 0;
            rpos++;
        }
        return v;
    }
    void record(uint32_t v) {
        hash = (hash ^ v) * 1099511628211ull;
        hash ^= hash >> 29;
        uint32_t k = sh->n;
        if (k < MAX_CHOICES) {
            sh->choices[k] = v;
            sh->n = k + 1;
        }
    }
    // [0, n)
    uint32_t draw(uint32_t n) {
        if (n <= 1) n = 1;
        uint32_t v = raw() % n;
        record(v);
        return v;
    }
    // [lo, hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint32_t(hi - lo + 1))); }
    bool chance(uint32_t num, uint32_t den) {   // shrinks to false
        return draw(den) >= den - num;
    }
    uint32_t draw32() {
        uint32_t v = raw();
        record(v);
        return v;
    }
    uint64_t draw64() {
        uint64_t hi = draw32();
        return (hi << 32) | draw32();
    }
    // An integer of w bits, biased to boundary values.
    uint64_t interesting64() {
        uint32_t k = draw(8);
        if (k == 0) return draw(16);
        if (k == 1) return draw(256);
        if (k == 2) { uint64_t b = draw(64); return (uint64_t(1) << b); }
        if (k == 3) { uint64_t b = draw(64); uint64_t d = draw(5); return (uint64_t(1) << b) + d - 2; }
        if (k == 4) return ~uint64_t(0) - draw(16);
        if (k == 5) { uint64_t b = draw(64); return draw64() >> b; }
        if (k == 6) return draw32();
        return draw64();
    }
    // Number of operations is fixed up front in search mode; in replay mode the operations go on to the end of the
    // choices, so that dropping operations is dropping choices.
    void set_ops(size_t n) { ops_left = n; }
    bool more() {
        bool r;
        if (random) {
            r = ops_left > 0 && sh->n + 64 < MAX_CHOICES && sh->nspans + 2 < MAX_SPANS;
            if (r) ops_left--;
        } else {
            r = rpos < replay->size();
        }
        if (r) {
            uint32_t k = sh->nspans;
            if (k < MAX_SPANS) { sh->spans[k] = sh->n; sh->nspans = k + 1; }
        }
        return r;
    }
    // index by weight
    template <size_t N>
    uint32_t weighted(const int (&w)[N]) {
        int tot = 0;
        for (size_t i = 0; i < N; i++) tot += w[i];
        int v = int(draw(uint32_t(tot)));
        for (size_t i = 0; i < N; i++) { if (v < w[i]) return uint32_t(i); v -= w[i]; }
        return 0;
    }
    void nontrivial(const char * why = nullptr) { nontriv = true; if (why) label(why); }
    void label(const char * l) { if (labels) (*labels)[l]++; }
    template <typename... A>
    void log(const A &... a) {
        if (verbose && log_text.size() < 20000) { log_text += cat(a...); log_text += '\n'; }
    }
};

struct Target {
    const char * name;
    void (*fn)(Src &);
    uint32_t weight;            // relative share of the cases
};

struct Config {
    std::string property;
    std::vector<Target> targets;
    unsigned cpu_limit_s = 20;  // CPU seconds of one case
};

// The targets of all translation units of one check.
inline std::vector<Target> & registry() { static std::vector<Target> r; return r; }
struct Register {
    Register(std::initializer_list<Target> l) { for (auto & t : l) registry().push_back(t); }
};

inline Shared * new_shared() {
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared *)p;
}

inline void on_cpu_limit(int) { _exit(77); }

inline void arm(unsigned s) {
    struct itimerval it{};
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}

inline void set_child_limits() {
    signal(SIGPROF, on_cpu_limit);
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

// Runs one case; returns false on an oracle failure (message in sh->msg).
inline bool run_case(Src & s, void (*fn)(Src &), unsigned cpu) {
    s.sh->n = 0;
    s.sh->nspans = 0;
    s.sh->state = 1;
    arm(cpu);
    std::string m;
    bool ok = true;
    try {
        fn(s);
    } catch (const Failure & f) {
        ok = false; m = f.msg;
    } catch (const std::exception & e) {
        ok = false; m = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        ok = false; m = "unexpected exception";
    }
    arm(0);
    if (!ok) {
        strncpy(s.sh->msg, m.c_str(), MSG - 1);
        s.sh->state = 2;
    } else {
        s.sh->state = 0;
    }
    return ok;
}

inline double now_s() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Outcome {
    bool fail = false;
    std::string kind;   // oracle / crash / hang
    std::string msg;
    std::vector<uint32_t> choices;   // as recorded
    std::vector<uint32_t> spans;
    std::string log;
};

inline std::string slurp(const std::string & f) {
    std::ifstream i(f);
    std::stringstream b;
    b << i.rdbuf();
    return b.str();
}

inline std::string crash_msg(int status, const std::string & err) {
    std::string m;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 77) return "the operation does not terminate (CPU limit of one case)";
    std::istringstream is(err);
    std::string line;
    while (std::getline(is, line)) {
        size_t p = line.find("ERROR: AddressSanitizer");
        if (p == std::string::npos) p = line.find("runtime error:");
        if (p == std::string::npos) p = line.find("terminate called");
        if (p == std::string::npos) p = line.find("what():");
        if (p == std::string::npos && line.find("hard rss limit") != std::string::npos) p = 0;
        if (p != std::string::npos) { m += line.substr(p, 200); m += "; "; if (m.size() > 400) break; }
    }
    if (WIFSIGNALED(status)) m = cat("killed by signal ", WTERMSIG(status), " ", m);
    else m = cat("process ended with code ", WEXITSTATUS(status), " ", m);
    return m;
}

// Runs one choice sequence in a child process.
inline Outcome eval(const Target & t, const std::vector<uint32_t> & ch, unsigned cpu, bool verbose = false) {
    static Shared * sh = new_shared();
    Outcome o;
    sh->n = 0; sh->nspans = 0; sh->state = 0; sh->msg[0] = 0;
    char tmp[] = "/tmp/pbt_errXXXXXX";
    int fd = mkstemp(tmp);
    char tmp2[] = "/tmp/pbt_logXXXXXX";
    int fd2 = mkstemp(tmp2);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd, 2);
        set_child_limits();
        std::map<std::string, uint64_t> labels;
        Src s;
        s.sh = sh; s.random = false; s.replay = &ch; s.verbose = verbose; s.labels = &labels;
        bool ok = run_case(s, t.fn, cpu);
        if (verbose) { ssize_t r = write(fd2, s.log_text.data(), s.log_text.size()); (void)r; }
        _exit(ok ? 0 : 1);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    close(fd); close(fd2);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) {
        o.fail = false;
    } else {
        o.fail = true;
        if (sh->state == 2) { o.kind = "oracle"; o.msg = sh->msg; }
        else {
            o.kind = (WIFEXITED(status) && WEXITSTATUS(status) == 77) ? "hang" : "crash";
            o.msg = crash_msg(status, slurp(tmp));
        }
    }
    o.choices.assign(sh->choices, sh->choices + sh->n);
    o.spans.assign(sh->spans, sh->spans + sh->nspans);
    if (verbose) o.log = slurp(tmp2);
    unlink(tmp); unlink(tmp2);
    return o;
}

inline std::vector<uint32_t> shrink(const Target & t, std::vector<uint32_t> best, std::vector<uint32_t> spans,
                                    const std::string & kind, unsigned cpu, double budget_s) {
    double t0 = now_s();
    int evals = 0;
    int max_evals = kind == "hang" ? 12 : 4000;
    unsigned c = kind == "hang" ? cpu : std::min(cpu, 10u);
    auto over = [&] { return now_s() - t0 > budget_s || evals >= max_evals; };
    auto try_ = [&](const std::vector<uint32_t> & cand) -> bool {
        evals++;
        Outcome o = eval(t, cand, c);
        // keep the kind of failure, so that an oracle failure does not turn into something unrelated
        if (!o.fail || (kind != "hang" && o.kind == "hang")) return false;
        best = o.choices.size() <= cand.size() ? o.choices : cand;
        spans = o.spans;
        return true;
    };
    bool progress = true;
    while (progress && !over()) {
        progress = false;
        // 1. drop runs of operations
        for (size_t len = std::max<size_t>(1, spans.size() / 2); len >= 1 && !over(); len /= 2) {
            for (size_t i = 0; i < spans.size() && !over();) {
                size_t j = std::min(spans.size(), i + len);
                std::vector<uint32_t> cand(best.begin(), best.begin() + spans[i]);
                if (j < spans.size()) cand.insert(cand.end(), best.begin() + spans[j], best.end());
                if (try_(cand)) progress = true;
                else i += len;
            }
            if (len == 1) break;
        }
        // 2. lower single values
        for (size_t i = 0; i < best.size() && i < 600 && !over(); i++) {
            uint32_t v = best[i];
            if (v == 0) continue;
            std::vector<uint32_t> cand = best;
            cand[i] = 0;
            if (try_(cand)) { progress = true; continue; }
            uint32_t step = v / 2;
            while (step > 0 && !over()) {
                if (i >= best.size() || best[i] < step) break;
                cand = best;
                cand[i] -= step;
                if (try_(cand)) { progress = true; }
                else step /= 2;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string & s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o;
}

inline int64_t worker_range(const Config & cfg, uint64_t seed, unsigned w, unsigned W, uint64_t from, uint64_t to,
                            Shared * sh, const std::string & statfile, double deadline) {
    // returns index of failing case or -1 (in worker process)
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0, nontriv = 0, ops = 0;
    uint32_t tw = 0;
    for (auto & t : cfg.targets) tw += t.weight;
    int64_t bad = -1;
    bool cut = false;
    for (uint64_t i = from; i < to; i++) {
        if (now_s() > deadline) { cut = true; break; }
        uint64_t cs = mix64(mix64(seed * 1000003 + w) + i);
        uint32_t k = uint32_t(i % tw);
        size_t ti = 0;
        while (k >= cfg.targets[ti].weight) { k -= cfg.targets[ti].weight; ti++; }
        Src s;
        s.sh = sh; s.random = true; s.st = cs; s.labels = &labels;
        sh->case_no = i;
        labels[std::string("target:") + cfg.targets[ti].name]++;
        bool ok = run_case(s, cfg.targets[ti].fn, cfg.cpu_limit_s);
        evals++;
        ops += sh->nspans;
        if (s.nontriv) { nontriv++; if (distinct.size() < 4000000) distinct.insert(s.hash ^ (ti * 0x9e3779b97f4a7c15ull)); }
        if (!ok) { bad = int64_t(i); break; }
    }
    if (bad < 0) sh->state = 3;
    if (!statfile.empty()) {
        std::ofstream f(statfile);
        f << "evals " << evals << "\nnontriv " << nontriv << "\nops " << ops << "\ncut " << cut << "\n";
        for (auto & l : labels) f << "label " << l.second << " " << l.first << "\n";
        f.close();
        std::ofstream h(statfile + ".h", std::ios::binary);
        for (uint64_t x : distinct) h.write((const char *)&x, 8);
    }
    return bad;
}

inline int target_of(const Config & cfg, uint64_t i) {
    uint32_t tw = 0;
    for (auto & t : cfg.targets) tw += t.weight;
    uint32_t k = uint32_t(i % tw);
    size_t ti = 0;
    while (k >= cfg.targets[ti].weight) { k -= cfg.targets[ti].weight; ti++; }
    return int(ti);
}

// Re-runs cases [from, to] of a worker in one process (for failures that need state left by earlier cases).
inline bool eval_range(const Config & cfg, uint64_t seed, unsigned w, uint64_t from, uint64_t to, std::string & msg) {
    Shared * sh = new_shared();
    char tmp[] = "/tmp/pbt_errXXXXXX";
    int fd = mkstemp(tmp);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(fd, 2);
        set_child_limits();
        int64_t b = worker_range(cfg, seed, w, 0, from, to + 1, sh, "", now_s() + 600);
        _exit(b < 0 ? 0 : 1);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    close(fd);
    bool fail = !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
    if (fail) msg = sh->state == 2 ? std::string(sh->msg) : crash_msg(status, slurp(tmp));
    unlink(tmp);
    munmap(sh, sizeof(Shared));
    return fail;
}

inline int pbt_main(int argc, char ** argv) {
    Config cfg;
    cfg.targets = registry();
    std::sort(cfg.targets.begin(), cfg.targets.end(), [](const Target & a, const Target & b) { return std::string(a.name) < b.name; });
    uint64_t seed = 1;
    bool thorough = false;
    std::string out, replay_dir = ".", replay, tag = "t";
    unsigned W = 8;
    uint64_t cases = 0;
    double wall = 1e9;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--tier") thorough = next() == "thorough";
        else if (a == "--out") out = next();
        else if (a == "--replay-dir") replay_dir = next();
        else if (a == "--replay") replay = next();
        else if (a == "--workers") W = unsigned(atoi(next().c_str()));
        else if (a == "--property") cfg.property = next();
        else if (a == "--cpu-limit") cfg.cpu_limit_s = unsigned(atoi(next().c_str()));
        else if (a == "--only") {
            std::string o = next();
            std::vector<Target> k;
            for (auto & t : cfg.targets) if (std::string(t.name).find(o) != std::string::npos) k.push_back(t);
            cfg.targets = k;
        }
        else if (a == "--cases") cases = strtoull(next().c_str(), nullptr, 10);
        else if (a == "--wall") wall = atof(next().c_str());
        else if (a == "--tag") tag = next();
    }
    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string key, tname, mode;
        std::vector<uint32_t> ch;
        uint64_t rs = 0, rf = 0, rt = 0;
        unsigned rw = 0;
        std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line);
            is >> key;
            if (key == "target") is >> tname;
            else if (key == "choices") { uint32_t v; while (is >> v) ch.push_back(v); mode = "choices"; }
            else if (key == "range") { is >> rs >> rw >> rf >> rt; mode = "range"; }
        }
        if (mode == "range") {
            std::string m;
            bool b = eval_range(cfg, rs, rw, rf, rt, m);
            printf("%s %s\n", b ? "FAIL" : "PASS", m.c_str());
            return b ? 1 : 0;
        }
        for (auto & t : cfg.targets)
            if (tname == t.name) {
                Outcome o = eval(t, ch, cfg.cpu_limit_s, true);
                printf("%s\n", o.log.c_str());
                printf("%s %s %s\n", o.fail ? "FAIL" : "PASS", o.kind.c_str(), o.msg.c_str());
                return o.fail ? 1 : 0;
            }
        printf("ERROR no target %s\n", tname.c_str());
        return 3;
    }
    if (!cases) cases = 1000;
    double t0 = now_s(), deadline = t0 + wall;
    std::vector<pid_t> pids(W, 0);
    std::vector<Shared *> shs(W);
    std::vector<std::string> errf(W), statf(W);
    uint64_t per = (cases + W - 1) / W;
    for (unsigned w = 0; w < W; w++) {
        shs[w] = new_shared();
        errf[w] = out + ".err" + std::to_string(w);
        statf[w] = out + ".stat" + std::to_string(w);
        unlink(statf[w].c_str());
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            int fd = open(errf[w].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            set_child_limits();
            int64_t b = worker_range(cfg, seed, w, W, 0, per, shs[w], statf[w], deadline);
            _exit(b < 0 ? 0 : 1);
        }
        pids[w] = p;
    }
    int badw = -1;
    int badstatus = 0;
    unsigned left = W;
    while (left > 0) {
        int status;
        pid_t p = wait(&status);
        if (p <= 0) break;
        unsigned w = 0;
        while (w < W && pids[w] != p) w++;
        if (w == W) continue;
        left--;
        pids[w] = 0;
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0)) {
            badw = int(w);
            badstatus = status;
            for (unsigned q = 0; q < W; q++)
                if (pids[q] > 0) kill(pids[q], SIGKILL);
            while (wait(&status) > 0) {}
            break;
        }
    }
    // statistics
    uint64_t evals = 0, nontriv = 0, ops = 0, cut = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    for (unsigned w = 0; w < W; w++) {
        std::ifstream f(statf[w]);
        std::string k;
        while (f >> k) {
            uint64_t v;
            f >> v;
            if (k == "evals") evals += v;
            else if (k == "nontriv") nontriv += v;
            else if (k == "ops") ops += v;
            else if (k == "cut") cut += v;
            else { std::string l; std::getline(f, l); labels[l.substr(l.empty() ? 0 : 1)] += v; }
        }
        std::ifstream h(statf[w] + ".h", std::ios::binary);
        uint64_t x;
        while (h.read((char *)&x, 8)) distinct.insert(x);
        unlink(statf[w].c_str());
        unlink((statf[w] + ".h").c_str());
    }
    std::string vio;
    if (badw >= 0) {
        Shared * sh = shs[size_t(badw)];
        uint64_t cn = sh->case_no;
        const Target & t = cfg.targets[size_t(target_of(cfg, cn))];
        std::vector<uint32_t> ch(sh->choices, sh->choices + sh->n), sp(sh->spans, sh->spans + sh->nspans);
        std::string wmsg = sh->state == 2 ? std::string(sh->msg) : crash_msg(badstatus, slurp(errf[size_t(badw)]));
        Outcome o = eval(t, ch, cfg.cpu_limit_s);
        std::string file = replay_dir + "/" + tag + ".replay";
        std::string content, msg = wmsg, kind = o.kind;
        bool confirmed = false;
        if (o.fail) {
            auto best = shrink(t, ch, o.spans, o.kind, cfg.cpu_limit_s, thorough ? 120 : 40);
            for (int pass = 0; pass < 2 && !confirmed; pass++) {
                const auto & c = pass == 0 ? best : ch;
                bool all = true;
                Outcome q;
                for (int r = 0; r < 3 && all; r++) { q = eval(t, c, cfg.cpu_limit_s, true); all = q.fail; }
                if (all) {
                    confirmed = true;
                    msg = q.msg; kind = q.kind;
                    std::ostringstream c2;
                    c2 << "property " << cfg.property << "\ntarget " << t.name << "\nchoices";
                    for (uint32_t v : c) c2 << " " << v;
                    c2 << "\nkind " << q.kind << "\nmessage " << q.msg << "\n";
                    std::istringstream ls(q.log);
                    std::string l;
                    while (std::getline(ls, l)) c2 << "# " << l << "\n";
                    content = c2.str();
                }
            }
        }
        if (!confirmed) {
            // the failure may need the state left by the earlier cases of this worker
            uint64_t from = 0;
            bool all = true;
            std::string m;
            for (int r = 0; r < 3 && all; r++) all = eval_range(cfg, seed, unsigned(badw), from, cn, m);
            if (all) {
                confirmed = true; msg = m; kind = "sequence";
                content = cat("property ", cfg.property, "\ntarget ", t.name, "\nrange ", seed, " ", badw, " ", from, " ", cn,
                              "\nmessage ", m, "\n");
            }
        }
        if (confirmed) {
            std::ofstream f(file);
            f << content;
            vio = file;
            printf("FAILURE target=%s kind=%s case=%llu msg=%s\n", t.name, kind.c_str(), (unsigned long long)cn, msg.c_str());
            labels["__target:" + std::string(t.name)] = 1;
            std::ofstream g(out + ".msg");
            g << t.name << "\n" << msg << "\n";
        } else {
            printf("UNCONFIRMED target=%s case=%llu worker=%d msg=%s\n", t.name, (unsigned long long)cn, badw, wmsg.c_str());
        }
    }
    for (unsigned w = 0; w < W; w++) unlink(errf[w].c_str());
    // samples: the first non-trivial cases of worker 0, described
    std::vector<std::string> samples;
    if (badw < 0) {
        Shared * sh = new_shared();
        std::map<std::string, uint64_t> dummy;
        std::set<int> seen;
        double ts = now_s();
        for (uint64_t i = 0; i < per && samples.size() < std::min<size_t>(4, cfg.targets.size() + 1) && now_s() - ts < 2; i++) {
            int ti = target_of(cfg, i);
            if (seen.count(ti)) continue;
            Src s;
            s.sh = sh; s.random = true; s.st = mix64(mix64(seed * 1000003 + 0) + i); s.labels = &dummy; s.verbose = true;
            if (run_case(s, cfg.targets[size_t(ti)].fn, 600) && s.nontriv) {
                seen.insert(ti);
                std::string x = s.log_text;
                for (auto & c : x) if (c == '\n') c = ';';
                if (x.size() > 700) x = x.substr(0, 700) + " ...";
                samples.push_back(std::string(cfg.targets[size_t(ti)].name) + ": " + x);
            }
        }
    }
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"evaluations\":" << evals << ",\"nontrivial\":" << nontriv << ",\"distinct_nontrivial\":" << distinct.size()
          << ",\"operations\":" << ops << ",\"cut_workers\":" << cut << ",\"planned\":" << per * W << ",\"wall_s\":" << now_s() - t0
          << ",\"violation\":\"" << jesc(vio) << "\",\"failed\":" << (badw >= 0 ? "true" : "false") << ",\"labels\":{";
        bool first = true;
        for (auto & l : labels) { f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
        f << "},\"samples\":[";
        first = true;
        for (auto & x : samples) { f << (first ? "" : ",") << "\"" << jesc(x) << "\""; first = false; }
        f << "]}\n";
    }
    return badw >= 0 ? (vio.empty() ? 4 : 1) : 0;
}

}   // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_TARGETS(...) static ::pbt::Register PBT_CAT(reg_, __LINE__){__VA_ARGS__}
