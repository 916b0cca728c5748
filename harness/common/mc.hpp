/* mc.hpp -- tiny framework shared by all checks: exhaustive enumeration of indexed case spaces over the real code in
 * forked workers, with crash/hang capture, replay, known findings and evidence.
 *
 * A check consists of phases.  A phase is a finite indexed space of cases [0,n); `explore` runs *every* index.  Each
 * case drives the real code and compares it with a reference model; a mismatch calls `W.fail(key, detail)`.
 *
 * Exit status of main: 0 held, 1 VIOLATION printed, 2 anything wrong with the machinery itself. */
#pragma once

#include <atomic>
#include <chrono>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#undef LOCK_READ
#undef LOCK_WRITE

namespace mc {

inline uint64_t hash_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    return h;
}
inline uint64_t hash_str(const std::string &s, uint64_t h = 0xcbf29ce484222325ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h ^ (h >> 29);
}

inline std::string json_escape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        switch (c) {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            case '\r': o += "\\r"; break;
            default:
                if (c < 0x20 or c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
                else o += char(c);
        }
    }
    return o;
}
/** One-line printable form. */
inline std::string one_line(const std::string &s, std::size_t max = 600) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c == '\r') o += "\\r";
        else if (c < 0x20 or c >= 0x7f) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; }
        else o += char(c);
        if (o.size() > max) { o += "..."; break; }
    }
    return o;
}

/** Descriptions may start with a key: "key :: details". */
inline std::string key_of(const std::string &desc) { return desc.substr(0, desc.find(" :: ")); }

inline double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

static constexpr std::size_t DESC_CAP = 6000;
static constexpr unsigned MAX_COUNTERS = 24;

struct SharedWorker
{
    std::atomic<uint64_t> cur;          ///< index of the case being run (or UINT64_MAX)
    std::atomic<uint64_t> chunk_begin, chunk_end, next; ///< chunk currently owned
    std::atomic<double> case_start;
    std::atomic<uint64_t> states, transitions, traces, evals;
    std::atomic<uint64_t> counters[MAX_COUNTERS];
    char desc[DESC_CAP];
};

struct SharedPhase
{
    std::atomic<uint64_t> next_chunk;
    std::atomic<bool> stop;
};

class Check;

/** Handle given to a case: counters, description, failure reporting. */
class Worker
{
    friend class Check;
    SharedWorker *sh = nullptr;
    Check *check = nullptr;
    int fd = -1; ///< records stream (violations, samples)
    std::unordered_set<uint64_t> distinct;
    uint64_t nsamples = 0;
    uint64_t idx = 0, chunk_begin = 0;
    bool verbose = false;
    bool failed_ = false;
    public:
    uint64_t index() const { return idx; }
    bool is_verbose() const { return verbose; }
    void states(uint64_t n = 1) { sh->states.fetch_add(n, std::memory_order_relaxed); }
    void transitions(uint64_t n = 1) { sh->transitions.fetch_add(n, std::memory_order_relaxed); }
    void traces(uint64_t n = 1) { sh->traces.fetch_add(n, std::memory_order_relaxed); }
    void evals(uint64_t n = 1) { sh->evals.fetch_add(n, std::memory_order_relaxed); }
    void count(unsigned id, uint64_t n = 1) { sh->counters[id].fetch_add(n, std::memory_order_relaxed); }
    /** Records a distinct non-trivial outcome/case. */
    void outcome(uint64_t h) { if (distinct.size() < 4000000) distinct.insert(h); }
    void outcome(const std::string &s) { outcome(hash_str(s)); }
    /** Describes the current case; used when the code under test crashes or hangs. */
    void describe(const std::string &s) {
        std::size_t n = std::min(s.size(), DESC_CAP - 1);
        memcpy(sh->desc, s.data(), n); sh->desc[n] = 0;
    }
    void tick() { sh->case_start.store(now()); } ///< resets the hang watchdog, for cases that run long
    inline void fail(const std::string &key, const std::string &detail);
    inline void sample(const std::string &s);
    bool failed() const { return failed_; }
};

struct Record { char kind; std::string phase; uint64_t idx, chunk; std::string key, detail; };

class Check
{
    public:
    using case_fn = std::function<void(uint64_t, Worker&)>;
    std::string id, level;
    bool thorough = false;
    int seed = 1;
    double t0;
    unsigned W = 8;
    bool hung = false, gave_up = false; ///< a hang was confirmed; too many crashes
    double case_limit = 30;     ///< seconds before a case counts as (suspected) hang
    double soft_deadline = 1e18;///< seconds since start after which no further chunks are handed out (cap is reported)
    std::string verif = "/verif";
    std::string rule;
    std::vector<std::string> assumptions;
    std::vector<std::string> counter_names;
    std::map<std::string, std::string> extra; ///< extra coverage fields (raw JSON values)

    private:
    std::string replay_phase; uint64_t replay_idx = 0, replay_chunk = 0; bool replaying = false, replay_hit = false;
    std::string only_phase;
    struct Viol { std::string phase; uint64_t idx, chunk; std::string key, detail; std::string path; };
    std::vector<Viol> violations;
    std::map<std::string, std::string> known; ///< key -> text
    std::map<std::string, std::string> known_hit;
    std::vector<std::string> samples;
    uint64_t tot_states = 0, tot_trans = 0, tot_traces = 0, tot_evals = 0, tot_cases = 0, tot_counters[MAX_COUNTERS] = {};
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> phase_json;
    bool capped = false;
    bool internal_error = false;
    std::string outdir;
    int nconfirm = 0;

    public:
    Check(std::string id, std::string level, int argc, char **argv) : id(id), level(level), t0(now())
    {
        /* Fixed address space layout: hash maps keyed by addresses iterate in the same order in every run. */
        if (not getenv("VERIF_NO_REEXEC")) {
            int p = personality(0xffffffff);
            if (p != -1 and not (p & ADDR_NO_RANDOMIZE) and personality(p | ADDR_NO_RANDOMIZE) != -1) {
                setenv("VERIF_NO_REEXEC", "1", 1);
                execv("/proc/self/exe", argv);
            }
        }
        if (auto e = getenv("VERIF_TIER")) thorough = std::string(e) == "thorough";
        if (auto e = getenv("VERIF_SEED")) seed = atoi(e);
        if (auto e = getenv("VERIF_DIR")) verif = e;
        if (auto e = getenv("VERIF_JOBS")) W = atoi(e);
        std::string rp;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--thorough") thorough = true;
            else if (a == "--replay" and i + 1 < argc) rp = argv[++i];
            else if (a == "--phase" and i + 1 < argc) only_phase = argv[++i];
        }
        if (auto e = getenv("VERIF_MAX_S")) soft_deadline = atof(e);
        outdir = verif + "/build/out/" + id;
        std::string cmd = "mkdir -p '" + outdir + "' '" + verif + "/evidence'";
        if (system(cmd.c_str())) { perror("mkdir"); exit(2); }
        if (not rp.empty()) {
            std::ifstream in(rp); std::string line;
            while (std::getline(in, line)) {
                auto p = line.find(": "); if (p == std::string::npos) continue;
                auto k = line.substr(0, p), v = line.substr(p + 2);
                if (k == "phase") replay_phase = v;
                else if (k == "index") replay_idx = strtoull(v.c_str(), nullptr, 10);
                else if (k == "from") replay_chunk = strtoull(v.c_str(), nullptr, 10);
                else if (k == "tier") thorough = v == "thorough";
            }
            replaying = true;
        }
        std::ifstream kf(verif + "/known_findings.txt"); std::string line;
        /* format: "known: property=<id> key=<key> :: <text>" */
        while (std::getline(kf, line)) {
            std::string pre = "known: property=" + id + " key=";
            if (line.rfind(pre, 0) != 0) continue;
            auto rest = line.substr(pre.size());
            auto p = rest.find(" :: ");
            if (p == std::string::npos) known[rest] = rest; else known[rest.substr(0, p)] = rest.substr(p + 4);
        }
    }

    bool is_known(const std::string &key) const { return known.count(key); }

    /** Explore all indices of [0,n). `key_of_crash` makes the key of a crash of the current case from its description. */
    void explore(const std::string &phase, uint64_t n, case_fn fn, uint64_t chunk = 0)
    {
        if (replaying) {
            if (phase != replay_phase) return;
            replay_hit = true;
            Worker w; SharedWorker *sh = map_shared<SharedWorker>(1); w.sh = sh; w.check = this; w.verbose = true; w.fd = -1;
            printf("replaying %s phase %s case %" PRIu64 "\n", id.c_str(), phase.c_str(), replay_idx);
            for (uint64_t i = replay_chunk; i <= replay_idx; ++i) {
                w.verbose = i == replay_idx;
                w.idx = i; w.failed_ = false; fn(i, w);
            }
            printf("%s\n", w.failed_ ? "case FAILED" : "case passed");
            if (w.failed_) exit(1);
            return;
        }
        if (not only_phase.empty() and phase != only_phase) return;
        if (violations.size() >= 12 or hung or gave_up) return;
        const double pt0 = now();
        if (chunk == 0) chunk = std::max<uint64_t>(1, std::min<uint64_t>(256, n / (W * 16)));
        auto *sp = map_shared<SharedPhase>(1);
        auto *sw = map_shared<SharedWorker>(W);
        struct Proc { pid_t pid = -1; int fd = -1; std::string buf; bool done = false; uint64_t restarts = 0; };
        std::vector<Proc> procs(W);
        for (unsigned w = 0; w != W; ++w) { sw[w].cur = UINT64_MAX; sw[w].next = sw[w].chunk_end = 0; }
        fflush(stdout); fflush(stderr);
        auto spawn = [&](unsigned w) {
            int p[2]; if (pipe(p)) { perror("pipe"); exit(2); }
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); exit(2); }
            if (pid == 0) {
                close(p[0]);
                worker_main(w, phase, n, chunk, fn, sp, sw, p[1]);
                _exit(0);
            }
            close(p[1]);
            procs[w].pid = pid; procs[w].fd = p[0]; procs[w].buf.clear();
            fcntl(p[0], F_SETFL, O_NONBLOCK);
        };
        for (unsigned w = 0; w != W; ++w) spawn(w);
        unsigned live = W;
        uint64_t crashes = 0;
        while (live) {
            bool progress = false;
            for (unsigned w = 0; w != W; ++w) {
                auto &P = procs[w];
                if (P.done) continue;
                drain(P.fd, P.buf);
                int st;
                pid_t r = waitpid(P.pid, &st, WNOHANG);
                if (r == P.pid) {
                    progress = true;
                    drain(P.fd, P.buf); close(P.fd);
                    parse_records(P.buf, phase);
                    if (WIFEXITED(st) and WEXITSTATUS(st) == 0) { P.done = true; --live; continue; }
                    /* crash */
                    uint64_t i = sw[w].cur.load();
                    if (i == UINT64_MAX) { fprintf(stderr, "worker of phase %s died outside any case (status %d)\n", phase.c_str(), st); internal_error = true; P.done = true; --live; continue; }
                    std::ostringstream d;
                    if (WIFSIGNALED(st)) d << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ")";
                    else d << "exited with status " << WEXITSTATUS(st);
                    std::string desc = sw[w].desc;
                    const std::string key = "crash:" + one_line(key_of(desc), 300);
                    add_violation({ phase, i, sw[w].chunk_begin.load(), key, "the code under test " + d.str() + " in: " + desc, "" });
                    if (not is_known(key)) ++crashes;
                    sw[w].next = i + 1; sw[w].cur = UINT64_MAX;
                    if (crashes > 100 or violations.size() >= 40) { gave_up = sp->stop = true; capped = true; P.done = true; --live; continue; }
                    spawn(w);
                    continue;
                }
                /* hang? */
                uint64_t i = sw[w].cur.load(); double cs = sw[w].case_start.load();
                if (i != UINT64_MAX and cs > 0 and now() - cs > case_limit) {
                    std::string desc = sw[w].desc;
                    kill(P.pid, SIGKILL); waitpid(P.pid, &st, 0); drain(P.fd, P.buf); close(P.fd); parse_records(P.buf, phase);
                    progress = true;
                    /* re-run alone before calling it a hang; a confirmed hang ends the exploration */
                    int rr = run_alone(phase, i, i, fn, std::max(60., case_limit));
                    if (rr == 0) rr = run_alone(phase, sw[w].chunk_begin.load(), i, fn, std::max(90., case_limit)); // depends on preceding cases
                    if (rr == 2) {
                        add_violation({ phase, i, i, "hang:" + one_line(key_of(desc), 300), "the code under test does not terminate in: " + desc, "" });
                        hung = capped = sp->stop = true;
                        P.done = true; --live;
                        for (unsigned o = 0; o != W; ++o) if (auto &Q = procs[o]; not Q.done) {
                            kill(Q.pid, SIGKILL); waitpid(Q.pid, &st, 0); drain(Q.fd, Q.buf); close(Q.fd); parse_records(Q.buf, phase); Q.done = true; --live;
                        }
                        break;
                    }
                    if (rr == 1) add_violation({ phase, i, i, "crash:" + one_line(key_of(desc), 300), "fails in: " + desc, "" });
                    sw[w].next = i + 1; sw[w].cur = UINT64_MAX;
                    if (violations.size() >= 40) { sp->stop = true; P.done = true; --live; continue; }
                    spawn(w);
                }
            }
            if (violations.size() >= 40) sp->stop = true;
            if (now() - t0 > soft_deadline and not sp->stop) {
                if (sp->next_chunk.load() * chunk < n) { capped = true; }
                sp->stop = true;
            }
            if (not progress) usleep(2000);
        }
        uint64_t st = 0, tr = 0, tc = 0, ev = 0;
        for (unsigned w = 0; w != W; ++w) {
            st += sw[w].states; tr += sw[w].transitions; tc += sw[w].traces; ev += sw[w].evals;
            for (unsigned c = 0; c != MAX_COUNTERS; ++c) tot_counters[c] += sw[w].counters[c];
        }
        uint64_t done = std::min<uint64_t>(n, sp->next_chunk.load() * chunk);
        if (sp->stop and done < n) capped = true;
        tot_states += st; tot_trans += tr; tot_traces += tc; tot_evals += ev; tot_cases += done;
        std::ostringstream j;
        j << "{\"phase\":\"" << json_escape(phase) << "\",\"cases\":" << done << ",\"space\":" << n
          << ",\"states\":" << st << ",\"transitions\":" << tr << ",\"evaluations\":" << ev
          << ",\"wall_s\":" << (now() - pt0) << "}";
        phase_json.push_back(j.str());
        printf("[%s] phase %-28s cases %" PRIu64 "/%" PRIu64 " states %" PRIu64 " transitions %" PRIu64 " evaluations %" PRIu64 "  %.1fs\n",
               id.c_str(), phase.c_str(), done, n, st, tr, ev, now() - pt0);
        fflush(stdout);
        /* confirm violations of this phase in fresh processes; drop known ones */
        std::vector<Viol> keep;
        for (auto &v : violations) {
            if (v.phase != phase or v.key.rfind("hang:", 0) == 0) { keep.push_back(v); continue; } // hangs have been confirmed already
            if (keep.size() >= 20) { capped = true; continue; } // enough
            int a = run_alone(phase, v.idx, v.idx, fn, 3 * case_limit);
            uint64_t from = v.idx;
            if (a == 0) { from = v.chunk; a = run_alone(phase, v.chunk, v.idx, fn, 6 * case_limit); }
            if (a == 0) {
                fprintf(stderr, "NOT REPRODUCED: property=%s phase=%s case=%" PRIu64 " key=%s: %s\n", id.c_str(), phase.c_str(), v.idx, v.key.c_str(), one_line(v.detail).c_str());
                internal_error = true; continue;
            }
            int b = run_alone(phase, from, v.idx, fn, 6 * case_limit);
            if (b == 0) { fprintf(stderr, "UNSTABLE: property=%s phase=%s case=%" PRIu64 "\n", id.c_str(), phase.c_str(), v.idx); internal_error = true; continue; }
            v.chunk = from;
            keep.push_back(v);
        }
        violations = std::move(keep);
        munmap(sp, sizeof(*sp)); munmap(sw, sizeof(*sw) * W);
    }

    int finish()
    {
        if (replaying) {
            if (not replay_hit) { fprintf(stderr, "replay: no such phase\n"); return 2; }
            return 0;
        }
        std::ostringstream e;
        e << "{\n  \"property\": \"" << id << "\",\n  \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n  \"seed\": " << seed
          << ",\n  \"level\": \"" << level << "\",\n  \"coverage\": {\n";
        /* every evaluation (or, if a check does not count them, every case) is an execution of the implementation compared with the model */
        if (tot_traces == 0) { tot_traces = tot_evals ? tot_evals : tot_cases; tot_evals = 0; }
        e << "    \"states\": " << tot_states << ",\n    \"transitions\": " << tot_trans << ",\n    \"traces_validated_against_impl\": " << tot_traces;
        if (tot_evals) e << ",\n    \"evaluations\": " << tot_evals;
        e << ",\n    \"distinct_nontrivial\": " << distinct.size()
          << ",\n    \"rule\": \"" << json_escape(rule) << "\",\n    \"exhaustive\": " << (capped ? "false" : "true")
          << ",\n    \"phases\": [";
        for (std::size_t i = 0; i != phase_json.size(); ++i) e << (i ? ",\n      " : "\n      ") << phase_json[i];
        e << "\n    ],\n    \"samples\": [";
        for (std::size_t i = 0; i != samples.size(); ++i) e << (i ? ",\n      " : "\n      ") << "\"" << json_escape(samples[i]) << "\"";
        e << "\n    ]";
        for (std::size_t i = 0; i != counter_names.size(); ++i) e << ",\n    \"" << json_escape(counter_names[i]) << "\": " << tot_counters[i];
        for (auto &[k, v] : extra) e << ",\n    \"" << json_escape(k) << "\": " << v;
        e << "\n  },\n  \"assumptions\": [";
        for (std::size_t i = 0; i != assumptions.size(); ++i) e << (i ? ", " : "") << "\"" << json_escape(assumptions[i]) << "\"";
        e << "],\n  \"wall_s\": " << (now() - t0) << ",\n  \"violations\": " << violations.size() << "\n}\n";
        std::ofstream(verif + "/evidence/" + id + ".json") << e.str();
        for (auto &[k, v] : known_hit) printf("KNOWN-FINDING: property=%s %s [%s]\n", id.c_str(), v.c_str(), k.c_str());
        unsigned n = 0;
        for (auto &v : violations) {
            std::ostringstream p; p << outdir << "/violation-" << n++ << ".txt";
            std::ofstream o(p.str());
            o << "property: " << id << "\ntier: " << (thorough ? "thorough" : "quick") << "\nphase: " << v.phase << "\nindex: " << v.idx << "\nfrom: " << v.chunk
              << "\nkey: " << v.key << "\n\n" << v.detail << "\n\nreplay with: python3 /verif/run.py " << id << " --replay " << p.str() << "\n";
            if (n > 6) { if (n == 7) printf("  (further violations are listed in %s)\n", outdir.c_str()); continue; }
            printf("  key=%s :: %s\n", one_line(v.key, 200).c_str(), one_line(v.detail, 500).c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), p.str().c_str());
        }
        printf("[%s] %s: states %" PRIu64 ", transitions %" PRIu64 ", evaluations %" PRIu64 ", cases %" PRIu64 ", distinct %zu, violations %zu, known %zu, %s, %.1fs\n", id.c_str(),
               thorough ? "thorough" : "quick", tot_states, tot_trans, tot_evals, tot_cases, distinct.size(), violations.size(), known_hit.size(),
               capped ? "CAPPED" : "exhaustive within bounds", now() - t0);
        fflush(stdout);
        if (not violations.empty()) return 1;
        return internal_error ? 2 : 0;
    }

    /** Report a violation found by the parent process itself (not inside a phase). */
    void internal(const std::string &what) { fprintf(stderr, "internal error: %s\n", what.c_str()); internal_error = true; }

    private:
    friend class Worker;

    template<typename T> static T * map_shared(std::size_t n) {
        void *p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); exit(2); }
        return static_cast<T*>(p);
    }
    static void drain(int fd, std::string &buf) {
        char b[65536]; ssize_t r;
        while ((r = read(fd, b, sizeof b)) > 0) buf.append(b, r);
    }
    static void put(int fd, char kind, uint64_t idx, uint64_t chunk, const std::string &key, const std::string &detail) {
        if (fd < 0) return;
        std::string s; s += kind;
        auto add = [&](const void *p, std::size_t n) { s.append(static_cast<const char*>(p), n); };
        uint64_t kl = key.size(), dl = detail.size();
        add(&idx, 8); add(&chunk, 8); add(&kl, 8); add(&dl, 8); s += key; s += detail;
        const char *p = s.data(); std::size_t n = s.size();
        while (n) { ssize_t r = write(fd, p, n); if (r <= 0) { if (errno == EINTR) continue; _exit(3); } p += r; n -= r; }
    }
    void parse_records(std::string &buf, const std::string &phase) {
        std::size_t o = 0;
        while (o + 33 <= buf.size()) {
            char k = buf[o]; uint64_t idx, chunk, kl, dl;
            memcpy(&idx, &buf[o + 1], 8); memcpy(&chunk, &buf[o + 9], 8); memcpy(&kl, &buf[o + 17], 8); memcpy(&dl, &buf[o + 25], 8);
            if (o + 33 + kl + dl > buf.size()) break;
            std::string key = buf.substr(o + 33, kl), detail = buf.substr(o + 33 + kl, dl);
            o += 33 + kl + dl;
            if (k == 'V') add_violation({ phase, idx, chunk, key, detail, "" });
            else if (k == 'S') { if (samples.size() < 24) samples.push_back(phase + "#" + std::to_string(idx) + ": " + detail); }
            else if (k == 'D') { for (std::size_t i = 0; i + 8 <= detail.size(); i += 8) { uint64_t h; memcpy(&h, &detail[i], 8); distinct.insert(h); } }
        }
        buf.erase(0, o);
    }
    void add_violation(Viol v) {
        if (auto it = known.find(v.key); it != known.end()) { known_hit[v.key] = it->second; return; }
        for (auto &o : violations) if (o.key == v.key and o.phase == v.phase) { if (v.idx < o.idx) o = v; return; }
        if (violations.size() >= 200) return;
        violations.push_back(std::move(v));
    }
    void worker_main(unsigned w, const std::string &phase, uint64_t n, uint64_t chunk, case_fn &fn, SharedPhase *sp, SharedWorker *sw, int fd) {
        (void) phase;
        Worker wk; wk.sh = &sw[w]; wk.check = this; wk.fd = fd;
        struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
        silence();
        auto run_range = [&](uint64_t b, uint64_t e, uint64_t cb) {
            sw[w].chunk_begin = cb; sw[w].chunk_end = e;
            for (uint64_t i = b; i != e; ++i) {
                if (sp->stop) break;
                sw[w].desc[0] = 0;
                wk.idx = i; wk.chunk_begin = cb; wk.failed_ = false;
                sw[w].case_start = now(); sw[w].cur = i;
                fn(i, wk);
                sw[w].cur = UINT64_MAX; sw[w].next = i + 1;
            }
        };
        if (sw[w].next < sw[w].chunk_end) run_range(sw[w].next, sw[w].chunk_end, sw[w].next); // remainder after a crash
        while (not sp->stop) {
            uint64_t c = sp->next_chunk.fetch_add(1);
            if (c * chunk >= n) { sp->next_chunk.store((n + chunk - 1) / chunk); break; }
            run_range(c * chunk, std::min(n, (c + 1) * chunk), c * chunk);
        }
        std::string d; for (auto h : wk.distinct) d.append(reinterpret_cast<const char*>(&h), 8);
        put(fd, 'D', 0, 0, "", d);
        _exit(0);
    }
    /** 0: passed, 1: failed/crashed, 2: timed out */
    int run_alone(const std::string &phase, uint64_t from, uint64_t idx, case_fn &fn, double limit) {
        (void) phase;
        fflush(stdout); fflush(stderr);
        auto *sw = map_shared<SharedWorker>(1);
        pid_t pid = fork();
        if (pid == 0) {
            Worker wk; wk.sh = sw; wk.check = this; wk.fd = -1; silence();
            struct rlimit rl { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
            for (uint64_t i = from; i <= idx; ++i) { wk.idx = i; wk.failed_ = false; fn(i, wk); }
            _exit(wk.failed_ ? 1 : 0);
        }
        double s = now(); int st, res;
        for (;;) {
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r == pid) { res = (WIFEXITED(st) and WEXITSTATUS(st) == 0) ? 0 : 1; break; }
            if (now() - s > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); res = 2; break; }
            usleep(1000);
        }
        munmap(sw, sizeof(*sw));
        return res;
    }
    static void silence() {
        if (getenv("VERIF_NOISY")) return;
        int n = open("/dev/null", O_WRONLY);
        if (n >= 0) { dup2(n, 1); dup2(n, 2); close(n); }
    }
};

inline void Worker::fail(const std::string &key, const std::string &detail) {
    if (verbose) { printf("FAIL key=%s\n%s\n", key.c_str(), detail.c_str()); fflush(stdout); }
    if (check->is_known(key)) { if (fd >= 0) Check::put(fd, 'V', idx, chunk_begin, key, detail); return; }
    failed_ = true;
    if (fd >= 0) Check::put(fd, 'V', idx, chunk_begin, key, detail);
}
inline void Worker::sample(const std::string &s) {
    if (nsamples++ >= 3) return;
    if (fd >= 0) Check::put(fd, 'S', idx, chunk_begin, "", one_line(s, 400));
}

/** Mixed-radix decoder: peels digits from a case index, simplest first. */
struct Digits {
    uint64_t v;
    explicit Digits(uint64_t v) : v(v) { }
    uint64_t next(uint64_t radix) { uint64_t d = v % radix; v /= radix; return d; }
};

}
