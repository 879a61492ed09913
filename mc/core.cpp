#include "core.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>

namespace mc {

bool g_bad = false;
char g_badmsg[1024];
void bad(const char * fmt, ...) {
    if (g_bad) return;
    g_bad = true;
    va_list ap; va_start(ap, fmt);
    vsnprintf(g_badmsg, sizeof g_badmsg, fmt, ap);
    va_end(ap);
}

std::vector<Job> & jobs() { static std::vector<Job> j; return j; }
std::vector<void (*)()> & registrars() { static std::vector<void (*)()> r; return r; }

static const size_t kMaxCase = 4096;
static const int kMaxKeys = 24, kMaxSamples = 3, kSampleLen = 400;
struct Named { char key[40]; volatile uint64_t v; bool is_max; };
struct Shared {
    volatile uint64_t beat;          // cases begun
    volatile uint64_t states, transitions, execs, nontrivial;
    volatile uint64_t job;           // current job index + 1
    volatile uint64_t jobs_done;
    volatile int timed_out;
    volatile int violated;
    char msg[1024];
    volatile uint64_t ncase;
    int64_t cse[kMaxCase];
    Named named[kMaxKeys];
    char samples[kMaxSamples][kSampleLen];
    int nsamples;
};
struct Global { std::atomic<uint64_t> next_job; };

static Global * G;
static bool g_thorough = false;
bool thorough() { return g_thorough; }
double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
uint64_t hash64(uint64_t x) {
    x ^= x >> 33; x *= 0xFF51AFD7ED558CCDull; x ^= x >> 33; x *= 0xC4CEB9FE1A85EC53ull; x ^= x >> 33; return x;
}

void Ctx::begin(const int64_t * d, size_t n) {
    if (n > kMaxCase) n = kMaxCase;
    sh->ncase = n;
    memcpy(sh->cse, d, n * sizeof(int64_t));
    sh->beat = sh->beat + 1;
}
void Ctx::violation(const char * fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    sh->violated = 1;
    if (replaying) { fprintf(stderr, "replay: %s\n", sh->msg); fflush(stderr); _exit(3); }
    _exit(3);
}
void Ctx::check_bad() { if (g_bad) violation("%s", g_badmsg); }
void Ctx::add_states(uint64_t n) { sh->states = sh->states + n; }
void Ctx::add_transitions(uint64_t n) { sh->transitions = sh->transitions + n; }
void Ctx::add_execs(uint64_t n) { sh->execs = sh->execs + n; }
void Ctx::add_nontrivial(uint64_t n) { sh->nontrivial = sh->nontrivial + n; }
uint64_t Ctx::states() const { return sh->states; }
static Named * named(Shared * sh, const char * key, bool mx) {
    for (int i = 0; i < kMaxKeys; i++) {
        if (!sh->named[i].key[0]) {
            snprintf(sh->named[i].key, sizeof sh->named[i].key, "%s", key);
            sh->named[i].is_max = mx;
            return &sh->named[i];
        }
        if (!strcmp(sh->named[i].key, key)) return &sh->named[i];
    }
    return nullptr;
}
void Ctx::count(const char * key, uint64_t n) { Named * p = named(sh, key, false); if (p) p->v = p->v + n; }
void Ctx::maxof(const char * key, uint64_t v) { Named * p = named(sh, key, true); if (p && v > p->v) p->v = v; }
void Ctx::sample(const std::string & s) {
    if (sh->nsamples >= kMaxSamples) return;
    snprintf(sh->samples[sh->nsamples], kSampleLen, "%s", s.c_str());
    sh->nsamples++;
}
bool Ctx::out_of_time() {
    if (deadline > 0 && now() > deadline) { sh->timed_out = 1; return true; }
    return false;
}

static std::string json_str(const std::string & s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

static std::string slurp(const std::string & p, size_t lim) {
    FILE * f = fopen(p.c_str(), "rb"); if (!f) return "";
    std::string s(lim, 0); size_t n = fread(&s[0], 1, lim, f); fclose(f); s.resize(n); return s;
}

struct Violation { std::string job, msg, log; std::vector<int64_t> cse; };

static Shared * new_shared() {
    void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(2); }
    return new (p) Shared();
}

static void set_limits(double hang) {
    struct rlimit rl = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rl);
    (void)hang;
}

// run one case in a fresh process; returns "" if it holds, else a description
static std::string run_replay(const Job & job, const std::vector<int64_t> & cse, double hang_s, std::string & log, const std::string & tmpdir) {
    std::string lp = tmpdir + "/replay.log";
    Shared * sh = new_shared();
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(lp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
        set_limits(hang_s);
        Ctx c; c.sh = sh; c.replaying = true; c.thorough = g_thorough;
        c.begin(cse);
        bool ok = job.replay(c, cse);
        if (g_bad) { snprintf(sh->msg, sizeof sh->msg, "%s", g_badmsg); ok = false; }
        _exit(ok ? 0 : 3);
    }
    double t0 = now(); int st = 0; bool hung = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > hang_s) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
        usleep(2000);
    }
    log = slurp(lp, 20000);
    std::string msg = sh->msg;
    munmap(sh, sizeof(Shared));
    if (hung) return "operation does not return (hang)";
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return "";
    if (!msg.empty()) return msg;
    if (WIFSIGNALED(st)) return std::string("killed by signal ") + std::to_string(WTERMSIG(st));
    return "abnormal exit (sanitizer report or terminate), status " + std::to_string(WEXITSTATUS(st));
}

static int usage() { fprintf(stderr, "usage: check --tier quick|thorough --out DIR [--evidence FILE] [--jobs N] | --replay FILE | --list\n"); return 2; }

} // namespace mc

using namespace mc;

int main(int argc, char ** argv) {
    std::string out = ".", evidence, replay_file, only;
    int nw = 8; double limit = 0, hang_s = 25;
    bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--tier") g_thorough = nx() == "thorough";
        else if (a == "--out") out = nx();
        else if (a == "--evidence") evidence = nx();
        else if (a == "--jobs") nw = atoi(nx().c_str());
        else if (a == "--limit") limit = atof(nx().c_str());
        else if (a == "--hang") hang_s = atof(nx().c_str());
        else if (a == "--replay") replay_file = nx();
        else if (a == "--only") only = nx();
        else if (a == "--list") list = true;
        else return usage();
    }
    if (!replay_file.empty()) {
        // tier is part of the replay file because it selects the jobs
        std::string s = slurp(replay_file, 1 << 20);
        g_thorough = s.find("tier=thorough") != std::string::npos;
    }
    for (auto f : registrars()) f();
    auto & J = jobs();
    std::sort(J.begin(), J.end(), [](const Job & a, const Job & b) { return a.name < b.name; });
    if (list) { for (auto & j : J) printf("%s\n", j.name.c_str()); return 0; }
    char tmpl[] = "/tmp/mcXXXXXX";
    std::string tmpdir = mkdtemp(tmpl);

    if (!replay_file.empty()) {
        FILE * f = fopen(replay_file.c_str(), "r"); if (!f) return 2;
        char line[1 << 16]; std::string jobname; std::vector<int64_t> cse;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "job=", 4)) { jobname = line + 4; while (!jobname.empty() && jobname.back() == '\n') jobname.pop_back(); }
            if (!strncmp(line, "case=", 5)) { char * p = line + 5; char * e; for (;;) { long long v = strtoll(p, &e, 10); if (e == p) break; cse.push_back(v); p = e; } }
        }
        fclose(f);
        int rc = 2;
        for (auto & j : J) if (j.name == jobname) {
            std::string log, r = run_replay(j, cse, hang_s, log, tmpdir);
            if (r.empty()) { printf("replay: property held\n"); rc = 0; }
            else { printf("replay: %s\n%s", r.c_str(), log.c_str()); rc = 1; }
        }
        unlink((tmpdir + "/replay.log").c_str()); rmdir(tmpdir.c_str());
        return rc;
    }
    if (!only.empty()) {
        std::vector<Job> k; for (auto & j : J) if (j.name.find(only) != std::string::npos) k.push_back(j); J = k;
    }
    std::stable_sort(J.begin(), J.end(), [](const Job & a, const Job & b) { return a.weight > b.weight; });

    G = new (mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)) Global();
    G->next_job = 0;
    double t0 = now();
    std::vector<Shared *> shs; std::vector<pid_t> pids; std::vector<uint64_t> beats; std::vector<double> beat_t;
    std::vector<Violation> viol;
    for (int w = 0; w < nw; w++) shs.push_back(new_shared());
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < nw; w++) {
        pid_t pid = fork();
        if (pid == 0) {
            std::string lp = tmpdir + "/w" + std::to_string(w) + ".log";
            int fd = open(lp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
            set_limits(hang_s);
            Ctx c; c.sh = shs[w]; c.thorough = g_thorough; c.deadline = limit > 0 ? t0 + limit : 0;
            for (;;) {
                uint64_t k = G->next_job.fetch_add(1);
                if (k >= J.size()) break;
                c.sh->job = k + 1;
                int64_t z = 0; c.begin(&z, 0);
                double j0 = now();
                J[k].run(c);
                if (getenv("MC_TIMES")) { fprintf(stdout, "%8.2f %s\n", now() - j0, J[k].name.c_str()); fflush(stdout); }
                if (g_bad) c.violation("%s", g_badmsg);
                c.sh->jobs_done = c.sh->jobs_done + 1;
            }
            c.sh->job = 0;
            _exit(0);
        }
        pids.push_back(pid); beats.push_back(0); beat_t.push_back(now());
    }
    int alive = nw; bool stop = false;
    std::vector<bool> done(nw, false);
    int infra = 0;
    while (alive > 0) {
        usleep(20000);
        for (int w = 0; w < nw; w++) {
            if (done[w]) continue;
            int st = 0; pid_t r = waitpid(pids[w], &st, WNOHANG);
            bool hung = false;
            if (r == 0) {
                uint64_t b = shs[w]->beat;
                if (b != beats[w]) { beats[w] = b; beat_t[w] = now(); }
                else if (shs[w]->job && now() - beat_t[w] > hang_s) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); hung = true; }
                if (!hung) continue;
            }
            done[w] = true; alive--;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (stop) continue;
            Violation v;
            v.job = shs[w]->job ? J[shs[w]->job - 1].name : "?";
            v.cse.assign(shs[w]->cse, shs[w]->cse + shs[w]->ncase);
            v.msg = shs[w]->violated ? shs[w]->msg : hung ? "operation does not return (hang)" :
                    WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "sanitizer report or abnormal termination";
            v.log = slurp(tmpdir + "/w" + std::to_string(w) + ".log", 12000);
            viol.push_back(v);
            stop = true;
            for (int x = 0; x < nw; x++) if (!done[x]) kill(pids[x], SIGKILL);
        }
    }
    double wall = now() - t0;
    int confirmed = 0;
    for (auto & v : viol) {
        const Job * j = nullptr; for (auto & q : J) if (q.name == v.job) j = &q;
        std::string log, r;
        if (j && j->replay) r = run_replay(*j, v.cse, hang_s * 2, log, tmpdir);
        if (r.empty()) {
            // not reproduced: the machinery, not the code, is at fault
            fprintf(stderr, "UNCONFIRMED %s: %s (case not reproduced)\n%s\n", v.job.c_str(), v.msg.c_str(), v.log.c_str());
            infra = 1; continue;
        }
        confirmed++;
        std::string file = out + "/" + check_info.property + "." + std::to_string(confirmed) + ".replay";
        FILE * f = fopen(file.c_str(), "w");
        if (f) {
            fprintf(f, "property=%s\ntier=%s\njob=%s\ncase=", check_info.property, g_thorough ? "thorough" : "quick", v.job.c_str());
            for (auto x : v.cse) fprintf(f, "%lld ", (long long)x);
            fprintf(f, "\nreason=%s\n", r.c_str());
            if (j->show) fprintf(f, "shown=%s\n", j->show(v.cse).c_str());
            fprintf(f, "log:\n%s\n", log.c_str());
            fclose(f);
        }
        printf("violated: job=%s reason=%s\n", v.job.c_str(), r.c_str());
        if (j->show) printf("  case: %s\n", j->show(v.cse).c_str());
        size_t p = log.find("ERROR: AddressSanitizer");
        if (p != std::string::npos) printf("  %s\n", log.substr(p, 200).c_str());
        printf("VIOLATION property=%s replay=%s\n", check_info.property, file.c_str());
    }
    uint64_t states = 0, trans = 0, execs = 0, nontriv = 0, jd = 0; bool timed = false;
    std::map<std::string, std::pair<uint64_t, bool>> nm; std::vector<std::string> samples;
    for (auto s : shs) {
        states += s->states; trans += s->transitions; execs += s->execs; nontriv += s->nontrivial; jd += s->jobs_done;
        timed |= s->timed_out != 0;
        for (auto & n : s->named) if (n.key[0]) { auto & e = nm[n.key]; e.second = n.is_max; if (n.is_max) e.first = std::max(e.first, (uint64_t)n.v); else e.first += n.v; }
        for (int i = 0; i < s->nsamples && samples.size() < 6; i++) samples.push_back(s->samples[i]);
    }
    if (!evidence.empty()) {
        FILE * f = fopen(evidence.c_str(), "w");
        if (f) {
            const char * seed = getenv("VERIF_SEED");
            fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"%s\",\n \"coverage\": {\n", check_info.property,
                    g_thorough ? "thorough" : "quick", seed ? atoi(seed) : 1, check_info.level);
            bool mcl = !strcmp(check_info.level, "model_checking");
            if (mcl) fprintf(f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n",
                             (unsigned long long)states, (unsigned long long)trans, (unsigned long long)execs);
            else {
                fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n", (unsigned long long)execs, (unsigned long long)nontriv);
                if (states) fprintf(f, "  \"states\": %llu,\n", (unsigned long long)states);
            }
            fprintf(f, "  \"rule\": %s,\n  \"jobs_total\": %zu,\n  \"jobs_completed\": %llu,\n", json_str(check_info.rule).c_str(), J.size(), (unsigned long long)jd);
            for (auto & e : nm) fprintf(f, "  %s: %llu,\n", json_str(e.first).c_str(), (unsigned long long)e.second.first);
            fprintf(f, "  \"exhaustive\": %s,\n  \"samples\": [", (!timed && jd == J.size()) ? "true" : "false");
            for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(samples[i]).c_str());
            fprintf(f, "]\n },\n \"assumptions\": [");
            for (size_t i = 0; i < check_info.assumptions.size(); i++) fprintf(f, "%s%s", i ? ", " : "", json_str(check_info.assumptions[i]).c_str());
            fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, confirmed);
            fclose(f);
        }
    }
    printf("%s: %zu jobs, %llu completed, states=%llu transitions=%llu executions=%llu nontrivial=%llu%s wall=%.1fs\n", check_info.property, J.size(),
           (unsigned long long)jd, (unsigned long long)states, (unsigned long long)trans, (unsigned long long)execs, (unsigned long long)nontriv,
           timed ? " TIMED-OUT" : "", wall);
    if (getenv("MC_TIMES")) for (int w = 0; w < nw; w++) printf("%s", slurp(tmpdir + "/w" + std::to_string(w) + ".log", 1 << 20).c_str());
    for (int w = 0; w < nw; w++) unlink((tmpdir + "/w" + std::to_string(w) + ".log").c_str());
    unlink((tmpdir + "/replay.log").c_str()); rmdir(tmpdir.c_str());
    if (confirmed) return 1;
    return infra ? 2 : 0;
}
