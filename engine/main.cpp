#include "interp.h"
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <dirent.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <algorithm>
double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static u64 hstr(const char *s) { u64 h = 1469598103934665603ull; for (; *s; s++) { h ^= (u8)*s; h *= 1099511628211ull; } return h | 1; }
static void append(const std::string &file, const std::string &line) { int fd = open((opt.out + "/" + file).c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) return; if (write(fd, line.c_str(), line.size())) {} close(fd); }
static void warm_add(const std::string &n) {
  u32 i = SH->nwarm++, o; if (i >= 16384) return; o = SH->warm_off.fetch_add(n.size() + 1); if (o + n.size() + 1 > sizeof SH->warm_buf) return;
  memcpy(SH->warm_buf + o, n.c_str(), n.size() + 1); SH->warm_at[i] = o; SH->warm_ok[i].store(1);
}
void warm_all() {
  static u32 seen = 0; u32 n = std::min<u32>(SH->nwarm.load(), 16384);
  for (; seen < n && SH->warm_ok[seen].load(); seen++) { FuncRef *f = prog_func(SH->warm_buf + SH->warm_at[seen]); if (!f->code && prog_has_body(f)) prog_code(f); }
}
void note_function(const std::string &n) {
  u64 h = hstr(n.c_str()); for (u64 i = h % FH, k = 0; k < FH; i = (i + 1) % FH, k++) { u64 z = 0; u64 cur = SH->fh[i].load(); if (cur == h) return; if (cur == 0) { if (SH->fh[i].compare_exchange_strong(z, h)) { SH->nfuncs++; warm_add(n); append("functions.txt", n + "\n"); return; } if (z == h) return; } }
}
u64 note_violation(const std::string &key) { u64 h = hstr(key.c_str()); for (int i = h % 1024, k = 0; k < 1024; i = (i + 1) % 1024, k++) { u64 cur = SH->vm[i].hash.load(); if (cur == 0) { u64 z = 0; if (SH->vm[i].hash.compare_exchange_strong(z, h)) cur = h; else cur = z; } if (cur == h) return SH->vm[i].count++; } return 0; }
void note_reach(const char *label) {
  IP->labels.push_back(label);
  u64 h = hstr((std::string(SH->e[g_entry].name) + "/" + label).c_str());
  for (int i = h % MAXR, k = 0; k < MAXR; i = (i + 1) % MAXR, k++) { u64 cur = SH->r[i].hash.load(); if (cur == h) { SH->r[i].count++; return; } if (cur == 0) { u64 z = 0; if (SH->r[i].hash.compare_exchange_strong(z, h)) { snprintf(SH->r[i].name, 88, "%s", label); SH->r[i].entry = g_entry; SH->r[i].count++; IP->wit = true; return; } if (z == h) { SH->r[i].count++; return; } } }
}
static void on_segv(int sig, siginfo_t *si, void *) {
  g_guest = 0; static int again = 0; if (again++) _exit(9);
  if (IP && !IP->fr.empty()) { char b[128]; snprintf(b, 128, "signal %d at address %p", sig, si->si_addr); IP->violation("signal", b); }
  fprintf(stderr, "engine crashed: signal %d\n", sig); _exit(9);
}
static u64 base_of(void *h) { struct link_map *lm; dlinfo(h, RTLD_DI_LINKMAP, &lm); return lm->l_addr; }
static void worker(std::vector<std::string> entries) {
  double t0 = now_s();
  solver_init(); g_query_timeout = opt.qtimeout; mem_init(); register_intercepts();
  IP = new Interp;
  static char altstk[1 << 16]; stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  IP->rbase = (Val *)mmap(nullptr, sizeof(Val) * (64ull << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); IP->rtop = IP->rbase; IP->sp = ARENA + 4096;
  g_guest = 1; void *lib = dlopen(opt.lib.c_str(), RTLD_NOW | RTLD_GLOBAL); g_guest = 0;
  if (!lib) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
  g_guest = 1; void *har = dlopen(opt.harness.c_str(), RTLD_NOW | RTLD_GLOBAL); g_guest = 0;
  if (!har) { fprintf(stderr, "dlopen: %s\n", dlerror()); _exit(3); }
  prog_add_index(opt.hidx, opt.hbc);
  std::ifstream f(opt.libdir + "/modules.txt"); std::string a, b; while (f >> a >> b) prog_add_index(a, b);
  prog_load_elf(opt.harness.c_str(), base_of(har)); prog_load_elf(opt.lib.c_str(), base_of(lib));
  double t1 = now_s();
  if (void (*setup)() = (void (*)())dlsym(har, "sym_setup")) { g_guest = 1; try { setup(); } catch (const std::exception &e) { g_guest = 0; fprintf(stderr, "sym_setup threw: %s\n", e.what()); _exit(3); } g_guest = 0; }
  g_reuse = false;
  if (opt.verbose) fprintf(stderr, "[symrun] load %.2fs setup %.2fs heap %.1fMB allocs %llu\n", t1 - t0, now_s() - t1, (g_heap_ptr - ARENA - STK_SIZE) / 1e6, (unsigned long long)g_heap_allocs);
  if (!opt.replay.empty()) {
    IP->replaying = true; std::ifstream r(opt.replay); std::string n, v; std::string line;
    while (std::getline(r, line)) { size_t t = line.rfind('\t'); if (t == std::string::npos) continue; n = line.substr(0, t); v = line.substr(t + 1); u128 x = 0; for (char c : v.substr(2)) x = x * 16 + (c <= '9' ? c - '0' : c - 'a' + 10); IP->rin.push_back({n, x}); }
  }
  for (size_t i = 0; i < entries.size(); i++) {
    SH->started++;
    bool last = false;
    // at most `jobs` concurrently running paths
    while (true) { int t = SH->tokens.load(); bool got = false; while (t > 0) if (SH->tokens.compare_exchange_weak(t, t - 1)) { got = true; break; } if (got) break; usleep(2000); if (SH->stop.load()) break; }
    pid_t p = fork();
    if (p == 0) {
      extern void set_have_token(); g_entry = i; set_have_token();
      FuncRef *fn = prog_func("sym_main_" + entries[i]); if (!fn->addr || !prog_has_body(fn)) { fprintf(stderr, "no entry sym_main_%s\n", entries[i].c_str()); _exit(3); }
      IP->push(fn, nullptr, nullptr, 0); IP->run(); IP->finish(0);
    }
    (void)last;
  }
  _exit(0);
}
static std::vector<std::string> split(const std::string &s) { std::vector<std::string> r; std::stringstream ss(s); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) r.push_back(t); return r; }
int main(int argc, char **argv) {
  if (!getenv("SYMRUN_EXEC")) {
    setenv("SYMRUN_EXEC", "1", 1); setenv("GLIBC_TUNABLES", "glibc.malloc.hugetlb=1:glibc.malloc.trim_threshold=1000000000:glibc.malloc.top_pad=16000000", 1); struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); rl.rlim_cur = 1ull << 30; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_cur > rl.rlim_max) rl.rlim_cur = rl.rlim_max; setrlimit(RLIMIT_STACK, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    personality(ADDR_NO_RANDOMIZE); execv("/proc/self/exe", argv);
  }
  for (int i = 1; i < argc; i++) {
    std::string k = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (k == "--lib") opt.lib = nx(); else if (k == "--libdir") opt.libdir = nx(); else if (k == "--harness") opt.harness = nx(); else if (k == "--hbc") opt.hbc = nx(); else if (k == "--hidx") opt.hidx = nx(); else if (k == "--out") opt.out = nx(); else if (k == "--entries") opt.entries = nx(); else if (k == "--replay") opt.replay = nx();
    else if (k == "--jobs") opt.jobs = atoi(nx().c_str()); else if (k == "--deadline") opt.deadline = atof(nx().c_str()); else if (k == "--qtimeout") opt.qtimeout = atof(nx().c_str()); else if (k == "--maxpaths") opt.maxpaths = atoll(nx().c_str()); else if (k == "--maxsteps") opt.maxsteps = atoll(nx().c_str()); else if (k == "--tier") opt.tier = atoi(nx().c_str()); else if (k == "-v") opt.verbose = true;
    else { fprintf(stderr, "bad option %s\n", k.c_str()); return 3; }
  }
  SH = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto entries = split(opt.entries); SH->tokens = opt.jobs;
  for (size_t i = 0; i < entries.size() && i < MAXE; i++) snprintf(SH->e[i].name, 96, "%s", entries[i].c_str());
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  double t0 = now_s(); setpgid(0, 0);
  pid_t w = fork(); if (w == 0) worker(entries);
  int rc = 0, bad = 0; bool killed = false;
  for (;;) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p < 0) break;
    if (p == 0) { double el = now_s() - t0; if (el > opt.deadline && !SH->stop) SH->stop = 1; if (el > opt.deadline + 15) { signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); killed = true; usleep(200000); } usleep(el < 2 ? 2000 : 10000); continue; }
    if (WIFSIGNALED(st)) { bad++; if (!killed) fprintf(stderr, "path process died: signal %d\n", WTERMSIG(st)); } else if (WEXITSTATUS(st)) { bad++; if (p == w) rc = 3; }
  }
  long lost = SH->started - SH->finished;
  std::ofstream o(opt.out + "/result.json");
  o << "{\"wall\":" << now_s() - t0 << ",\"stop\":" << SH->stop << ",\"lost\":" << lost << ",\"bad\":" << bad << ",\"fast\":" << SH->fastq << ",\"queries\":" << SH->queries << ",\"sat\":" << SH->sat << ",\"unsat\":" << SH->unsat << ",\"unknown\":" << SH->unk << ",\"fp_queries\":" << SH->fpq << ",\"cache_hits\":" << SH->qcache << ",\"solver_s\":" << SH->solver_ns / 1e9 << ",\"functions\":" << SH->nfuncs << ",\"processes\":" << SH->started << ",\"entries\":[";
  for (size_t i = 0; i < entries.size(); i++) { EntryStats &e = SH->e[i]; if (i) o << ","; o << "{\"name\":\"" << e.name << "\",\"paths\":" << e.paths << ",\"assumed_out\":" << e.assumed_out << ",\"violations\":" << e.viol << ",\"incomplete\":" << e.incomplete << ",\"asserts\":" << e.asserts << ",\"asserts_sym\":" << e.asserts_sym << ",\"branches\":" << e.branches << ",\"forks\":" << e.forks << ",\"steps\":" << e.steps << ",\"maxsteps\":" << e.maxsteps << ",\"reach\":{"; bool first = true; for (int k = 0; k < MAXR; k++) if (SH->r[k].hash && SH->r[k].entry == (int)i) { if (!first) o << ","; first = false; o << "\"" << SH->r[k].name << "\":" << SH->r[k].count; } o << "}}"; }
  o << "]}\n"; o.close();
  return rc;
}
