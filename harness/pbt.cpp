#include "pbt.hpp"
#include <sys/resource.h>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <algorithm>
#include <unordered_set>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <dirent.h>
#include <ftw.h>

namespace pbt {

std::string hex(const std::string& b) { static const char* d = "0123456789abcdef"; std::string r; for (unsigned char c : b) { r += d[c >> 4]; r += d[c & 15]; } return r; }
std::string unhex(const std::string& h) { std::string r; for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)std::stoi(h.substr(i, 2), nullptr, 16); return r; }

static std::string g_root;        // scratch root of this process, created here and removed here
static std::string g_errlog;

static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return ::remove(p); }
static void rm_tree(const std::string& d) { if (d.find("/pbt-") != std::string::npos) nftw(d.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS); }

struct Shared {
  volatile long current;     // index of the case being run
  volatile int failed;       // 1: an oracle failed
  char msg[4000];
  // one-case report
  volatile int nontrivial;
  volatile long done;
  char labels[1 << 16];
};

static std::string join(const Case& c) { std::string r; for (auto& l : c) { r += l; r += '\n'; } return r; }
static std::vector<Case> parts_of(const Case& c) {
  std::vector<Case> v(1); for (auto& l : c) { if (l == "===") v.emplace_back(); else v.back().push_back(l); } return v; }

static void set_cpu_limit(int s) {
  struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s; setitimer(ITIMER_PROF, &it, nullptr); }

static void reset_dir(const std::string& d) { rm_tree(d); mkdir(d.c_str(), 0700); }

static void quiet_child() {
  int n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1);
  int e = open(g_errlog.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0) dup2(e, 2);
  struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r);
  struct rlimit f = {256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &f);
}

struct Outcome { bool fail = false; std::string kind, msg; };

static long cpu_ms() { struct rusage u; getrusage(RUSAGE_SELF, &u); return (u.ru_utime.tv_sec + u.ru_stime.tv_sec) * 1000 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) / 1000; }

static std::string err_excerpt() {
  std::ifstream f(g_errlog); std::string l, r; int n = 0;
  while (std::getline(f, l)) {
    if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssertion") != std::string::npos ||
        l.find("terminate called") != std::string::npos || l.find("what()") != std::string::npos || (l.find("    #") != std::string::npos && l.find("/repo/") != std::string::npos)) {
      r += l.substr(0, 240) + " | "; if (++n > 8) break; } }
  return r; }

static Outcome decode(int st, Shared* sh) {
  Outcome o;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
  o.fail = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 42 && sh->failed) { o.kind = "oracle"; o.msg = sh->msg; return o; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGPROF) { o.kind = "hang"; o.msg = "did not finish within the CPU limit"; return o; }
  o.kind = "crash";
  std::ostringstream m; m << err_excerpt();
  if (WIFSIGNALED(st)) m << "killed by signal " << WTERMSIG(st) << " (" << strsignal(WTERMSIG(st)) << ") "; else m << "exit code " << WEXITSTATUS(st) << " ";
  o.msg = m.str();
  return o;
}

// Run a (possibly chained) case alone in a fresh process.
static Outcome run_isolated(const Prop& p, const Case& c, Shared* sh, int cpu = 0) {
  sh->failed = 0; sh->msg[0] = 0;
  pid_t pid = fork();
  if (pid == 0) {
    quiet_child();
    for (auto& part : parts_of(c)) {
      set_cpu_limit(cpu ? cpu : p.cpu_limit_s);
      Ctx ctx; ctx.scratch = g_root + "/case"; reset_dir(ctx.scratch);
      try { p.run(part, ctx); }
      catch (const Fail& f) { strncpy(sh->msg, f.what(), sizeof sh->msg - 1); sh->failed = 1; _exit(42); }
    }
    _exit(0);
  }
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  return decode(st, sh);
}

static Case shrink(const Prop& p, Case c, const Outcome& o0, Shared* sh, int budget, double max_s) {
  auto t0 = std::chrono::steady_clock::now();
  int cpu = o0.kind == "hang" ? 5 : 0;
  // keep to the failure at hand: same kind, and the same message up to its numbers
  auto sig = [](const Outcome& o) { std::string r; for (char ch : o.msg) { if (r.size() >= 60) break; if (!isdigit((unsigned char)ch) && ch != '-') r += ch; } return o.kind + r; };
  const std::string want = sig(o0);
  auto still = [&](const Case& x) {
    if (budget-- <= 0) return false;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > max_s) { budget = 0; return false; }
    Outcome r = run_isolated(p, x, sh, cpu); return r.fail && sig(r) == want; };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    // drop ranges of lines
    for (size_t chunk = std::max<size_t>(1, c.size() / 2); chunk >= 1 && budget > 0; chunk /= 2) {
      for (size_t i = 0; i < c.size() && budget > 0;) {
        Case x(c.begin(), c.begin() + i); x.insert(x.end(), c.begin() + std::min(c.size(), i + chunk), c.end());
        if (x.size() < c.size() && still(x)) { c = x; progress = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    // drop tokens of a line
    for (size_t i = 0; i < c.size() && budget > 0; i++) {
      auto t = split(c[i]);
      for (size_t k = 1; k < t.size() && budget > 0;) {
        auto u = t; u.erase(u.begin() + k); std::string l; for (auto& w : u) l += (l.empty() ? "" : " ") + w;
        Case x = c; x[i] = l; if (still(x)) { c = x; t = u; progress = true; } else k++;
      }
      // make numbers smaller
      for (size_t k = 1; k < t.size() && budget > 0; k++) {
        long long v; if (!to_int(t[k], v)) continue;
        for (long long w : {0LL, v / 2, v - (v > 0 ? 1 : -1)}) {
          if (std::llabs(w) >= std::llabs(v)) continue;
          auto u = t; u[k] = std::to_string(w); std::string l; for (auto& z : u) l += (l.empty() ? "" : " ") + z;
          Case x = c; x[i] = l; if (still(x)) { c = x; t = u; progress = true; break; }
        }
      }
    }
  }
  return c;
}

static std::string js(const std::string& s) {
  std::string r = "\""; char b[8];
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
  return r + "\""; }

static Case read_case(const std::string& f) { std::ifstream in(f); Case c; std::string l; while (std::getline(in, l)) if (l.empty() || l[0] != '#') c.push_back(l); return c; }

int main_driver(int argc, char** argv, const std::vector<Prop>& props) {
  std::map<std::string, std::string> a; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) { std::string s = argv[i]; if (s.rfind("--", 0) == 0 && i + 1 < argc) { a[s.substr(2)] = argv[i + 1]; i++; } else pos.push_back(s); }
  if (pos.empty()) { std::cerr << "usage: run|replay|show ...\n"; return 2; }
  if (pos[0] == "list") { for (auto& q : props) std::cout << q.id << "\n"; return 0; }
  const Prop* p = nullptr; for (auto& q : props) if (q.id == a["prop"]) p = &q;
  if (!p) { std::cerr << "unknown property\n"; return 2; }
  const char* tb = getenv("PBT_TMP"); std::string tmpl = std::string(tb ? tb : "/tmp") + "/pbt-XXXXXX"; std::vector<char> buf(tmpl.begin(), tmpl.end()); buf.push_back(0);
  if (!mkdtemp(buf.data())) { perror("mkdtemp"); return 2; }
  g_root = buf.data(); g_errlog = g_root + "/stderr";
  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  struct Cleanup { ~Cleanup() { rm_tree(g_root); } } cleanup;

  uint64_t seed = a.count("seed") ? strtoull(a["seed"].c_str(), nullptr, 10) : 1;
  uint64_t pseed = mix(seed, std::hash<std::string>()(p->id));
  long cases = a.count("cases") ? atol(a["cases"].c_str()) : 1000;
  long first = a.count("first") ? atol(a["first"].c_str()) : 0;
  long step = a.count("step") ? atol(a["step"].c_str()) : 1;
  long batch = a.count("batch") ? atol(a["batch"].c_str()) : 64;
  double max_s = a.count("max-seconds") ? atof(a["max-seconds"].c_str()) : 1e9;
  long max_fail = a.count("max-fail") ? atol(a["max-fail"].c_str()) : 1;
  auto make = [&](long idx) { Rng r(mix(pseed, (uint64_t)idx)); int size = (int)std::min<long>(100, 2 + (idx / step) * 100 / std::max<long>(1, std::min<long>(cases, 400))); if (r.chance(1, 3)) size = (int)r.range(1, 100); return p->gen(r, size); };

  if (pos[0] == "show") { std::cout << join(make(first)); return 0; }
  if (pos[0] == "replay") {
    Case c = read_case(pos.at(1)); Outcome o = run_isolated(*p, c, sh);
    if (o.fail) { std::cout << "FAIL " << o.kind << ": " << o.msg << "\n"; return 1; }
    std::cout << "PASS\n"; return 0; }
  if (pos[0] == "shrink") {
    Case c = read_case(pos.at(1)); Outcome o = run_isolated(*p, c, sh); if (!o.fail) { std::cout << "PASS\n"; return 0; }
    c = shrink(*p, c, o, sh, 4000, 120); std::cout << join(c) << "# " << run_isolated(*p, c, sh).msg << "\n"; return 1; }

  // run
  long evals = 0, skipped = 0, slow_ms = -1, slow_idx = -1; std::unordered_set<uint64_t> distinct; std::map<std::string, long> labels; std::vector<std::string> samples;
  struct Failure { Case c; Outcome o; long idx; }; std::vector<Failure> fails;
  auto t0 = std::chrono::steady_clock::now();
  auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  bool timed_out = false;
  std::string rep = g_root + "/report";
  for (long b = 0; b < cases && (long)fails.size() < max_fail; ) {
    if (elapsed() > max_s) { timed_out = true; break; }
    long hi = std::min(cases, b + batch);
    sh->failed = 0; sh->msg[0] = 0; sh->current = -1;
    unlink(rep.c_str());
    pid_t pid = fork();
    if (pid == 0) {
      quiet_child();
      FILE* rf = fopen(rep.c_str(), "w");
      for (long k = b; k < hi; k++) {
        sh->current = k;
        Case c = make(first + k * step);
        set_cpu_limit(p->cpu_limit_s); long cpu0 = cpu_ms();
        Ctx ctx; ctx.scratch = g_root + "/case"; reset_dir(ctx.scratch);
        try { p->run(c, ctx); }
        catch (const Fail& f) { strncpy(sh->msg, f.what(), sizeof sh->msg - 1); sh->failed = 1; fflush(rf); _exit(42); }
        uint64_t h = std::hash<std::string>()(join(c));
        fprintf(rf, "%d %016lx %ld", ctx.nontrivial ? 1 : 0, (unsigned long)h, cpu_ms() - cpu0);
        for (auto& l : ctx.labels) fprintf(rf, " %s", l.c_str());
        fputc('\n', rf);
        fflush(rf);
      }
      _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o = decode(st, sh);
    { std::ifstream f(rep); std::string l; long k = b;
      while (std::getline(f, l)) { auto t = split(l); if (t.size() < 3) break; evals++; if (atol(t[2].c_str()) > slow_ms) { slow_ms = atol(t[2].c_str()); slow_idx = first + k * step; }
        if (t[0] == "1") { bool fresh = distinct.insert(strtoull(t[1].c_str(), nullptr, 16)).second; if (fresh && (samples.size() < 3 || (samples.size() < 6 && k % 97 == 0))) samples.push_back(join(make(first + k * step)).substr(0, 1500)); }
        for (size_t i = 3; i < t.size(); i++) labels[t[i]]++; k++; } }
    if (!o.fail) { b = hi; continue; }
    long at = sh->current; if (at < 0) at = b;
    evals++;
    // reproduce: alone, else with the cases of its batch before it
    Case c = make(first + at * step); Outcome r = run_isolated(*p, c, sh);
    if (!r.fail) {
      Case chain; for (long k = b; k <= at; k++) { Case x = make(first + k * step); if (k > b) chain.push_back("==="); chain.insert(chain.end(), x.begin(), x.end()); }
      r = run_isolated(*p, chain, sh); c = chain; }
    if (!r.fail) { skipped++; std::cerr << "not reproduced: " << o.kind << " " << o.msg << "\n"; b = at + 1; continue; }
    Case s = shrink(*p, c, r, sh, 3000, a.count("shrink-seconds") ? atof(a["shrink-seconds"].c_str()) : 60);
    Outcome f1 = run_isolated(*p, s, sh), f2 = run_isolated(*p, s, sh), f3 = run_isolated(*p, s, sh);
    if (!(f1.fail && f2.fail && f3.fail)) { s = c; f3 = run_isolated(*p, s, sh); if (!f3.fail) { skipped++; b = at + 1; continue; } }
    fails.push_back({s, f3, first + at * step});
    b = at + 1;
  }
  std::ostringstream out;
  out << "{\"evaluations\":" << evals << ",\"not_reproduced\":" << skipped << ",\"timed_out\":" << (timed_out ? "true" : "false") << ",\"rule\":" << js(p->rule) << ",\"wall_s\":" << elapsed() << ",\"slowest_ms\":" << slow_ms << ",\"slowest_index\":" << slow_idx << ",\"hashes\":[";
  { bool f = true; for (auto h : distinct) { out << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; } }
  out << "],\"labels\":{"; { bool f = true; for (auto& l : labels) { out << (f ? "" : ",") << js(l.first) << ":" << l.second; f = false; } }
  out << "},\"samples\":["; { bool f = true; for (auto& s : samples) { out << (f ? "" : ",") << js(s); f = false; } }
  out << "],\"failures\":["; { bool f = true; for (auto& x : fails) { out << (f ? "" : ",") << "{\"case\":" << js(join(x.c)) << ",\"kind\":" << js(x.o.kind) << ",\"message\":" << js(x.o.msg) << ",\"index\":" << x.idx << "}"; f = false; } }
  out << "]}\n";
  if (a.count("out")) { std::ofstream(a["out"]) << out.str(); } else std::cout << out.str();
  return fails.empty() ? 0 : 1;
}
}
