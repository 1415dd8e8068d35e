// Engine driver: random search, replay, shrink, known findings, libFuzzer entry.
#include "pbt.hpp"
#include <glog/logging.h>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <unordered_set>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace pbt;

static const int kCaseCpuSeconds = 20;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::string gScratch;
std::string pbt::scratchDir() {
  if (gScratch.empty()) {
    const char* base = getenv("PBT_SCRATCH");
    std::string t = std::string(base ? base : "/tmp") + "/pbt-XXXXXX";
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    if (!mkdtemp(b.data())) { perror("mkdtemp"); _exit(9); }
    gScratch = b.data();
  }
  return gScratch;
}
static void removeScratch() {
  if (gScratch.empty()) return;
  if (DIR* d = opendir(gScratch.c_str())) {
    while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((gScratch + "/" + n).c_str()); }
    closedir(d);
  }
  rmdir(gScratch.c_str());
}

bool Case::dies(const std::function<void()>& f) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    signal(SIGABRT, SIG_DFL);
    try { f(); } catch (...) { _exit(77); }
    _exit(0);
  }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static void quiet() {
  FLAGS_minloglevel = 3; FLAGS_logtostderr = true;
  std::cout.rdbuf(nullptr); std::cerr.rdbuf(nullptr);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
}
static void armTimer(int seconds = kCaseCpuSeconds) {
  struct itimerval tv = {{0, 0}, {seconds, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
}
void Case::cpuBudget(int seconds) { armTimer(seconds); }
static void onTimer(int) { static const char m[] = "FAILURE: case exceeded its CPU budget (hang)\n"; if (write(2, m, sizeof m - 1)) {} _exit(5); }

static std::string runOne(Case& c) {       // "" = held, else message
  armTimer();
  try { property(c); } catch (const Failure& f) { return f.msg.empty() ? "failed" : f.msg; }
  catch (const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }
  return "";
}

static uint64_t hashRec(const Record* r) {
  uint64_t h = 1469598103934665603ull;
  for (uint64_t i = 0; i < r->count; ++i) { h ^= r->v[i] + 0x9E37; h *= 1099511628211ull; h ^= h >> 29; }
  return h;
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

static std::vector<uint64_t> readCase(const char* path) {
  std::ifstream f(path); std::vector<uint64_t> v; std::string line;
  while (std::getline(f, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream ss(line); uint64_t x; while (ss >> x) v.push_back(x);
  }
  return v;
}
static void writeCase(const std::string& path, const uint64_t* v, size_t n, const std::string& msg, const std::string& log) {
  std::ofstream f(path);
  std::istringstream ms(msg + "\n" + log); std::string l;
  while (std::getline(ms, l)) f << "# " << l << "\n";
  for (size_t i = 0; i < n; ++i) f << v[i] << (i % 24 == 23 || i + 1 == n ? "\n" : " ");
}

#ifdef PBT_FUZZ
// libFuzzer entry ------------------------------------------------------------
static Record* gRec;
static uint64_t gRuns = 0, gNon = 0; static std::unordered_set<uint64_t> gSeen; static std::string gLastSample;
static void fuzzStats() {
  if (const char* p = getenv("PBT_FUZZ_STATS")) {
    std::ofstream f(p);
    f << "{\"evaluations\":" << gRuns << ",\"nontrivial\":" << gNon << ",\"distinct_nontrivial\":" << gSeen.size() << "}";
  }
}
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  quiet(); gRec = (Record*)calloc(1, sizeof(Record)); atexit(fuzzStats); return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  Case c(gRec); c.startBytes(d, n);
  std::string m;
  try { property(c); } catch (const Failure& f) { m = f.msg.empty() ? "failed" : f.msg; }
  catch (const std::exception& e) { m = std::string("unexpected exception: ") + e.what(); }
  ++gRuns;
  if (c.nontrivial_) { ++gNon; if (gSeen.size() < 4000000) gSeen.insert(hashRec(gRec)); }
  if ((gRuns & 0xfff) == 0) fuzzStats();
  if (!m.empty()) {
    if (const char* p = getenv("PBT_FUZZ_FAIL")) writeCase(std::string(p) + "." + std::to_string(getpid()), gRec->v, gRec->count, m, "");
    fprintf(stderr, "FAILURE: %s\n", m.c_str());
    fuzzStats();
    abort();
  }
  return 0;
}
// Convert a saved libFuzzer input to a choice file: handled by the same binary
// through PBT_FUZZ_FAIL (soft failures); crashes are replayed with the random
// binary's "bytes" mode.
#else

static Record* mapRecord(const char* path) {
  int fd = path ? open(path, O_RDWR | O_CREAT | O_TRUNC, 0644) : -1;
  void* p;
  if (fd >= 0) {
    if (ftruncate(fd, sizeof(Record))) { perror("ftruncate"); exit(9); }
    p = mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  } else {
    p = mmap(nullptr, sizeof(Record), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  }
  if (p == MAP_FAILED) { perror("mmap"); exit(9); }
  return (Record*)p;
}

// exit codes: 0 held, 3 property failed, 5 hang, others = crash
static int runRandom(uint64_t seed, uint64_t cases, double seconds, const char* recPath, const char* statsPath, const char* failPath) {
  Record* rec = mapRecord(recPath);
  Case c(rec);
  std::unordered_set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::string> samples;
  uint64_t n = 0, nt = 0; double t0 = now(); bool capped = false;
  int rc = 0;
  for (; n < cases; ++n) {
    if ((n & 15) == 0 && now() - t0 > seconds) { capped = true; break; }
    c.verbose_ = samples.size() < 3;
    c.startRandom(seed * 0x2545F4914F6CDD1Dull + n * 0xD1342543DE82EF95ull + 0x1234567);
    std::string m = runOne(c);
    if (!m.empty()) {
      writeCase(failPath, rec->v, rec->count, m, "");
      fprintf(stderr, "FAILURE: %s\n", m.c_str()); rc = 3; ++n; break;
    }
    for (auto& l : c.labels_) ++labels[l.first];
    if (c.nontrivial_) {
      ++nt; if (seen.size() < 400000) seen.insert(hashRec(rec));   // a lower bound beyond that
      if (samples.size() < 3) samples.push_back(c.log_);
    }
  }
  std::ofstream f(statsPath);
  f << "{\"evaluations\":" << n << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << seen.size()
    << ",\"capped\":" << (capped ? "true" : "false") << ",\"seconds\":" << now() - t0 << ",\"labels\":{";
  bool first = true;
  for (auto& l : labels) { f << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
  f << "},\"samples\":["; first = true;
  for (auto& s : samples) { f << (first ? "" : ",") << jstr(s.substr(0, 1500)); first = false; }
  f << "],\"rule\":" << jstr(kRule) << "}";
  f.close();
  std::ofstream h(std::string(statsPath) + ".hashes", std::ios::binary);
  for (uint64_t x : seen) h.write((const char*)&x, 8);
  return rc;
}

static int replay(const char* path, bool bytes) {
  Record* rec = mapRecord(nullptr);
  Case c(rec); c.verbose_ = true;
  std::string raw;
  if (bytes) { std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); raw = ss.str(); c.startBytes((const uint8_t*)raw.data(), raw.size()); }
  else c.startReplay(readCase(path));
  std::string m = runOne(c);
  printf("%s", c.log_.c_str());
  if (!m.empty()) { printf("FAILURE: %s\n", m.c_str()); return 3; }
  printf("held%s\n", c.nontrivial_ ? " (non-trivial)" : "");
  return 0;
}

struct Shrinker {
  Record* rec; double deadline; uint64_t tries = 0; bool bytes = false;
  // Runs the candidate in a child; on failure, `v` becomes the choices really consumed.
  bool fails(std::vector<uint64_t>& v, std::string* msg = nullptr) {
    ++tries;
    int pfd[2]; if (pipe(pfd)) exit(9);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      close(pfd[0]); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
      dup2(msg ? pfd[1] : fd, 2);
      gScratch.clear();
      Case c(rec); c.startReplay(v);
      std::string m = runOne(c);
      if (msg && !m.empty()) fprintf(stderr, "%s\n", m.c_str());
      fflush(nullptr); removeScratch();
      _exit(m.empty() ? 0 : 3);
    }
    close(pfd[1]);
    std::string out; char b[4096]; ssize_t k;
    while ((k = read(pfd[0], b, sizeof b)) > 0) if (out.size() < 6000) out.append(b, k);
    close(pfd[0]);
    int st = 0; waitpid(p, &st, 0);
    bool bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    if (bad) {
      if (msg) *msg = out;
      if (rec->count < Record::kMax && rec->count <= v.size()) v.assign(rec->v, rec->v + rec->count);
      while (!v.empty() && v.back() == 0) v.pop_back();
    }
    return bad;
  }
  bool time() const { return now() < deadline; }
  static bool simpler(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  }
  bool tryIt(std::vector<uint64_t>& best, std::vector<uint64_t> cand) {
    while (!cand.empty() && cand.back() == 0) cand.pop_back();
    if (!simpler(cand, best)) return false;
    if (fails(cand) && simpler(cand, best)) { best = cand; return true; }
    return false;
  }
  void shrink(std::vector<uint64_t>& best) {
    bool progress = true;
    while (progress && time()) {
      progress = false;
      for (size_t blk : {64, 16, 8, 4, 3, 2, 1}) {
        for (size_t i = best.size(); i-- > 0 && time();) {
          if (i + blk > best.size()) continue;
          auto cand = best; cand.erase(cand.begin() + i, cand.begin() + i + blk);
          if (tryIt(best, cand)) { progress = true; }
        }
      }
      for (size_t blk : {16, 4, 1}) {
        for (size_t i = 0; i < best.size() && time(); i += blk) {
          auto cand = best; bool any = false;
          for (size_t j = i; j < std::min(best.size(), i + blk); ++j) { any |= cand[j] != 0; cand[j] = 0; }
          if (any && tryIt(best, cand)) progress = true;
        }
      }
      for (size_t i = 0; i < best.size() && time(); ++i) {
        uint64_t lo = 0;
        while (i < best.size() && best[i] > lo && time()) {   // binary search downwards
          auto cand = best; cand[i] = lo + (best[i] - lo) / 2;
          size_t before = best.size();
          if (tryIt(best, cand)) { progress = true; if (best.size() != before) break; }
          else lo = cand[i] + 1;
        }
        if (i < best.size() && best[i] > 0) { auto cand = best; cand[i]--; if (tryIt(best, cand)) progress = true; }
      }
      for (size_t i = 0; i + 1 < best.size() && time(); ++i) {  // lower a length while deleting an element
        if (best[i] == 0) continue;
        for (size_t d : {1, 2, 3, 4}) for (size_t j = i + 1; j + d <= best.size() && j < i + 24 && time(); ++j) {
          auto cand = best; if (cand[i] == 0) break; cand[i]--; cand.erase(cand.begin() + j, cand.begin() + j + d);
          if (tryIt(best, cand)) progress = true;
        }
      }
    }
  }
};

static int shrinkMain(const char* in, const char* out, double seconds, bool bytes) {
  Shrinker s; s.rec = mapRecord(nullptr); s.deadline = now() + seconds;
  std::vector<uint64_t> best;
  if (bytes) {   // libFuzzer input: learn its choices from a child that records them
    std::ifstream f(in, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string raw = ss.str();
    pid_t p = fork();
    if (p == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); Case c(s.rec); c.startBytes((const uint8_t*)raw.data(), raw.size()); runOne(c); _exit(0); }
    int st; waitpid(p, &st, 0); best.assign(s.rec->v, s.rec->v + s.rec->count);
  } else best = readCase(in);
  std::vector<uint64_t> v = best; std::string msg;
  if (!s.fails(v, &msg)) { fprintf(stderr, "shrink: case does not fail\n"); return 0; }
  if (v.size() <= best.size()) best = v;
  s.shrink(best);
  v = best; s.fails(v, &msg);
  // rendered description (a crash still leaves the message)
  std::string log; {
    int pfd[2]; if (pipe(pfd)) return 9; pid_t p = fork();
    if (p == 0) { close(pfd[0]); int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); gScratch.clear();
      // a crash must not lose the log: note() output is flushed by a signal-safe-enough dump
      static Case* gc; Case c(s.rec); gc = &c; c.verbose_ = true; c.startReplay(best); static int wfd; wfd = pfd[1];
      auto dump = [](int) { if (write(wfd, gc->log_.data(), gc->log_.size())) {} _exit(1); };
      signal(SIGABRT, dump); signal(SIGSEGV, dump); signal(SIGFPE, dump); signal(SIGBUS, dump);
      runOne(c); if (write(pfd[1], c.log_.data(), c.log_.size())) {} removeScratch(); _exit(0); }
    close(pfd[1]); char b[4096]; ssize_t k; while ((k = read(pfd[0], b, sizeof b)) > 0) log.append(b, k); close(pfd[0]); int st; waitpid(p, &st, 0);
  }
  writeCase(out, best.data(), best.size(), msg.substr(0, 4000), log);
  fprintf(stderr, "shrunk to %zu choices in %llu tries\n", best.size(), (unsigned long long)s.tries);
  return 3;
}

int main(int argc, char** argv) {
  quiet();
  signal(SIGPROF, onTimer);
  if (argc < 2) return 9;
  std::string mode = argv[1];
  int rc = 9;
  if (mode == "run" && argc >= 8)
    rc = runRandom(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), atof(argv[4]), argv[5], argv[6], argv[7]);
  else if (mode == "replay" && argc >= 3) rc = replay(argv[2], false);
  else if (mode == "bytes" && argc >= 3) rc = replay(argv[2], true);
  else if (mode == "shrink" && argc >= 5) rc = shrinkMain(argv[2], argv[3], atof(argv[4]), argc > 5);
  else if (mode == "known") {
    for (auto& k : knowns()) {   // each in a child: a finding may crash
      fflush(nullptr); pid_t p = fork();
      if (p == 0) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); gScratch.clear(); bool b = true; try { b = k.run(); } catch (...) {} removeScratch(); _exit(b ? 1 : 0); }
      int st; waitpid(p, &st, 0);
      printf("%s %s\n", k.name, WIFEXITED(st) && WEXITSTATUS(st) == 0 ? "gone" : "present");
    }
    rc = 0;
  }
  removeScratch();
  return rc;
}
#endif
