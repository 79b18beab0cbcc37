// Supervisor: every simulated run is one forked process driven by one seed.
#include "core.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <chrono>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/socket.h>
#include <unistd.h>
#include <fcntl.h>

using namespace sim;
namespace sim { extern const char* onlyCase; const char* onlyCase = nullptr; int tierThorough = 0; }

namespace {
std::string prop, outFile, replayOut, replayIn;
uint64_t seed = 1;
double timeBudget = 20;
long maxRuns = 1000000000;
int jobs = 8;
bool envPairs = false;
std::vector<std::string> known;   // "kind-substring|case-substring"

double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
struct Outcome { int status; std::string kind, msg, casename; uint64_t hash; std::vector<uint32_t> choices; };

// Runs are forked from a "zygote": a process of its own with a fixed environment
// that has done nothing but wait, so that every run, whichever process asks for
// it, starts from the same memory. Asked and answered through shared memory.
struct Request {
  int useSeed, loud, catchOutput, thorough, nChoices, status;
  uint64_t seed, hseed;
  char prop[64], onlyCase[128];
  uint32_t choice[MAXCHOICES];
};
struct Channel { Record rec; Request req; };
struct Zygote { Channel* ch; int sock, errfd; };
std::map<Record*, Zygote> zygotes;
constexpr int Z_SOCK = 3, Z_MEM = 4, Z_ERR = 5;

Record* newRecord() {
  int mem = memfd_create("simrec", MFD_CLOEXEC), err = memfd_create("simerr", MFD_CLOEXEC), s[2];
  if (mem < 0 || err < 0 || ftruncate(mem, sizeof(Channel)) || socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, s)) { perror("zygote"); exit(2); }
  auto* ch = (Channel*)mmap(nullptr, sizeof(Channel), PROT_READ | PROT_WRITE, MAP_SHARED, mem, 0);
  if (ch == MAP_FAILED) { perror("mmap"); exit(2); }
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    int from[3] = {fcntl(s[1], F_DUPFD, 20), fcntl(mem, F_DUPFD, 20), fcntl(err, F_DUPFD, 20)};
    for (int i = 0; i < 3; ++i) dup2(from[i], Z_SOCK + i);
    for (int i = 0; i < 3; ++i) close(from[i]);
    const char* asan = getenv("ASAN_OPTIONS");
    std::string o = std::string("ASAN_OPTIONS=") + (asan ? asan : "");
    char* argv[] = {(char*)"sim-zygote", nullptr};
    char* env[] = {(char*)"SIM_NOASLR=1", (char*)o.c_str(), nullptr};
    execve("/proc/self/exe", argv, env);
    perror("execve"); _exit(2);
  }
  close(s[1]); close(mem);
  zygotes[&ch->rec] = {ch, s[0], err};
  return &ch->rec;
}
void resetRecord(Record* r) { memset(r, 0, offsetof(Record, choice)); memset(((char*)r) + offsetof(Record, eventHash), 0, offsetof(Record, cover) - offsetof(Record, eventHash)); memset(r->probe, 0, sizeof r->probe); r->logHash = 0; r->nCover = 0; }

[[noreturn]] void childMain(Channel* c) {
  Request& q = c->req;
  Record* r = &c->rec;
  bool loud = q.loud, useSeed = q.useSeed;
  uint64_t s = q.seed, hseed = q.hseed;
  prop = q.prop; tierThorough = q.thorough; onlyCase = *q.onlyCase ? q.onlyCase : nullptr;
  if (q.catchOutput) { dup2(Z_ERR, 1); dup2(Z_ERR, 2); }
  rlimit rl{60, 60};
  setrlimit(RLIMIT_CPU, &rl);
  alarm(240);   // (stalled, e.g. in a lock the scheduler does not know)
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
  rec = r;
  verbose = loud;
  heapSeed = hseed;
  if (useSeed) seedChoices(s); else replayChoices(q.choice, q.nChoices);
  std::vector<const Engine*> es;
  std::vector<int> w;
  for (auto& e : engines()) if (prop == e.property) { es.push_back(&e); w.push_back(e.weight); }
  if (es.empty()) internalError("no engine for " + prop);
  const Engine* e = es[es.size() == 1 ? 0 : chooseWeighted(w)];
  event("engine %s", e->name);
  try {
    e->run();
  } catch (std::exception& ex) {
    violation("unexpected-exception", std::string("an exception left the simulation: ") + ex.what());
  } catch (...) {
    violation("unexpected-exception", "an exception left the simulation");
  }
  finishRun();
}

[[noreturn]] void zygote() {
  auto* c = (Channel*)mmap(nullptr, sizeof(Channel), PROT_READ | PROT_WRITE, MAP_SHARED, Z_MEM, 0);
  if (c == MAP_FAILED) _exit(2);
  char x;
  while (true) {
    ssize_t n = read(Z_SOCK, &x, 1);
    if (n < 0 && errno == EINTR) continue;
    if (n != 1) _exit(0);
    pid_t p = fork();
    if (p == 0) childMain(c);
    int st = 0;
    if (p < 0) st = 2 << 8;
    else while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    c->req.status = st;
    while (write(Z_SOCK, &x, 1) < 0 && errno == EINTR) {}
  }
}

Outcome runOnce(Record* r, bool useSeed, uint64_t s, const std::vector<uint32_t>* ch, uint64_t hseed, bool loud, bool capture) {
  resetRecord(r);
  Zygote& z = zygotes.at(r);
  int errfd = capture ? z.errfd : -1;
  if (capture) { if (ftruncate(errfd, 0)) {} lseek(errfd, 0, SEEK_SET); }
  fflush(stdout); fflush(stderr);
  Request& q = z.ch->req;
  q.useSeed = useSeed; q.loud = loud; q.catchOutput = !loud && capture; q.thorough = tierThorough; q.seed = s; q.hseed = hseed;
  q.nChoices = ch ? std::min<size_t>(ch->size(), MAXCHOICES) : 0;
  for (int i = 0; i < q.nChoices; ++i) q.choice[i] = (*ch)[i];
  snprintf(q.prop, sizeof q.prop, "%s", prop.c_str());
  snprintf(q.onlyCase, sizeof q.onlyCase, "%s", onlyCase ? onlyCase : "");
  char x = 'r';
  ssize_t n = write(z.sock, &x, 1);
  while ((n = read(z.sock, &x, 1)) < 0 && errno == EINTR) {}
  if (n != 1) { fprintf(stderr, "the zygote is gone\n"); exit(2); }
  int st = q.status;
  Outcome o;
  o.status = r->status;
  o.kind = r->kind;
  o.msg = r->msg;
  if (r->status == ST_RUNNING) {
    o.status = ST_VIOLATION;
    std::string tail;
    if (errfd >= 0) {
      off_t n = lseek(errfd, 0, SEEK_END);
      off_t from = 0; size_t len = std::min<off_t>(n, 3000);
      tail.resize(len);
      ssize_t g = pread(errfd, tail.data(), len, from);
      tail.resize(g > 0 ? g : 0);
    }
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGXCPU)) o.kind = "hang";
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { o.status = ST_DISCARD; o.kind = "stalled"; o.msg = "the run made no progress in real time"; o.casename = r->casename; return o; }
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.kind = "hang";
    else if (tail.find("AddressSanitizer") != std::string::npos) {
      o.kind = "memory-error";
      auto q = tail.find("ERROR: AddressSanitizer: ");
      if (q != std::string::npos) { std::istringstream is(tail.substr(q + 25)); std::string w2; is >> w2; o.kind += ":" + w2; }
    }
    else if (WIFSIGNALED(st)) o.kind = std::string("crash:") + strsignal(WTERMSIG(st));
    else o.kind = "crash:exit";
    o.msg = "the process died (" + o.kind + "): " + tail;
  }
  o.casename = r->casename;
  o.hash = r->eventHash;
  o.choices.assign(r->choice, r->choice + r->nChoices);
  return o;
}

const uint64_t H1 = 0x9e3779b97f4a7c15ull, H2 = 0xd1b54a32d192ed03ull;

// one complete evaluation of a decision sequence (a pair of runs for environment properties)
Outcome evaluate(Record* r, bool useSeed, uint64_t s, const std::vector<uint32_t>* ch, bool loud, bool capture) {
  Outcome a = runOnce(r, useSeed, s, ch, H1, loud, capture);
  if (!envPairs || a.status != ST_OK) return a;
  if (loud) fprintf(stderr, "---- second environment\n");
  uint64_t faults[F_NUM]; uint64_t ev = r->events, cm = r->comparisons;
  memcpy(faults, r->faults, sizeof faults);
  Outcome b = runOnce(r, false, 0, &a.choices, H2, loud, capture);
  for (int i = 0; i < F_NUM; ++i) r->faults[i] += faults[i];
  r->faults[F_GARBAGE]++;
  r->events += ev; r->comparisons += cm + 1;
  if (b.status != ST_OK) { b.choices = a.choices; return b; }
  if (b.hash != a.hash) {
    b.status = ST_VIOLATION;
    b.kind = "environment-dependent";
    b.msg = "the same history gives different observations when only the contents of unused memory differ";
    b.choices = a.choices;
  }
  return b;
}

std::string esc(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

bool sameKind(const Outcome& a, const Outcome& b) { return b.status == ST_VIOLATION && a.kind == b.kind; }

std::vector<uint32_t> shrink(Record* r, const Outcome& v, double budget) {
  double end = now() + budget;
  auto best = v.choices;
  while (!best.empty() && best.back() == 0) best.pop_back();
  auto tryIt = [&](const std::vector<uint32_t>& c) {
    Outcome o = evaluate(r, false, 0, &c, false, true);
    if (sameKind(v, o)) { best = c; while (!best.empty() && best.back() == 0) best.pop_back(); return true; }
    return false;
  };
  { auto c = best; if (!tryIt(c)) return v.choices; }
  bool progress = true;
  while (progress && now() < end) {
    progress = false;
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1 && now() < end; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && now() < end;) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (c.size() < best.size() && tryIt(c)) progress = true; else i += len;
      }
      for (size_t i = 0; i < best.size() && now() < end; i += len) {
        auto c = best; bool any = false;
        for (size_t k = i; k < std::min(best.size(), i + len); ++k) { if (c[k]) any = true; c[k] = 0; }
        if (any && tryIt(c)) progress = true;
      }
      if (len == 1) break;
    }
    for (size_t i = 0; i < best.size() && now() < end; ++i)
      while (i < best.size() && best[i] > 1 && now() < end) {
        auto c = best; c[i] /= 2;
        if (!tryIt(c)) { c = best; c[i]--; if (!tryIt(c)) break; }
        progress = true;
      }
  }
  return best;
}

bool isKnown(const Outcome& o, std::string* which) {
  for (auto& k : known) {
    auto bar = k.find('|');
    std::string a = k.substr(0, bar), b = bar == std::string::npos ? "" : k.substr(bar + 1);
    if (o.kind.find(a) != std::string::npos && o.casename.find(b) != std::string::npos) { if (which) *which = k; return true; }
  }
  return false;
}

struct Shared {
  volatile int stop;
  struct Viol { int used; uint64_t run; uint64_t seed; } viol[8];
  int nViol;
};
struct Agg {
  uint64_t runs = 0, ok = 0, discarded = 0, errors = 0, events = 0, comparisons = 0, switches = 0, accesses = 0, detChecked = 0, detMismatch = 0, knownHits = 0, choices = 0;
  uint64_t faults[F_NUM] = {};
  uint64_t probe[NPROBE] = {};
};
} // namespace

int main(int argc, char** argv) {
  // Fixed addresses, so that a decision sequence is one exact execution.
  if (!getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  if (!strcmp(argv[0], "sim-zygote")) zygote();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--time") timeBudget = atof(val().c_str());
    else if (a == "--max-runs") maxRuns = atol(val().c_str());
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--out") outFile = val();
    else if (a == "--replay-out") replayOut = val();
    else if (a == "--replay") replayIn = val();
    else if (a == "--env-pairs") envPairs = true;
    else if (a == "--known") known.push_back(val());
    else if (a == "--case") onlyCase = strdup(val().c_str());
    else if (a == "--thorough") tierThorough = 1;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (!replayIn.empty()) {
    std::ifstream f(replayIn);
    std::string line; std::vector<uint32_t> ch; std::string kind; uint64_t hash = 0;
    while (std::getline(f, line)) {
      std::istringstream is(line); std::string k; is >> k;
      if (k == "property") is >> prop;
      else if (k == "kind") { std::getline(is, kind); if (!kind.empty()) kind.erase(0, 1); }
      else if (k == "env-pairs") { int x; is >> x; envPairs = x; }
      else if (k == "event-hash") is >> hash;
      else if (k == "case-filter") { std::string c; is >> c; if (c != "-") onlyCase = strdup(c.c_str()); }
      else if (k == "thorough") is >> tierThorough;
      else if (k == "choices") { uint32_t x; while (is >> x) ch.push_back(x); }
    }
    Record* r = newRecord();
    Outcome o = evaluate(r, false, 0, &ch, true, false);
    Outcome o2 = evaluate(r, false, 0, &ch, false, true);
    printf("replay: status=%s kind=%s case=%s hash=%llu (recorded kind=%s hash=%llu)\n%s\n", o2.status == ST_VIOLATION ? "violation" : o2.status == ST_OK ? "ok" : "other",
           o2.kind.c_str(), o2.casename.c_str(), (unsigned long long)o2.hash, kind.c_str(), (unsigned long long)hash, o2.msg.c_str());
    bool same = o2.status == ST_VIOLATION && o2.kind == kind && (hash == 0 || o2.hash == hash);
    printf("replay %s\n", same ? "REPRODUCED" : "DID NOT REPRODUCE");
    return o2.status == ST_VIOLATION ? 1 : 0;
  }

  Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void*)sh, 0, sizeof *sh);
  double t0 = now();
  std::vector<pid_t> ws;
  std::vector<std::string> files;
  char dirT[] = "/tmp/simXXXXXX";
  std::string dir = mkdtemp(dirT);
  for (int w = 0; w < jobs; ++w) {
    std::string wf = dir + "/w" + std::to_string(w);
    files.push_back(wf);
    pid_t p = fork();
    if (p == 0) {
      Record* r = newRecord();
      Agg a;
      std::set<uint64_t> hashes, covers;
      std::map<std::string, uint64_t> cases; std::map<std::string, uint64_t> knownHits; std::map<std::string, uint64_t> disc;
      std::vector<std::string> samples;
      for (long run = w; run < maxRuns && !sh->stop && now() - t0 < timeBudget; run += jobs) {
        uint64_t s = mix(seed, (uint64_t)run + 1);
        Outcome o = evaluate(r, true, s, nullptr, false, true);
        a.runs++;
        a.events += r->events; a.comparisons += r->comparisons; a.switches += r->switches; a.accesses += r->accesses; a.choices += r->nChoices;
        for (int i = 0; i < F_NUM; ++i) a.faults[i] += r->faults[i];
        for (int i = 0; i < NPROBE; ++i) a.probe[i] += r->probe[i];
        cases[r->casename]++;
        if (o.status == ST_DISCARD) { a.discarded++; disc[o.msg.substr(0, 120)]++; continue; }
        if (o.status == ST_ERROR) { a.errors++; fprintf(stderr, "internal error in run %ld: %s\n", run, o.msg.c_str()); continue; }
        if (o.status == ST_OK) {
          a.ok++;
          hashes.insert(o.hash);
          for (uint32_t i = 0; i < r->nCover; ++i) covers.insert(mix(r->cover[i], std::hash<std::string>()(r->casename)));
          if (samples.size() < 3) samples.push_back(std::string(r->casename) + " events=" + std::to_string(r->events) + " seed=" + std::to_string(s));
          if (run % 61 == 7 && !envPairs) {
            Outcome o2 = evaluate(r, true, s, nullptr, false, true);
            a.detChecked++;
            if (o2.status != ST_OK || o2.hash != o.hash) { a.detMismatch++; fprintf(stderr, "nondeterministic run %ld case %s\n", run, r->casename); }
          }
          continue;
        }
        std::string which;
        if (isKnown(o, &which)) { a.knownHits++; knownHits[which]++; continue; }
        fprintf(stderr, "run %ld seed %llu case %s: %s: %.300s\n", run, (unsigned long long)s, o.casename.c_str(), o.kind.c_str(), o.msg.c_str());
        int k = __sync_fetch_and_add(&sh->nViol, 1);
        if (k < 8) { sh->viol[k].run = run; sh->viol[k].seed = s; sh->viol[k].used = 1; }
        if (k + 1 >= 8 || getenv("SIM_STOP_FIRST")) sh->stop = 1;
        if (k == 0) { /* let the others finish their current run */ sh->stop = 1; }
      }
      std::ofstream f(wf);
      f << a.runs << ' ' << a.ok << ' ' << a.discarded << ' ' << a.errors << ' ' << a.events << ' ' << a.comparisons << ' ' << a.switches << ' ' << a.accesses << ' ' << a.detChecked << ' ' << a.detMismatch << ' ' << a.knownHits << ' ' << a.choices << '\n';
      for (int i = 0; i < F_NUM; ++i) f << a.faults[i] << ' ';
      f << '\n';
      for (int i = 0; i < NPROBE; ++i) f << a.probe[i] << ' ';
      f << '\n' << hashes.size() << '\n';
      for (auto h : hashes) f << h << ' ';
      f << '\n' << covers.size() << '\n';
      for (auto h : covers) f << h << ' ';
      f << '\n' << cases.size() << '\n';
      for (auto& c : cases) f << c.second << ' ' << (c.first.empty() ? "?" : c.first) << '\n';
      f << samples.size() << '\n';
      for (auto& x : samples) f << x << '\n';
      f << knownHits.size() << '\n';
      for (auto& x : knownHits) f << x.second << ' ' << x.first << '\n';
      f << disc.size() << '\n';
      for (auto& x : disc) { std::string m = x.first; for (auto& c : m) if (c == '\n') c = ' '; f << x.second << ' ' << m << '\n'; }
      f.close();
      _exit(0);
    }
    ws.push_back(p);
  }
  for (auto p : ws) { int st; waitpid(p, &st, 0); }
  double t1 = now();
  Agg a;
  std::set<uint64_t> hashes, covers; std::map<std::string, uint64_t> cases, knownHits, disc; std::vector<std::string> samples;
  for (auto& wf : files) {
    std::ifstream f(wf);
    uint64_t x[12] = {};
    for (auto& y : x) f >> y;
    a.runs += x[0]; a.ok += x[1]; a.discarded += x[2]; a.errors += x[3]; a.events += x[4]; a.comparisons += x[5]; a.switches += x[6]; a.accesses += x[7]; a.detChecked += x[8]; a.detMismatch += x[9]; a.knownHits += x[10]; a.choices += x[11];
    for (int i = 0; i < F_NUM; ++i) { uint64_t y = 0; f >> y; a.faults[i] += y; }
    for (int i = 0; i < NPROBE; ++i) { uint64_t y = 0; f >> y; a.probe[i] += y; }
    size_t n = 0; f >> n; for (size_t i = 0; i < n; ++i) { uint64_t y; f >> y; hashes.insert(y); }
    n = 0; f >> n; for (size_t i = 0; i < n; ++i) { uint64_t y; f >> y; covers.insert(y); }
    n = 0; f >> n; for (size_t i = 0; i < n; ++i) { uint64_t y; std::string c; f >> y >> c; cases[c] += y; }
    std::string l; n = 0; f >> n; std::getline(f, l);
    for (size_t i = 0; i < n; ++i) { std::getline(f, l); samples.push_back(l); }
    n = 0; f >> n; for (size_t i = 0; i < n; ++i) { uint64_t y; f >> y; std::getline(f, l); knownHits[l.substr(1)] += y; }
    n = 0; f >> n; for (size_t i = 0; i < n; ++i) { uint64_t y; f >> y; std::getline(f, l); disc[l.substr(1)] += y; }
    unlink(wf.c_str());
  }
  rmdir(dir.c_str());

  // confirm, minimise and store a violation
  int exitCode = 0;
  std::string vjson = "null";
  int unrepro = 0;
  Record* r = newRecord();
  for (int k = 0; k < std::min(sh->nViol, 8); ++k) {
    if (!sh->viol[k].used) continue;
    Outcome o = evaluate(r, true, sh->viol[k].seed, nullptr, false, true);
    if (o.status != ST_VIOLATION) { unrepro++; fprintf(stderr, "run %llu did not fail again with its seed\n", (unsigned long long)sh->viol[k].run); continue; }
    Outcome o1 = evaluate(r, false, 0, &o.choices, false, true);
    if (!sameKind(o, o1) || (o1.hash != o.hash)) { unrepro++; fprintf(stderr, "run %llu did not replay exactly from its decisions (%s / %s)\n", (unsigned long long)sh->viol[k].run, o.kind.c_str(), o1.kind.c_str()); continue; }
    auto small = shrink(r, o, 25);
    Outcome f = evaluate(r, false, 0, &small, false, true);
    Outcome f2 = evaluate(r, false, 0, &small, false, true);
    if (!(f.status == ST_VIOLATION && f2.kind == f.kind && f2.hash == f.hash)) { small = o.choices; f = o; }
    if (!replayOut.empty()) {
      std::ofstream w(replayOut);
      w << "property " << prop << "\nkind " << f.kind << "\ncase " << f.casename << "\nseed " << sh->viol[k].seed << "\nbase-seed " << seed << "\nrun " << sh->viol[k].run << "\nenv-pairs " << envPairs << "\nthorough " << tierThorough
        << "\ncase-filter " << (onlyCase ? onlyCase : "-") << "\nevent-hash " << f.hash << "\nchoices";
      for (auto c : small) w << ' ' << c;
      w << "\nmessage " << esc(f.msg) << "\n";
    }
    std::ostringstream js;
    js << "{\"kind\":\"" << esc(f.kind) << "\",\"case\":\"" << esc(f.casename) << "\",\"seed\":" << sh->viol[k].seed << ",\"run\":" << sh->viol[k].run << ",\"choices\":" << small.size() << ",\"original_choices\":" << o.choices.size() << ",\"message\":\"" << esc(f.msg) << "\"}";
    vjson = js.str();
    exitCode = 1;
    break;
  }
  if (sh->nViol && exitCode == 0) exitCode = 3;

  std::ofstream f(outFile.empty() ? "/dev/stdout" : outFile);
  f << "{\"runs\":" << a.runs << ",\"ok\":" << a.ok << ",\"discarded\":" << a.discarded << ",\"internal_errors\":" << a.errors << ",\"events\":" << a.events << ",\"comparisons\":" << a.comparisons
    << ",\"thread_switches\":" << a.switches << ",\"instrumented_accesses\":" << a.accesses << ",\"decisions\":" << a.choices << ",\"distinct_histories\":" << hashes.size() << ",\"distinct_transitions\":" << covers.size()
    << ",\"determinism_rechecks\":" << a.detChecked << ",\"determinism_mismatches\":" << a.detMismatch << ",\"known_hits\":" << a.knownHits << ",\"unreproducible\":" << unrepro << ",\"search_seconds\":" << (t1 - t0)
    << ",\"faults\":{";
  for (int i = 0; i < F_NUM; ++i) f << (i ? "," : "") << "\"" << faultName[i] << "\":" << a.faults[i];
  f << "},\"probes\":[";
  for (int i = 0; i < NPROBE; ++i) f << (i ? "," : "") << a.probe[i];
  f << "],\"cases\":{";
  bool first = true;
  for (auto& c : cases) { f << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
  f << "},\"discards\":{"; first = true;
  for (auto& c : disc) { f << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
  f << "},\"known\":{"; first = true;
  for (auto& c : knownHits) { f << (first ? "" : ",") << "\"" << esc(c.first) << "\":" << c.second; first = false; }
  f << "},\"samples\":[";
  for (size_t i = 0; i < std::min<size_t>(samples.size(), 12); ++i) f << (i ? "," : "") << "\"" << esc(samples[i]) << "\"";
  f << "],\"violation\":" << vjson << "}\n";
  f.close();
  if (a.errors) return 2;
  return exitCode;
}
