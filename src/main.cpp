#include "checks.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <sys/wait.h>
#include <sys/resource.h>
#include <poll.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
using namespace llvm;
namespace pq {
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '\\') r += "\\\\"; else if (c == '\t') r += "\\t"; else if (c == '\n') r += "\\n"; else r += c; } return r; }
static std::string unesc(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\\' && i + 1 < s.size()) { i++; r += s[i] == 't' ? '\t' : s[i] == 'n' ? '\n' : s[i]; } else r += s[i]; } return r; }
std::string Report::ser() const {
  std::ostringstream o; for (auto &x : v) { o << "V\t" << esc(x.key) << "\t" << esc(x.where) << "\t" << esc(x.what); for (auto &p : x.path) o << "\t" << esc(p); o << "\n"; }
  for (auto &kv : cnt) o << "C\t" << esc(kv.first) << "\t" << kv.second << "\n"; for (auto &s : samples) o << "S\t" << esc(s) << "\n"; for (auto &s : notes) o << "N\t" << esc(s) << "\n"; for (auto &s : funcs) o << "F\t" << esc(s) << "\n"; if (!broken.empty()) o << "B\t" << esc(broken) << "\n"; o << "E\n"; return o.str();
}
Report Report::deser(const std::string &s) {
  Report r; std::istringstream in(s); std::string l; bool end = false;
  while (std::getline(in, l)) { std::vector<std::string> f; size_t p = 0; while (true) { size_t q = l.find('\t', p); f.push_back(unesc(l.substr(p, q == std::string::npos ? q : q - p))); if (q == std::string::npos) break; p = q + 1; }
    if (f[0] == "V" && f.size() >= 4) { r.v.push_back({f[1], f[2], f[3], std::vector<std::string>(f.begin() + 4, f.end())}); } else if (f[0] == "C") r.cnt[f[1]] = std::stoull(f[2]); else if (f[0] == "S") r.samples.push_back(f[1]); else if (f[0] == "N") r.notes.insert(f[1]); else if (f[0] == "F") r.funcs.insert(f[1]); else if (f[0] == "B") r.fail(f[1]); else if (f[0] == "E") end = true; }
  if (!end) r.fail("an analysis process ended abnormally"); return r;
}
// A violation that only the merging of different paths produces is none: a job that reports one is repeated with the paths kept apart, and a rule
// instance the repetition proves (complete, with at least as many obligations and nothing newly set aside) is dropped. Both runs over-approximate.
static bool retryAllowed = false; // only for checks whose verdicts rest on terms and facts, which every merge only weakens (typestate cells do not have that)
static void retry(const Job &job, Report &r) {
  if (!retryAllowed || r.v.empty() || !r.broken.empty() || pathSensitiveDefault) return; int fd[2]; if (pipe(fd)) return; std::cout.flush(); pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); return; }
  if (p == 0) { close(fd[0]); alarm(40); pathSensitiveDefault = true; Report t; job(t); std::string s = t.ser(); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd[1]); _exit(0); }
  close(fd[1]); std::string s; char b[65536]; for (ssize_t k; (k = read(fd[0], b, sizeof b)) > 0;) s.append(b, k); close(fd[0]); int st; waitpid(p, &st, 0); Report t = Report::deser(s); if (!t.broken.empty() || t.cnt["obligations"] < r.cnt["obligations"]) return; for (auto &n : t.notes) if (!r.notes.count(n)) return;
  std::vector<Violation> keep; for (auto &x : r.v) { bool again = false; for (auto &y : t.v) again |= y.key == x.key; if (again) keep.push_back(x); else r.ok("proved_with_paths_apart"); } if (keep.empty()) { r.cnt["violating_instances"] = 0; r.cnt["discharged"] = r.cnt["obligations"]; } r.v = keep;
}
void runJobs(const std::vector<Job> &jobs, Report &out, unsigned par) {
  const char *only = getenv("PQA_ONLY"), *times = getenv("PQA_TIMES"); struct Ch { pid_t pid; int fd; std::string buf; size_t job; }; std::vector<Ch> live; size_t next = 0, confirmed = 0; auto begin = time(nullptr); std::vector<std::string> res(jobs.size());
  while (next < jobs.size() || !live.empty()) {
    while (next < jobs.size() && live.size() < par) {
      int fd[2]; if (pipe(fd)) { out.fail("pipe"); return; } std::cout.flush();
      pid_t p = fork(); if (p == 0) { close(fd[0]); Report r; auto t0 = time(nullptr); if (!only || (size_t)atol(only) == next) { jobs[next](r); if (confirmed < 2 && time(nullptr) - begin < 300) retry(jobs[next], r); } if (times && time(nullptr) - t0 > 2) std::cerr << "job " << next << " " << time(nullptr) - t0 << "s\n"; std::string s = r.ser(); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd[1], s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd[1]); _exit(0); }
      close(fd[1]); live.push_back({p, fd[0], "", next++});
    }
    std::vector<pollfd> pf; for (auto &c : live) pf.push_back({c.fd, POLLIN, 0}); poll(pf.data(), pf.size(), -1);
    for (size_t i = 0; i < live.size();) { if (pf[i].revents) { char b[65536]; ssize_t k = read(live[i].fd, b, sizeof b); if (k > 0) { live[i].buf.append(b, k); i++; } else { close(live[i].fd); int st; waitpid(live[i].pid, &st, 0); res[live[i].job] = live[i].buf; if (live[i].buf.compare(0, 2, "V\t") == 0) confirmed++; live.erase(live.begin() + i); pf.erase(pf.begin() + i); } } else i++; }
  }
  for (auto &s : res) out.merge(Report::deser(s));
}
void allowRetry(const std::string &id) { retryAllowed = id == "C23" || id == "C24" || id == "C31"; }
void noteEngine(Engine &E, Report &r) {
  r.ok("ir_steps", E.steps); r.ok("joins", E.joins); r.ok("branch_splits", E.forks); r.ok("calls_resolved", E.calls); r.ok("widenings", E.widenings);
  for (auto *f : E.analysed) r.funcs.insert(f->getName().str()); for (auto &u : E.unknownCalls) r.notes.insert("treated as opaque: " + u);
}
std::map<std::string, CheckFn> &registry() { static std::map<std::string, CheckFn> m; return m; }
} // namespace pq
int main(int argc, char **argv) {
  if (argc < 3) { std::cerr << "usage: pqa <bitcode> <property> [thorough] [srcdir]\n"; return 2; }
  rlimit rl{512ull << 20, 512ull << 20}; setrlimit(RLIMIT_STACK, &rl);
  LLVMContext C; SMDiagnostic D; auto M = parseIRFile(argv[1], D, C); if (!M) { D.print("pqa", errs()); return 2; }
  auto it = pq::registry().find(argv[2]); if (it == pq::registry().end()) { std::cerr << "no such check\n"; return 2; }
  pq::Report R; pq::Ctx c{*M, argc > 3 && std::string(argv[3]) == "thorough", argc > 4 ? argv[4] : "/repo"};
  pq::allowRetry(argv[2]); it->second(c, R); std::cout << R.ser(); return 0;
}
