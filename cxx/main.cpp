#include "pbt.h"
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
std::map<std::string, Part> &parts() { static std::map<std::string, Part> p; return p; }
using Clk = std::chrono::steady_clock;
static double now() { return std::chrono::duration<double>(Clk::now().time_since_epoch()).count(); }
struct Shared { size_t n; uint64_t cases, discards; uint32_t tape[60000]; int nmsg; char msg[4096]; };
static std::string esc(std::string const &s) { std::string r = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; } return r + "\""; }
// outcome of one tape in a forked child: 0 held, 1 violated, 2 crashed, 3 discarded, 4 ran out of time
static int forked(Part p, std::vector<uint32_t> const &tape, std::string &msg, std::string &logs, bool keep) {
  char fn[] = "/tmp/cxxpbtXXXXXX"; int fd = mkstemp(fn); unlink(fn);
  pid_t k = fork();
  if (!k) {
    alarm(20); dup2(fd, 1); dup2(fd, 2); setvbuf(stdout, 0, _IONBF, 0);
    Tape t; t.d = tape; t.replay = true; Ctx c; c.keep = keep; int rc = 0; std::string m;
    try { p(t, c); } catch (Fail &f) { rc = 1; m = f.m; } catch (Discard &) { rc = 3; } catch (std::exception &e) { rc = 1; m = std::string("exception ") + e.what(); }
    ftruncate(fd, 0); lseek(fd, 0, SEEK_SET); fflush(stdout);
    std::string o = m + "\n"; for (auto &l : c.log) o += l + "\n"; if (write(fd, o.data(), o.size()) < 0) { } _exit(40 + rc);
  }
  int st; waitpid(k, &st, 0); std::string o; lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) { o.append(b, n); if (o.size() > 200000) break; } close(fd);
  if (WIFEXITED(st) && WEXITSTATUS(st) >= 40 && WEXITSTATUS(st) <= 43) { size_t i = o.find('\n'); msg = o.substr(0, i); logs = i == std::string::npos ? "" : o.substr(i + 1); return WEXITSTATUS(st) - 40; }
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { msg = "does not come to an end"; return 4; }
  std::istringstream is(o); std::string l; msg = "the process died"; while (getline(is, l)) if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("Assertion") != std::string::npos || l.find("terminate") != std::string::npos || l.find("fatal error") != std::string::npos) { size_t e = l.find("ERROR: "); msg = e == std::string::npos ? l : l.substr(e + 7); size_t a = msg.find(" on address"); if (a == std::string::npos) a = msg.find(" on unknown"); if (a != std::string::npos) msg = msg.substr(0, a); break; }
  logs = o.substr(0, 3000); return 2;
}
int main(int argc, char **argv) {
  if (argc >= 2 && !strcmp(argv[1], "--list")) { for (auto &p : parts()) puts(p.first.c_str()); return 0; }
  if (argc >= 4 && !strcmp(argv[1], "--replay")) { std::vector<uint32_t> d; std::ifstream f(argv[3]); uint32_t x; while (f >> x) d.push_back(x); std::string m, l; int r = forked(parts().at(argv[2]), d, m, l, true); printf("%s\noutcome %d %s\n", l.c_str(), r, m.c_str()); return r == 0 || r == 3 ? 0 : 1; }
  if (argc < 5) return 3;
  std::string name = argv[1]; uint64_t seed = strtoull(argv[2], 0, 10); double budget = atof(argv[3]); Part p = parts().at(name);
  Shared *sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now(); char rf[] = "/tmp/cxxresXXXXXX"; int rfd = mkstemp(rf); unlink(rf); uint64_t round = 0; bool viol = false; std::string vmsg, vlog; std::vector<uint32_t> vt;
  uint64_t cases = 0, disc = 0; std::string result;
  while (now() - t0 < budget && !viol) {
    ftruncate(rfd, 0); lseek(rfd, 0, SEEK_SET); sh->n = 0; sh->nmsg = 0; round++; sh->cases = sh->discards = 0;
    pid_t k = fork();
    if (!k) {
      int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2);
      std::set<uint64_t> seen; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; int rc = 0; uint64_t n = 0;
      while (now() - t0 < budget) {
        Tape t; t.s = (seed * 1000003 + round) * 0x2545F4914F6CDD1Dull + n * 0x9E3779B97F4A7C15ull; t.rnd(); t.out = sh->tape; t.outn = &sh->n; sh->n = 0; Ctx c; alarm(25);
        try { p(t, c); } catch (Fail &f) { snprintf(sh->msg, sizeof sh->msg, "%s", f.m.c_str()); rc = 1; break; } catch (Discard &) { sh->discards++; n++; sh->cases++; continue; } catch (std::exception &e) { snprintf(sh->msg, sizeof sh->msg, "exception %s", e.what()); rc = 1; break; }
        n++; sh->cases++;
        if (c.nt && seen.size() < 300000) { uint64_t h = 14695981039346656037ull; for (auto v : t.d) h = (h ^ v) * 1099511628211ull; if (seen.insert(h).second && samples.size() < 6 && c.desc.size()) samples.push_back(c.desc.substr(0, 300)); }
        for (auto &l : c.labels) labels[l.first] += l.second;
      }
      std::ostringstream o; o << "{\"nt\":" << seen.size() << ",\"labels\":{"; bool f = true; for (auto &l : labels) { o << (f ? "" : ",") << esc(l.first) << ":" << l.second; f = false; } o << "},\"samples\":["; f = true; for (auto &s : samples) { o << (f ? "" : ",") << esc(s); f = false; } o << "]}";
      std::string s = o.str(); if (write(rfd, s.data(), s.size()) < 0) { } _exit(rc ? 41 : 40);
    }
    int st; waitpid(k, &st, 0); cases += sh->cases; disc += sh->discards;
    std::string r; lseek(rfd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(rfd, b, sizeof b)) > 0) r.append(b, n); if (r.size()) result = r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 40) break;
    // a violation or a crash: reproduce, then shrink
    std::vector<uint32_t> t(sh->tape, sh->tape + sh->n); std::string m, l; int want = forked(p, t, m, l, false);
    if (want == 0 || want == 3) { if (round > 5) { result = "{\"nt\":0,\"labels\":{},\"samples\":[],\"flaky\":" + esc(sh->msg) + "}"; break; } continue; }
    double s0 = now(); bool better = true; auto bad = [&](std::vector<uint32_t> const &x) { std::string m2, l2; int q = forked(p, x, m2, l2, false); return q == want; };
    while (better && now() - s0 < 15) { better = false;
      for (size_t w = t.size(); w >= 1 && now() - s0 < 15; w /= 2) for (size_t i = 0; i + w <= t.size() && now() - s0 < 15;) { auto x = t; x.erase(x.begin() + i, x.begin() + i + w); if (bad(x)) { t = x; better = true; } else i += w; }
      for (size_t i = 0; i < t.size() && now() - s0 < 15; i++) if (t[i]) { auto x = t; x[i] = 0; if (bad(x)) { t = x; better = true; continue; } x[i] = t[i] / 2; if (x[i] != t[i] && bad(x)) { t = x; better = true; } } }
    forked(p, t, vmsg, vlog, true); viol = true; vt = t;
  }
  if (result.empty()) result = "{\"nt\":0,\"labels\":{},\"samples\":[]}";
  std::ofstream f(argv[4]); f << "{\"part\":" << esc(name) << ",\"cases\":" << cases << ",\"discards\":" << disc << ",\"stat\":" << result;
  if (viol) { f << ",\"violation\":{\"msg\":" << esc(vmsg) << ",\"log\":" << esc(vlog) << ",\"tape\":["; for (size_t i = 0; i < vt.size(); i++) f << (i ? "," : "") << vt[i]; f << "]}"; }
  f << "}\n"; return viol ? 1 : 0;
}
