#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

SolverStats sstats;
std::string dumpDir;
int quickMs = 5000, slowMs = 60000;

struct Proc {
  std::string cmd;
  std::vector<std::string> argv;
  pid_t pid = -1;
  int in = -1, out = -1;
  std::string buf;
  void start() {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) abort();
    pid = fork();
    if (pid == 0) {
      dup2(a[0], 0); dup2(b[1], 1);
      close(a[0]); close(a[1]); close(b[0]); close(b[1]);
      std::vector<char *> av;
      for (auto &s : argv) av.push_back((char *)s.c_str());
      av.push_back(nullptr);
      execvp(av[0], av.data());
      _exit(127);
    }
    close(a[0]); close(b[1]);
    in = a[1]; out = b[0];
    buf.clear();
  }
  void stop() {
    if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); close(in); close(out); }
    pid = -1;
  }
  // returns false on timeout / death; reads until marker line
  bool talk(const std::string &text, std::string &reply, int timeoutMs) {
    if (pid < 0) start();
    std::string t = text + "\n(echo \"<<done>>\")\n";
    size_t off = 0;
    auto t0 = std::chrono::steady_clock::now();
    reply.clear();
    while (true) {
      struct pollfd p[2] = {{in, (short)(off < t.size() ? POLLOUT : 0), 0}, {out, POLLIN, 0}};
      int left = timeoutMs - (int)std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
      if (left <= 0) { stop(); return false; }
      int r = poll(p, 2, left);
      if (r < 0) continue;
      if (r == 0) { stop(); return false; }
      if (off < t.size() && (p[0].revents & POLLOUT)) {
        ssize_t w = write(in, t.data() + off, std::min<size_t>(t.size() - off, 4096));
        if (w < 0) { stop(); return false; }
        off += w;
      }
      if (p[1].revents & (POLLIN | POLLHUP)) {
        char b[65536];
        ssize_t n = read(out, b, sizeof b);
        if (n <= 0) { stop(); return false; }
        reply.append(b, n);
        size_t k = reply.find("<<done>>");
        if (k != std::string::npos) { reply.resize(k); return true; }
      }
    }
  }
};

static std::map<std::string, Proc> procs;
static Proc &proc(const std::string &which) {
  auto it = procs.find(which);
  if (it != procs.end()) return it->second;
  Proc p;
  if (which == "z3-new") p.argv = {"z3-new", "-in", "-memory:4000"};
  else if (which == "z3") p.argv = {"z3", "-in", "-memory:4000"};
  else p.argv = {"cvc5", "--incremental", "--produce-models", "--nl-ext-tplanes", "--lang=smt2"};
  return procs[which] = p;
}

static mpq_class parseNum(const std::string &s, size_t &i);
static void skipWs(const std::string &s, size_t &i) { while (i < s.size() && isspace((unsigned char)s[i])) i++; }
static mpq_class parseNum(const std::string &s, size_t &i) {
  skipWs(s, i);
  if (s[i] == '(') {
    i++; skipWs(s, i);
    std::string op;
    while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != '(' && s[i] != ')') op += s[i++];
    if (op == "root-obj" || op == "_") { // unsupported: skip to matching paren
      int d = 1; while (i < s.size() && d) { if (s[i] == '(') d++; if (s[i] == ')') d--; i++; }
      return 0;
    }
    std::vector<mpq_class> a;
    while (true) { skipWs(s, i); if (i >= s.size()) return 0; if (s[i] == ')') { i++; break; } a.push_back(parseNum(s, i)); }
    if (op == "-") return a.size() == 1 ? mpq_class(-a[0]) : mpq_class(a[0] - a[1]);
    if (op == "/") return a[1] == 0 ? mpq_class(0) : mpq_class(a[0] / a[1]);
    if (op == "to_real") return a[0];
    return 0;
  }
  std::string t;
  while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != ')') t += s[i++];
  if (t == "true") return 1;
  if (t == "false") return 0;
  if (!t.empty() && t.back() == '?') t.pop_back();
  size_t dot = t.find('.');
  if (dot == std::string::npos) { mpq_class q; if (q.set_str(t, 10)) return 0; return q; }
  std::string d = t.substr(0, dot) + t.substr(dot + 1);
  std::string den = "1" + std::string(t.size() - dot - 1, '0');
  mpq_class q; if (q.set_str(d + "/" + den, 10)) return 0;
  q.canonicalize();
  return q;
}

static std::string logicOf(const std::vector<E> &vars, const std::string &body, bool cvc) {
  bool hasI = false, hasR = false;
  for (auto v : vars) { if (v->s == SI) hasI = true; if (v->s == SR) hasR = true; }
  bool nl = smtNonlinear;
  if (!hasI && !hasR) return "QF_LRA";
  if (hasI && !hasR && (body.find("to_real") != std::string::npos || body.find(".0") != std::string::npos)) hasR = true;
  if (hasR && !hasI && body.find("to_int") != std::string::npos) hasI = true;
  if (hasI && hasR) return cvc ? (nl ? "QF_NIRA" : "QF_LIRA") : "ALL";
  if (hasI) return nl ? "QF_NIA" : "QF_LIA";
  return nl ? "QF_NRA" : "QF_LRA";
}

struct CacheEnt { Res r; };
static std::map<std::vector<uint32_t>, Res> cache;
static int dumpN = 0;

static Res runOne(const std::string &which, const std::vector<E> &vars, const std::string &body,
                  std::unordered_map<E, mpq_class> *model, int timeoutMs, const std::string &extra = "") {
  Proc &p = proc(which);
  bool cvc = which == "cvc5";
  std::string q;
  if (cvc) q = "(reset)\n(set-option :produce-models true)\n(set-option :tlimit-per " + std::to_string(timeoutMs) + ")\n(set-logic " + logicOf(vars, body, true) + ")\n";
  else {
    q = "(reset)\n(set-option :timeout " + std::to_string(timeoutMs) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n";
    std::string lg = logicOf(vars, body, false);
    if (lg != "ALL") q += "(set-logic " + lg + ")\n";
  }
  q += body + extra + "(check-sat)\n";
  std::string rep;
  if (!p.talk(q, rep, timeoutMs + 3000)) return UNKNOWN;
  if (rep.find("(error") != std::string::npos) {
    static int shown = 0;
    if (shown++ < 5) fprintf(stderr, "solver %s: %s\n", which.c_str(), rep.substr(0, 300).c_str());
    if (getenv("SYMX_DUMPERR")) { FILE *f = fopen(getenv("SYMX_DUMPERR"), "w"); fputs(q.c_str(), f); fclose(f); }
    return UNKNOWN;
  }
  Res r = UNKNOWN;
  if (rep.find("unsat") != std::string::npos) r = UNSAT;
  else if (rep.find("unknown") != std::string::npos || rep.find("timeout") != std::string::npos) r = UNKNOWN;
  else if (rep.find("sat") != std::string::npos) r = SAT;
  if (r == SAT && model) {
    if (vars.empty()) return r;
    std::string g = "(get-value (";
    for (auto v : vars) g += smtName(v) + " ";
    g += "))";
    if (!p.talk(g, rep, 20000) || rep.find("(error") != std::string::npos) { fprintf(stderr, "get-value failed: %.200s\n", rep.c_str()); return UNKNOWN; }
    size_t i = rep.find("((");
    if (i == std::string::npos) return UNKNOWN;
    i++;
    for (auto v : vars) {
      skipWs(rep, i);
      if (rep[i] != '(') break;
      i++;
      skipWs(rep, i);
      if (rep[i] == '|') { i = rep.find('|', i + 1) + 1; }
      else while (!isspace((unsigned char)rep[i])) i++;
      (*model)[v] = parseNum(rep, i);
      skipWs(rep, i);
      if (rep[i] == ')') i++;
    }
  }
  return r;
}

Res check(const std::vector<E> &conj0, std::unordered_map<E, mpq_class> *model, int timeoutMs, bool portfolio) {
  std::vector<E> conj;
  for (auto c : conj0) {
    if (isFalse(c)) return UNSAT;
    if (!isTrue(c)) conj.push_back(c);
  }
  if (conj.empty() && !model) return SAT;
  std::vector<uint32_t> key;
  for (auto c : conj) key.push_back(c->id);
  std::sort(key.begin(), key.end());
  key.erase(std::unique(key.begin(), key.end()), key.end());
  if (!model) {
    auto it = cache.find(key);
    if (it != cache.end() && !(it->second == UNKNOWN && portfolio)) { sstats.cached++; return it->second; }
  }
  std::vector<E> vars;
  std::string body = toSMT(conj, vars);
  if (!dumpDir.empty()) {
    std::string fn = dumpDir + "/q" + std::to_string(dumpN++) + ".smt2";
    FILE *f = fopen(fn.c_str(), "w"); if (f) { fputs(body.c_str(), f); fputs("(check-sat)\n", f); fclose(f); }
  }
  auto t0 = std::chrono::steady_clock::now();
  Res r = runOne("z3-new", vars, body, model, timeoutMs);
  std::string by = "z3-new";
  if (r == UNKNOWN && portfolio) {
    sstats.fallback++;
    struct { const char *w; int t; } plan[] = {{"cvc5", timeoutMs * 2}, {"z3", timeoutMs * 2}, {"z3-new", timeoutMs * 4}};
    for (auto &p : plan) {
      r = runOne(p.w, vars, body, model, p.t);
      by = p.w;
      if (r != UNKNOWN) break;
    }
  }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  if (dt > 1.0 && getenv("SYMX_SLOW")) {
    static int n = 0; std::string fn = std::string(getenv("SYMX_SLOW")) + "/slow" + std::to_string(n++) + ".smt2";
    FILE *f = fopen(fn.c_str(), "w"); if (f) { fprintf(f, "; %.2fs res %d by %s\n", dt, r, by.c_str()); fputs(body.c_str(), f); fputs("(check-sat)\n", f); fclose(f); }
  }
  sstats.queries++; sstats.seconds += dt; if (dt > sstats.maxq) sstats.maxq = dt;
  (r == SAT ? sstats.sat : r == UNSAT ? sstats.unsat : sstats.unknown)++;
  if (r != UNKNOWN) sstats.decidedBy[by]++;
  cache[key] = r;
  return r;
}
