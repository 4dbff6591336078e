// Shared by the recorders: number encoding, event output, and the main loop that runs each scenario of the script in a
// process of its own.
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <exception>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/resource.h>

static FILE *OUT;
static std::string CAP;   // file receiving the child's stdout

static std::string D(double x) {
  uint64_t u; memcpy(&u, &x, 8);
  char b[64];
  snprintf(b, sizeof b, "[%d,%d]", (int32_t)(u >> 32), (int32_t)(u & 0xffffffffu));
  return b;
}
static std::string DA(const double *p, int n) {
  std::string s = "[";
  for (int i = 0; i < n; i++) { if (i) s += ","; s += D(p[i]); }
  return s + "]";
}
static std::string J(const std::string &s) {
  std::string r = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) r += ' '; else r += c; }
  return r + "\"";
}

static void ev(const std::string &s) { fprintf(OUT, "%s\n", s.c_str()); fflush(OUT); }

static int run_scenario(const std::vector<std::string> &lines);

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: recorder SCRIPT OUT SCRATCH [timeout_s]\n"); return 2; }
  int tmo = argc > 4 ? atoi(argv[4]) : 60;
  std::ifstream in(argv[1]);
  std::vector<std::vector<std::string>> sc;
  std::string ln;
  while (std::getline(in, ln)) {
    if (ln.empty()) continue;
    if (ln.compare(0, 4, "SCEN") == 0) sc.push_back({});
    sc.back().push_back(ln);
  }
  FILE *fin = fopen(argv[2], "w");
  if (!fin) { perror(argv[2]); return 2; }
  int timeouts = 0;
  for (auto &s : sc) {
    std::string part = std::string(argv[3]) + "/part." + std::to_string(getpid());
    CAP = std::string(argv[3]) + "/cap." + std::to_string(getpid());
    fflush(fin);
    pid_t pid = fork();
    if (pid == 0) {
      OUT = fopen(part.c_str(), "w");
      if (!OUT) _exit(96);
      if (!freopen(CAP.c_str(), "w", stdout)) _exit(96);
      if (!freopen("/dev/null", "w", stderr)) _exit(96);
      alarm(tmo);
      rlimit fs = {256u << 20, 256u << 20}; setrlimit(RLIMIT_FSIZE, &fs);
#ifndef __SANITIZE_ADDRESS__
      rlimit ds = {2048ul << 20, 2048ul << 20}; setrlimit(RLIMIT_DATA, &ds);
#endif
      int rc = run_scenario(s);
      fflush(NULL);
      _exit(rc);
    }
    int st = 0; waitpid(pid, &st, 0);
    std::ifstream p(part, std::ios::binary); std::string body((std::istreambuf_iterator<char>(p)), std::istreambuf_iterator<char>());
    size_t cut = body.rfind('\n'); body = cut == std::string::npos ? "" : body.substr(0, cut + 1);
    fwrite(body.data(), 1, body.size(), fin);
    bool ended = body.find("\n{\"e\":\"end\"}") != std::string::npos || body.find("\n{\"e\":\"exc\"") != std::string::npos;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { fclose(fin); return 97; }
    if (WIFSIGNALED(st)) fprintf(fin, "{\"e\":\"crash\",\"why\":\"%s\"}\n", WTERMSIG(st) == SIGALRM ? "timeout" : WTERMSIG(st) == SIGABRT ? "abort" : "signal");
    else if (!ended) fprintf(fin, "{\"e\":\"crash\",\"why\":\"exit\"}\n");
    unlink(part.c_str()); unlink(CAP.c_str());
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++timeouts == 3) break; // code that hangs: what was recorded says so already
  }
  fclose(fin);
  return 0;
}
