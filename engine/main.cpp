// driver: reads case specifications from stdin (one per line), runs each in a forked child, prints one result line per case
#include "work.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <iostream>
extern int result_fd;
static std::string g_spec;
static uint8_t *shared_cov;
void emit_result(int code, const std::string &msg) {
  static bool once = false; if (once) return; once = true;
  std::string m = msg; for (auto &c : m) if (c == '\n' || c == '\t') c = ' ';
  char b[1600];
  snprintf(b, sizeof b, "{\"steps\":%llu,\"switches\":%llu,\"vol_reads\":%llu,\"vol_writes\":%llu,\"shm_reads\":%llu,\"shm_writes\":%llu,\"ubuf_reads\":%llu,\"ubuf_writes\":%llu,\"msgs\":%llu,\"bytes\":%llu,\"eager\":%llu,\"rendezvous\":%llu,\"colls\":%llu,\"race_checks\":%llu,\"mallocs\":%llu,\"frees\":%llu,\"segs\":%llu,\"results\":%llu,\"starts\":%llu,\"tests\":%llu,\"mixed\":%llu,\"bit_checks\":%llu,\"rhash\":%llu,\"frees_req\":%llu,\"text_passes\":%llu,\"hash\":%llu}",
    (unsigned long long)st.steps, (unsigned long long)st.switches, (unsigned long long)st.vol_reads, (unsigned long long)st.vol_writes, (unsigned long long)st.shm_reads, (unsigned long long)st.shm_writes, (unsigned long long)st.ubuf_reads, (unsigned long long)st.ubuf_writes, (unsigned long long)st.msgs, (unsigned long long)st.bytes, (unsigned long long)st.eager, (unsigned long long)st.rendezvous, (unsigned long long)st.colls, (unsigned long long)st.race_checks, (unsigned long long)st.mallocs, (unsigned long long)st.frees, (unsigned long long)st.segs, (unsigned long long)ws.results_checked, (unsigned long long)ws.starts, (unsigned long long)ws.tests, (unsigned long long)ws.extra, (unsigned long long)ws.bit_checks, (unsigned long long)ws.rhash, (unsigned long long)ws.frees, (unsigned long long)ws.text, (unsigned long long)st.sched_hash);
  std::string o = std::to_string(code) + "\t" + b + "\t" + m + "\n";
  if (shared_cov) for (size_t i = 0; i < cov_bits.size(); i++) if (cov_bits[i]) shared_cov[i] = 1;
  if (write(result_fd, o.data(), o.size()) < 0) {}
}
static void on_sig(int s, siginfo_t *si, void *) {
  char b[200];
  if (s == SIGALRM) snprintf(b, sizeof b, "timeout: wall clock budget of the case used up (rank %d)", cur);
  else snprintf(b, sizeof b, "crash: signal %d (%s) at address %p in rank %d", s, strsignal(s), si->si_addr, cur);
  std::string m = b;
  for (int r = 0; r < cfg.n; r++) if (!lib_output[r].empty()) { m += " | library said: " + lib_output[r].substr(lib_output[r].size() > 200 ? lib_output[r].size() - 200 : 0); break; }
  emit_result(s == SIGALRM ? 12 : 11, m);
  _exit(s == SIGALRM ? 12 : 11);
}
int main(int argc, char **argv) {
  const char *pat = nullptr; int nl = 16, tmo = 60; const char *asan_log = nullptr; const char *one = nullptr;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--libs") pat = argv[++i];
    else if (a == "--n") nl = atoi(argv[++i]);
    else if (a == "--timeout") tmo = atoi(argv[++i]);
    else if (a == "--log") asan_log = argv[++i];
    else if (a == "--one") one = argv[++i];
    else if (a == "-v") cfg.verbose++;
  }
  if (!pat) { fprintf(stderr, "--libs pattern needed\n"); return 3; }
  { // none of the caller's settings may influence the cases
    std::vector<std::string> del; for (char **e = environ; *e; e++) if (!strncmp(*e, "EXT_MPI", 7)) del.push_back(std::string(*e).substr(0, strchr(*e, '=') - *e));
    for (auto &d : del) unsetenv(d.c_str());
  }
  load_libs(pat, nl);
  bind_api(nl);
  if (one) {
    result_fd = 1; g_spec = one; run_case(one); emit_result(0, "ok"); return 0;
  }
  shared_cov = (uint8_t *)mmap(nullptr, cov_bits.size(), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::string line;
  long idx = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    int p[2]; if (pipe(p)) return 3;
    pid_t k = fork();
    if (k == 0) {
      close(p[0]); result_fd = p[1];
      int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
      if (asan_log) { int e = open((std::string(asan_log) + ".err").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (e >= 0) dup2(e, 2); }
      stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
      struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
      sigaction(SIGALRM, &sa, nullptr);
#if !defined(__SANITIZE_ADDRESS__)
      sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
#endif
      alarm(tmo);
      run_case(line);
      emit_result(0, "ok");
      _exit(0);
    }
    close(p[1]);
    std::string o; char b[8192]; ssize_t r;
    while ((r = read(p[0], b, sizeof b)) > 0) o.append(b, r);
    close(p[0]);
    int stt; waitpid(k, &stt, 0);
    if (o.empty()) {
      std::string m = WIFSIGNALED(stt) ? "crash: killed by signal " + std::to_string(WTERMSIG(stt)) : "crash: exit status " + std::to_string(WEXITSTATUS(stt));
      if (asan_log) {
        FILE *f = fopen((std::string(asan_log) + ".err").c_str(), "r");
        if (f) { char t[1000]; int n = 0; while (fgets(t, sizeof t, f) && n < 14) { if (strstr(t, "ERROR") || strstr(t, "runtime error") || strstr(t, "SUMMARY") || (strstr(t, "#") && n < 9)) { t[strcspn(t, "\n")] = 0; m += std::string(" | ") + t; n++; } } fclose(f); }
      }
      for (auto &c : m) if (c == '\t') c = ' ';
      o = "11\t{}\t" + m + "\n";
    }
    printf("%ld\t%s", idx, o.c_str()); fflush(stdout);
    idx++;
  }
  size_t c = 0; for (size_t i = 0; i < cov_bits.size(); i++) c += shared_cov[i];
  printf("#cov\t%zu\n", c);
  if (getenv("SIM_COV")) { FILE *f = fopen(getenv("SIM_COV"), "w"); for (size_t i = 0; i < cov_bits.size(); i++) if (shared_cov[i]) fprintf(f, "%zx\n", i); fclose(f); }
  return 0;
}
