// Runs a command under ptrace and observes or disturbs its file operations below one directory.
//   sysfault ROOT LOG MODE AT ARG CLASS -- command...
// MODE  count            only log
//       kill             SIGKILL at the entry of operation AT
//       torn             operation AT, a write, is executed with ARG percent of its bytes, then SIGKILL
//       error            operation AT fails with errno ARG (a close is executed, and reports ARG)
//       persist          operation AT and all later ones of CLASS fail with errno ARG
//       lose             operation AT, a close, fails with errno ARG, and the later half of the file is gone
//                        (as when writes are delayed until then)
//       short            operation AT, a write, is executed with half of its bytes (legal; must be continued)
//       full             after AT bytes were written in total, writes fail with ENOSPC (the last one is cut)
// CLASS all|write|create|rename|close|read|open : operations that are counted for AT
// The log has one line per operation: index, kind, path, size, what was done. Exit status is the command's;
// 137 if it was killed here, 125 on trouble of this tool.
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <string>
using std::string;

static string root;
static FILE * lg;

static string rdlink(const string & p) {
  char b[PATH_MAX]; ssize_t n = readlink(p.c_str(), b, sizeof b - 1);
  return n < 0 ? "" : string(b, n);
}
static string normal(const string & p) { // lexical
  string out; size_t i = 0;
  while (i < p.size()) {
    size_t j = p.find('/', i); if (j == string::npos) j = p.size();
    string c = p.substr(i, j - i);
    if (c == "..") { size_t k = out.rfind('/'); out = k == string::npos ? "" : out.substr(0, k); }
    else if (!c.empty() && c != ".") out += "/" + c;
    i = j + 1;
  }
  return out.empty() ? "/" : out;
}
static bool under(const string & p) { return p.compare(0, root.size(), root) == 0 && (p.size() == root.size() || p[root.size()] == '/'); }

static string peek_str(pid_t t, unsigned long a) {
  string s;
  if (!a) return s;
  while (s.size() < PATH_MAX) {
    errno = 0;
    long w = ptrace(PTRACE_PEEKDATA, t, (void *)(a & ~7ul), 0);
    if (errno) return s;
    for (unsigned k = a & 7; k < 8; ++k) { char c = ((char *)&w)[k]; if (!c) return s; s += c; }
    a = (a & ~7ul) + 8;
  }
  return s;
}
static string path_at(pid_t t, int dirfd, unsigned long a) {
  string p = peek_str(t, a);
  if (p.empty() || p[0] == '/') return normal(p);
  string d = "/proc/" + std::to_string(t);
  return normal((dirfd == AT_FDCWD ? rdlink(d + "/cwd") : rdlink(d + "/fd/" + std::to_string(dirfd))) + "/" + p);
}
static string fd_path(pid_t t, int fd) { return rdlink("/proc/" + std::to_string(t) + "/fd/" + std::to_string(fd)); }
static bool fd_writable(pid_t t, int fd) {
  FILE * f = fopen(("/proc/" + std::to_string(t) + "/fdinfo/" + std::to_string(fd)).c_str(), "r");
  if (!f) return false;
  char b[256]; bool w = false;
  while (fgets(b, sizeof b, f)) if (!strncmp(b, "flags:", 6)) w = (strtol(b + 6, NULL, 8) & O_ACCMODE) != O_RDONLY;
  fclose(f); return w;
}

struct Op { string kind, path; unsigned long size = 0; };

static bool classify(pid_t t, const user_regs_struct & r, Op & o) {
  long n = r.orig_rax;
  auto open_like = [&](int dfd, unsigned long pa, long flags) {
    o.path = path_at(t, dfd, pa);
    o.kind = (flags & (O_CREAT | O_TRUNC)) || (flags & O_ACCMODE) != O_RDONLY ? "create" : "open";
    return under(o.path);
  };
  switch (n) {
    case SYS_open: return open_like(AT_FDCWD, r.rdi, r.rsi);
    case SYS_openat: return open_like((int)r.rdi, r.rsi, r.rdx);
    case SYS_creat: return open_like(AT_FDCWD, r.rdi, O_CREAT | O_WRONLY | O_TRUNC);
    case SYS_write: case SYS_pwrite64: o.kind = "write"; o.path = fd_path(t, r.rdi); o.size = r.rdx; return under(o.path);
    case SYS_writev: case SYS_pwritev: {
      o.kind = "write"; o.path = fd_path(t, r.rdi);
      if (!under(o.path)) return false;
      for (unsigned long i = 0; i < r.rdx && i < 1024; ++i) o.size += ptrace(PTRACE_PEEKDATA, t, (void *)(r.rsi + 16 * i + 8), 0);
      return true;
    }
    case SYS_read: case SYS_pread64: case SYS_readv: case SYS_preadv: case SYS_getdents64: o.kind = "read"; o.path = fd_path(t, r.rdi); o.size = r.rdx; return under(o.path);
    case SYS_close: o.kind = "close"; o.path = fd_path(t, r.rdi); return under(o.path) && fd_writable(t, r.rdi);
    case SYS_fsync: case SYS_fdatasync: o.kind = "sync"; o.path = fd_path(t, r.rdi); return under(o.path);
    case SYS_rename: o.kind = "rename"; o.path = path_at(t, AT_FDCWD, r.rsi); return under(o.path) || under(path_at(t, AT_FDCWD, r.rdi));
    case SYS_renameat: case SYS_renameat2: o.kind = "rename"; o.path = path_at(t, (int)r.rdx, r.r10); return under(o.path) || under(path_at(t, (int)r.rdi, r.rsi));
    case SYS_link: o.kind = "rename"; o.path = path_at(t, AT_FDCWD, r.rsi); return under(o.path);
    case SYS_linkat: o.kind = "rename"; o.path = path_at(t, (int)r.rdx, r.r10); return under(o.path);
    case SYS_unlink: o.kind = "unlink"; o.path = path_at(t, AT_FDCWD, r.rdi); return under(o.path);
    case SYS_unlinkat: o.kind = "unlink"; o.path = path_at(t, (int)r.rdi, r.rsi); return under(o.path);
    case SYS_truncate: o.kind = "write"; o.path = path_at(t, AT_FDCWD, r.rdi); return under(o.path);
    case SYS_ftruncate: o.kind = "sync"; o.path = fd_path(t, r.rdi); return under(o.path);
    case SYS_mkdir: o.kind = "mkdir"; o.path = path_at(t, AT_FDCWD, r.rdi); return under(o.path);
    case SYS_mkdirat: o.kind = "mkdir"; o.path = path_at(t, (int)r.rdi, r.rsi); return under(o.path);
  }
  return false;
}

struct Th { bool in_syscall = false, started = false; bool fix = false; long ret = 0; bool fix_after = false; bool kill_after = false; };

int main(int argc, char ** argv) {
  if (argc < 9) return 125;
  char rp[PATH_MAX];
  root = realpath(argv[1], rp) ? rp : normal(argv[1]);
  lg = fopen(argv[2], "w"); if (!lg) return 125;
  string mode = argv[3]; long at = atol(argv[4]), arg = atol(argv[5]); string cls = argv[6];
  int c = 7; if (strcmp(argv[c], "--")) return 125; ++c;
  pid_t child = fork();
  if (child == 0) {
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    raise(SIGSTOP);
    execvp(argv[c], argv + c);
    _exit(127);
  }
  int st;
  if (waitpid(child, &st, 0) != child || !WIFSTOPPED(st)) return 125;
  if (ptrace(PTRACE_SETOPTIONS, child, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_TRACECLONE | PTRACE_O_TRACEFORK | PTRACE_O_TRACEVFORK | PTRACE_O_TRACEEXEC | PTRACE_O_EXITKILL) < 0) { perror("ptrace"); return 125; }
  std::map<pid_t, Th> th;
  th[child].started = true;
  ptrace(PTRACE_SYSCALL, child, 0, 0);
  long idx = 0, hits = 0; long long bytes = 0; bool killed = false, triggered = false;
  int status = 125;
  auto kill_all = [&] { killed = true; for (auto & kv : th) kill(kv.first, SIGKILL); kill(child, SIGKILL); };
  while (true) {
    pid_t t = waitpid(-1, &st, __WALL);
    if (t < 0) { if (errno == EINTR) continue; break; }
    if (WIFEXITED(st) || WIFSIGNALED(st)) {
      th.erase(t);
      if (t == child) status = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      if (th.empty()) break;
      continue;
    }
    if (!WIFSTOPPED(st)) continue;
    Th & T = th[t];
    int sig = WSTOPSIG(st);
    if (killed) { ptrace(PTRACE_SYSCALL, t, 0, 0); continue; }
    if (sig == (SIGTRAP | 0x80)) {
      T.in_syscall = !T.in_syscall;
      user_regs_struct r;
      if (ptrace(PTRACE_GETREGS, t, 0, &r) < 0) continue;
      if (T.in_syscall) {
        Op o;
        if (classify(t, r, o)) {
          bool reading = o.kind == "read" || o.kind == "open";
          bool counted = cls == "all" ? !reading && o.kind != "close" : cls == "read" ? reading : cls == o.kind;
          string done = "";
          if (counted) ++idx;
          bool here = counted && idx == at;
          auto fail = [&](long e) {
            done = "errno " + std::to_string(e); triggered = true;
            if (o.kind == "close") { T.fix_after = true; T.ret = -e; }
            else { r.orig_rax = (unsigned long)-1; ptrace(PTRACE_SETREGS, t, 0, &r); T.fix_after = true; T.ret = -e; }
          };
          auto cut = [&](unsigned long n) { // only plain writes have their length in rdx
            if (r.orig_rax == SYS_writev || r.orig_rax == SYS_pwritev) { // reduce to a prefix of the first vectors
              unsigned long left = n;
              for (unsigned long i = 0; i < r.rdx; ++i) {
                unsigned long l = ptrace(PTRACE_PEEKDATA, t, (void *)(r.rsi + 16 * i + 8), 0);
                if (l >= left) { ptrace(PTRACE_POKEDATA, t, (void *)(r.rsi + 16 * i + 8), (void *)left); r.rdx = i + 1; break; }
                left -= l;
              }
            } else r.rdx = n;
            ptrace(PTRACE_SETREGS, t, 0, &r);
            done = "cut to " + std::to_string(n); triggered = true;
          };
          if (mode == "kill" && here) { done = "killed"; triggered = true; kill_all(); }
          else if (mode == "torn" && here) {
            if (o.kind == "write" && o.size > 1) { cut(o.size * arg / 100); T.kill_after = true; }
            else { done = "killed"; triggered = true; kill_all(); }
          }
          else if (mode == "error" && here) fail(arg);
          else if (mode == "lose" && here) {
            if (o.kind == "close") { struct stat sb; if (!stat(o.path.c_str(), &sb) && truncate(o.path.c_str(), sb.st_size / 2)) perror("truncate"); }
            fail(arg);
          }
          else if (mode == "persist" && counted && idx >= at) fail(arg);
          else if (mode == "short" && here) { if (o.kind == "write" && o.size > 1) cut(o.size / 2); }
          else if (mode == "full" && o.kind == "write") {
            if (bytes >= at) fail(ENOSPC);
            else if (bytes + (long long)o.size > at) { cut(at - bytes); bytes = at; }
            else bytes += o.size;
          }
          fprintf(lg, "%ld %s %s %lu %s\n", counted ? idx : 0, o.kind.c_str(), o.path.c_str() + (under(o.path) ? root.size() : 0), o.size, done.c_str());
          fflush(lg);
        }
      } else {
        if (T.fix_after) { r.rax = T.ret; ptrace(PTRACE_SETREGS, t, 0, &r); T.fix_after = false; }
        if (T.kill_after) { T.kill_after = false; kill_all(); }
      }
      ptrace(PTRACE_SYSCALL, t, 0, 0);
      continue;
    }
    if (st >> 16) { // clone, fork, exec
      int ev = st >> 16;
      if (ev == PTRACE_EVENT_EXEC) T.in_syscall = true; // its exit stop follows
      ptrace(PTRACE_SYSCALL, t, 0, 0);
      continue;
    }
    if (!T.started) { T.started = true; if (sig == SIGSTOP) sig = 0; }
    ptrace(PTRACE_SYSCALL, t, 0, sig == SIGTRAP ? 0 : sig);
  }
  fprintf(lg, "end %ld triggered %d bytes %lld\n", idx, (int)triggered, bytes);
  fclose(lg);
  return killed ? 137 : status;
}
