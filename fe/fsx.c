// Runs build scripts under ptrace and controls every file system call they make:
// kills, fails or shortens the n-th one, or schedules several scripts call by call.
// Reads jobs from stdin (see lib/fsx.py), one line per fact:
//   R dir        scratch root: only calls on paths under it (and every modifying call) are operations
//   M            schedule: stop at visible operations
//   V p path     operations of process p on this path are visible to the others
//   P cwd        next process;  E k=v  its environment;  A arg  its argument vector;  O file  stdout and stderr
//   D path       may be removed by one of them; other directories are there to stay
//   F idx act n  in process 0, at modifying operation idx: kill | err n | short n | torn n
//   Q idx act n  the same, counting all operations
//   S 0110       schedule over visible operations; afterwards the same process as long as it lives, then the lowest
//   K p a b      once process p has ended, file a has to have the content of file b at every step
//   G            go
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXP 4
typedef uint64_t u64;
struct proc {
  char *cwd, *out, *env[400], *arg[64];
  int nenv, narg;
  pid_t pid;
  int live, status, nop, nmod;
  u64 hist;
  // the operation it is about to do
  struct op { int is, mod, visible; const char *name; char p1[PATH_MAX], p2[PATH_MAX]; long nr; int fault; long farg; int torn; } op;
} P[MAXP];
static int np;
static char root[PATH_MAX], sched[20000];
static struct { int p; char *path; } vis[2000];
static int nvis, scheduling;
static char *removable[500];
static int nrem;
static struct { int all, idx, act; long n; } fault[8];
static int nfault;
static struct { int p; char *a, *b; } keep[64];
static int nkeep;

static u64 fnv(u64 h, const void *d, size_t n) {
  const unsigned char *c = d;
  for (u64 w; n >= 8; c += 8, n -= 8) {
    memcpy(&w, c, 8);
    h = (h ^ w) * 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
  }
  while (n--) h = (h ^ *c++) * 1099511628211ull;
  return h;
}
static u64 fnvs(u64 h, const char *s) { return fnv(h, s, strlen(s) + 1); }

// paths below the root directory count relative to it
static u64 fnvp(u64 h, const char *s) {
  size_t n = strlen(root);
  const char *m;
  while (n && (m = strstr(s, root))) {
    h = fnvs(fnv(h, s, m - s), "@");
    s = m + n;
  }
  return fnvs(h, s);
}

static u64 filehash(const char *p, int *ok) {
  char buf[65536];
  u64 h = 14695981039346656037ull;
  int fd = open(p, O_RDONLY);
  *ok = fd >= 0;
  if (fd < 0) return h;
  ssize_t n;
  while ((n = read(fd, buf, sizeof buf)) > 0) h = fnv(h, buf, n);
  if (n < 0) *ok = 0;
  close(fd);
  return h;
}

static u64 treehash(const char *p) {
  struct stat st;
  if (lstat(p, &st)) return 1;
  u64 h = 7 + (st.st_mode & (S_IFMT | 0777));
  int ok;
  if (S_ISREG(st.st_mode)) return h * 31 + filehash(p, &ok);
  if (S_ISLNK(st.st_mode)) {
    char b[PATH_MAX];
    ssize_t n = readlink(p, b, sizeof b - 1);
    b[n < 0 ? 0 : n] = 0;
    return fnvp(h, b);
  }
  if (S_ISDIR(st.st_mode)) {
    DIR *d = opendir(p);
    struct dirent *e;
    u64 sum = 0;
    while (d && (e = readdir(d)))
      if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) {
        char q[PATH_MAX];
        if (snprintf(q, sizeof q, "%s/%s", p, e->d_name) >= (int)sizeof q) continue;
        u64 x = fnvs(treehash(q), e->d_name);
        sum += x * (x | 1);
      }
    if (d) closedir(d);
    return h * 1000003 + sum;
  }
  return h;
}

static int under(const char *p, const char *d) {
  size_t n = strlen(d);
  return n && !strncmp(p, d, n) && (p[n] == 0 || p[n] == '/');
}

static void readmem(pid_t pid, unsigned long a, void *buf, size_t n) {
  struct iovec l = {buf, n}, r = {(void *)a, n};
  if (process_vm_readv(pid, &l, 1, &r, 1, 0) < 0) memset(buf, 0, n);
}
static void readstr(pid_t pid, unsigned long a, char *out) {
  size_t n = 0;
  out[0] = 0;
  while (a && n < PATH_MAX - 1) {
    size_t m = 256 - (a + n) % 256;
    if (m > PATH_MAX - 1 - n) m = PATH_MAX - 1 - n;
    readmem(pid, a + n, out + n, m);
    if (memchr(out + n, 0, m)) return;
    n += m;
    out[n] = 0;
  }
}
static void fdpath(pid_t pid, int fd, char *out) {
  char l[64];
  snprintf(l, sizeof l, "/proc/%d/fd/%d", (int)pid, fd);
  ssize_t n = readlink(l, out, PATH_MAX - 1);
  out[n < 0 ? 0 : n] = 0;
}
// the absolute path of the entry itself: the parent resolved, the last component not
static void resolve(pid_t pid, int dirfd, const char *path, int follow, char *out) {
  char full[2 * PATH_MAX + 2], par[PATH_MAX], real[PATH_MAX];
  if (path[0] == '/') snprintf(full, sizeof full, "%s", path);
  else {
    if (dirfd == AT_FDCWD) {
      char l[64];
      snprintf(l, sizeof l, "/proc/%d/cwd", (int)pid);
      ssize_t n = readlink(l, par, sizeof par - 1);
      par[n < 0 ? 0 : n] = 0;
    } else fdpath(pid, dirfd, par);
    if (!path[0]) { snprintf(out, PATH_MAX, "%s", par); return; }
    snprintf(full, sizeof full, "%s/%s", par, path);
  }
  if (follow && realpath(full, real)) { snprintf(out, PATH_MAX, "%s", real); return; }
  size_t n = strlen(full);
  while (n > 1 && full[n - 1] == '/') full[--n] = 0;
  char *sl = strrchr(full, '/');
  if (!strcmp(sl, "/..") || !strcmp(sl, "/.")) {
    if (realpath(full, real)) snprintf(out, PATH_MAX, "%s", real); else snprintf(out, PATH_MAX, "%.4000s", full);
    return;
  }
  *sl = 0;
  if (realpath(sl == full ? "/" : full, real)) snprintf(out, PATH_MAX, "%.2000s/%.2000s", strcmp(real, "/") ? real : "", sl + 1);
  else snprintf(out, PATH_MAX, "?%.2000s/%.2000s", full, sl + 1);
  // following a dangling link: where it points to
  struct stat st;
  char lnk[PATH_MAX];
  for (int i = 0; follow && i < 10 && !lstat(out, &st) && S_ISLNK(st.st_mode); i++) {
    ssize_t k = readlink(out, lnk, sizeof lnk - 1);
    if (k < 0) break;
    lnk[k] = 0;
    char dir[PATH_MAX];
    snprintf(dir, sizeof dir, "%s", out);
    *strrchr(dir, '/') = 0;
    char nx[2 * PATH_MAX];
    if (lnk[0] == '/') snprintf(nx, sizeof nx, "%s", lnk); else snprintf(nx, sizeof nx, "%s/%s", dir, lnk);
    char *s2 = strrchr(nx, '/');
    *s2 = 0;
    if (realpath(s2 == nx ? "/" : nx, real)) snprintf(out, PATH_MAX, "%.2000s/%.2000s", real, s2 + 1);
    else { snprintf(out, PATH_MAX, "?%.2000s/%.2000s", nx, s2 + 1); break; }
  }
}

static void describe(struct proc *p, struct user_regs_struct *r) {
  struct op *o = &p->op;
  memset(o, 0, sizeof *o);
  o->nr = r->orig_rax;
  char a[PATH_MAX], b[PATH_MAX];
  pid_t pid = p->pid;
  int fd = 0, fl;
// of a path that ends at a link which is followed, the link itself is used as well
#define PATHOP(nm, dfd, addr, fol, m) do { o->name = nm; o->mod = m; readstr(pid, addr, a); resolve(pid, dfd, a, fol, o->p1); \
  if (fol) { resolve(pid, dfd, a, 0, o->p2); if (o->p2[0] == '?' || !strcmp(o->p1, o->p2)) o->p2[0] = 0; } } while (0)
#define FDOP(nm, m) do { o->name = nm; o->mod = m; fd = 1; fdpath(pid, (int)r->rdi, o->p1); } while (0)
#define TWO(dfd, addr) do { readstr(pid, addr, b); resolve(pid, dfd, b, 0, o->p2); } while (0)
  switch (r->orig_rax) {
  case SYS_open: fl = r->rsi; goto open_;
  case SYS_creat: fl = O_CREAT | O_WRONLY | O_TRUNC; goto open_;
  case SYS_openat: fl = r->rdx;
  open_: {
    // opening a file for writing that is there already changes nothing yet
    int m = (fl & (O_CREAT | O_TRUNC)) != 0;
    int fol = !(fl & O_NOFOLLOW) && !((fl & O_CREAT) && (fl & O_EXCL));
    if (r->orig_rax == SYS_openat) PATHOP(m ? "create" : "open", (int)r->rdi, r->rsi, fol, m);
    else PATHOP(m ? "create" : "open", AT_FDCWD, r->rdi, fol, m);
    break;
  }
  case SYS_stat: PATHOP("stat", AT_FDCWD, r->rdi, 1, 0); break;
  case SYS_lstat: PATHOP("lstat", AT_FDCWD, r->rdi, 0, 0); break;
  case SYS_newfstatat: PATHOP("stat", (int)r->rdi, r->rsi, !(r->r10 & AT_SYMLINK_NOFOLLOW), 0); break;
  case SYS_statx: PATHOP("stat", (int)r->rdi, r->rsi, !(r->rdx & AT_SYMLINK_NOFOLLOW), 0); break;
  case SYS_access: PATHOP("access", AT_FDCWD, r->rdi, 1, 0); break;
  case SYS_faccessat: case SYS_faccessat2: PATHOP("access", (int)r->rdi, r->rsi, 1, 0); break;
  case SYS_mkdir: PATHOP("mkdir", AT_FDCWD, r->rdi, 0, 1); break;
  case SYS_mkdirat: PATHOP("mkdir", (int)r->rdi, r->rsi, 0, 1); break;
  case SYS_rmdir: PATHOP("rmdir", AT_FDCWD, r->rdi, 0, 1); break;
  case SYS_unlink: PATHOP("unlink", AT_FDCWD, r->rdi, 0, 1); break;
  case SYS_unlinkat: PATHOP(r->rdx & AT_REMOVEDIR ? "rmdir" : "unlink", (int)r->rdi, r->rsi, 0, 1); break;
  case SYS_symlink: PATHOP("symlink", AT_FDCWD, r->rsi, 0, 1); readstr(pid, r->rdi, o->p2); break;
  case SYS_symlinkat: PATHOP("symlink", (int)r->rsi, r->rdx, 0, 1); readstr(pid, r->rdi, o->p2); break;
  case SYS_link: PATHOP("link", AT_FDCWD, r->rsi, 0, 1); TWO(AT_FDCWD, r->rdi); break;
  case SYS_linkat: PATHOP("link", (int)r->rdx, r->r10, 0, 1); TWO((int)r->rdi, r->rsi); break;
  case SYS_rename: PATHOP("rename", AT_FDCWD, r->rsi, 0, 1); TWO(AT_FDCWD, r->rdi); break;
  case SYS_renameat: case SYS_renameat2: PATHOP("rename", (int)r->rdx, r->r10, 0, 1); TWO((int)r->rdi, r->rsi); break;
  case SYS_readlink: PATHOP("readlink", AT_FDCWD, r->rdi, 0, 0); break;
  case SYS_readlinkat: PATHOP("readlink", (int)r->rdi, r->rsi, 0, 0); break;
  case SYS_chmod: case SYS_chown: case SYS_truncate: case SYS_utime: case SYS_utimes: PATHOP("change", AT_FDCWD, r->rdi, 1, 1); break;
  case SYS_lchown: PATHOP("change", AT_FDCWD, r->rdi, 0, 1); break;
  case SYS_fchmodat: case SYS_fchownat: case SYS_mknodat: PATHOP("change", (int)r->rdi, r->rsi, 1, 1); break;
  case SYS_utimensat: if (r->rsi) PATHOP("change", (int)r->rdi, r->rsi, 1, 1); else FDOP("change", 1); break;
  case SYS_write: case SYS_pwrite64: case SYS_writev: FDOP("write", 1); break;
  case SYS_ftruncate: case SYS_fchmod: case SYS_fchown: case SYS_fallocate: FDOP("fchange", 1); break;
  case SYS_read: case SYS_pread64: case SYS_readv: FDOP("read", 0); break;
  case SYS_getdents64: FDOP("list", 0); break;
  case SYS_fsync: case SYS_fdatasync: FDOP("sync", 0); break;
  case SYS_copy_file_range: o->name = "write"; o->mod = 1; fd = 1; fdpath(pid, (int)r->rdx, o->p1); break;
  case SYS_sendfile: FDOP("write", 1); break;
  default: return;
  }
  int in = under(o->p1, root) || under(o->p2, root) || (o->p1[0] == '?' && under(o->p1 + 1, root));
  // files only: not the standard streams, pipes and sockets
  if (fd && (o->p1[0] != '/' || (p->out && !strcmp(o->p1, p->out)))) return;
  o->is = in || (o->mod && !fd);
  for (int i = 0; i < nvis && !o->visible; i++)
    if (&P[vis[i].p] == p && (!strcmp(vis[i].path, o->p1 + (o->p1[0] == '?')) || (o->p2[0] == '/' && strcmp(o->name, "symlink") && !strcmp(vis[i].path, o->p2)))) o->visible = 1;
  if (o->visible && (!strcmp(o->name, "stat") || !strcmp(o->name, "lstat") || !strcmp(o->name, "readlink") || !strcmp(o->name, "access") || !strcmp(o->name, "mkdir"))) {
    // what is found out about a directory that stays does not depend on the others
    struct stat st;
    if (!lstat(o->p1, &st) && S_ISDIR(st.st_mode)) {
      o->visible = 0;
      for (int i = 0; i < nrem; i++) if (under(o->p1, removable[i])) o->visible = 1;
    }
  }
}

// only the calls that may be operations stop the process, when the kernel can filter them
static int filtering;
static int filter(void) {
  static const int nrs[] = {SYS_open, SYS_creat, SYS_openat, SYS_stat, SYS_lstat, SYS_newfstatat, SYS_statx, SYS_access, SYS_faccessat, SYS_faccessat2, SYS_mkdir, SYS_mkdirat, SYS_rmdir, SYS_unlink, SYS_unlinkat, SYS_symlink, SYS_symlinkat, SYS_link, SYS_linkat, SYS_rename, SYS_renameat, SYS_renameat2, SYS_readlink, SYS_readlinkat,
    SYS_chmod, SYS_chown, SYS_truncate, SYS_utime, SYS_utimes, SYS_lchown, SYS_fchmodat, SYS_fchownat, SYS_mknodat, SYS_utimensat, SYS_write, SYS_pwrite64, SYS_writev, SYS_ftruncate, SYS_fchmod, SYS_fchown, SYS_fallocate, SYS_read, SYS_pread64, SYS_readv, SYS_getdents64, SYS_fsync, SYS_fdatasync, SYS_copy_file_range, SYS_sendfile};
  enum { N = sizeof nrs / sizeof *nrs };
  struct sock_filter f[N + 3];
  f[0] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
  for (int i = 0; i < N; i++) f[i + 1] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, nrs[i], N - i, 0);
  f[N + 1] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[N + 2] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRACE);
  struct sock_fprog g = {N + 3, f};
  return prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &g);
}

// on to the entry (when filtering: of the next call of interest) or the exit of a call
static void run_to_stop(struct proc *p, int *dead, int entry) {
  int st, how = entry && filtering ? PTRACE_CONT : PTRACE_SYSCALL, want = entry && filtering ? SIGTRAP | PTRACE_EVENT_SECCOMP << 8 : SIGTRAP | 0x80;
  *dead = 0;
  if (ptrace(how, p->pid, 0, 0) || waitpid(p->pid, &st, 0) < 0) { *dead = 1; return; }
  while (WIFSTOPPED(st) && st >> 8 != want) {
    int s = WSTOPSIG(st);
    if (ptrace(how, p->pid, 0, (s & 0x7f) == SIGTRAP ? 0 : s) || waitpid(p->pid, &st, 0) < 0) { *dead = 1; return; }
  }
  if (!WIFSTOPPED(st)) { *dead = 1; p->status = st; }
}

static void ended(struct proc *p) {
  p->live = 0;
  p->op.is = 0;
  printf("X\t%d\t%d\n", (int)(p - P), WIFEXITED(p->status) ? WEXITSTATUS(p->status) : -WTERMSIG(p->status));
}

// executes the pending operation
static void step(struct proc *p) {
  struct user_regs_struct r;
  struct op *o = &p->op;
  int dead, act = 0;
  long n = 0;
  ptrace(PTRACE_GETREGS, p->pid, 0, &r);
  if (p == P)
    for (int i = 0; i < nfault; i++)
      if (fault[i].all ? fault[i].idx == p->nop : o->mod && fault[i].idx == p->nmod) act = fault[i].act, n = fault[i].n;
  if (act == 1) {
    kill(p->pid, SIGKILL);
    waitpid(p->pid, &p->status, 0);
    printf("O\t%d\t%d\t%d\t%s\t%s\t%s\tkilled\t%d\n", (int)(p - P), p->nop, o->mod ? p->nmod : -1, o->name, o->p1, o->p2, o->visible);
    ended(p);
    return;
  }
  if (act == 2) { r.orig_rax = -1; ptrace(PTRACE_SETREGS, p->pid, 0, &r); }
  int iswrite = r.orig_rax == SYS_write || r.orig_rax == SYS_pwrite64;
  if ((act == 3 || act == 4) && iswrite) {
    if (n < 0) n = (long)r.rdx + n;
    if (n < 0) n = 0;
    if ((long)r.rdx > n) { r.rdx = n; ptrace(PTRACE_SETREGS, p->pid, 0, &r); }
  }
  struct user_regs_struct r0 = r;
  run_to_stop(p, &dead, 0);
  if (dead) { ended(p); return; }
  ptrace(PTRACE_GETREGS, p->pid, 0, &r);
  if (act == 2) { r.rax = -n; ptrace(PTRACE_SETREGS, p->pid, 0, &r); }
  long ret = r.rax;
  p->hist = fnvp(fnvp(fnvs(p->hist, o->name), o->p1), o->p2);
  long sret = ret;
  if (!strcmp(o->name, "open") || !strcmp(o->name, "create")) sret = ret < 0 ? ret : 0;
  p->hist = fnv(p->hist, &sret, sizeof sret);
  if (ret >= 0) {
    static char buf[1 << 20];
    unsigned long at = 0, len = 0;
    if (o->nr == SYS_read || o->nr == SYS_pread64) at = r0.rsi, len = ret;
    else if (o->nr == SYS_readlink) at = r0.rsi, len = ret;
    else if (o->nr == SYS_readlinkat) at = r0.rdx, len = ret;
    else if (o->nr == SYS_statx) { readmem(p->pid, r0.r8 + 28, buf, 2); p->hist = fnv(p->hist, buf, 2); readmem(p->pid, r0.r8 + 40, buf, 8); if ((*(uint16_t *)(buf) || 1)) p->hist = fnv(p->hist, buf, 8); }
    if (len > sizeof buf) len = sizeof buf;
    if (len) { if (len > sizeof buf - 1) len = sizeof buf - 1; readmem(p->pid, at, buf, len); buf[len] = 0; p->hist = fnvp(p->hist, buf); }
  }
  printf("O\t%d\t%d\t%d\t%s\t%s\t%s\t%ld\t%d\n", (int)(p - P), p->nop, o->mod ? p->nmod : -1, o->name, o->p1, o->p2, ret, o->visible);
  p->nop++;
  if (o->mod) p->nmod++;
  if (act == 4) {
    kill(p->pid, SIGKILL);
    waitpid(p->pid, &p->status, 0);
    ended(p);
  }
}

// on to the entry of the next operation (or the end)
static void advance(struct proc *p) {
  while (p->live) {
    int dead;
    run_to_stop(p, &dead, 1);
    if (dead) { ended(p); return; }
    struct user_regs_struct r;
    ptrace(PTRACE_GETREGS, p->pid, 0, &r);
    describe(p, &r);
    if (p->op.is) {
      if (p->op.visible || !scheduling) return;
      step(p); // private
      continue;
    }
    if (filtering) continue;
    run_to_stop(p, &dead, 0);
    if (dead) { ended(p); return; }
  }
}

static void start(struct proc *p) {
  fflush(stdout);
  p->pid = fork();
  if (!p->pid) {
    ptrace(PTRACE_TRACEME, 0, 0, 0);
    if (p->out) { int f = open(p->out, O_CREAT | O_TRUNC | O_WRONLY, 0666); dup2(f, 1); dup2(f, 2); close(f); }
    int z = open("/dev/null", O_RDONLY);
    dup2(z, 0);
    if (z > 2) close(z);
    if (chdir(p->cwd)) _exit(121);
    p->arg[p->narg] = 0;
    p->env[p->nenv] = 0;
    if (filtering) { raise(SIGSTOP); filter(); }
    execve(p->arg[0], p->arg, p->env);
    _exit(122);
  }
  int st;
  waitpid(p->pid, &st, 0);
  if (!WIFSTOPPED(st)) { p->status = st; p->live = 1; ended(p); return; }
  ptrace(PTRACE_SETOPTIONS, p->pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | (filtering ? PTRACE_O_TRACESECCOMP : 0));
  p->live = 1;
  advance(p);
}

static void check_kept(int k) {
  for (int i = 0; i < nkeep; i++)
    if (!P[keep[i].p].live && P[keep[i].p].status == 0) {
      int o1, o2;
      u64 a = filehash(keep[i].a, &o1), b = filehash(keep[i].b, &o2);
      if (!o1 || !o2 || a != b) printf("B\t%d\t%d\t%s\t%s\n", k, keep[i].p, keep[i].a, !o1 ? "missing" : "different");
    }
}

static void go(void) {
  for (int i = 0; i < np; i++) start(&P[i]);
  int k = 0, ns = strlen(sched), last = -1;
  for (;; k++) {
    int en = 0, pick = -1;
    for (int i = np - 1; i >= 0; i--) if (P[i].live) en |= 1 << i, pick = i;
    if (scheduling) {
      check_kept(k);
      u64 h = treehash(root);
      for (int i = 0; i < np; i++) h = (h * 1000003) ^ (P[i].hist + P[i].live * 77 + (P[i].live ? 0 : P[i].status + 5));
      printf("H\t%d\t%d\t%016lx\n", k, en, h);
    }
    if (!en) break;
    if (last >= 0 && P[last].live) pick = last;
    if (k < ns && sched[k] != '.' && P[sched[k] - '0'].live) pick = sched[k] - '0';
    last = pick;
    step(&P[pick]);
    advance(&P[pick]);
  }
  printf(".\n");
  fflush(stdout);
}

int main(void) {
  static char line[1 << 20];
  struct proc *p = 0;
  setvbuf(stdout, 0, _IOFBF, 1 << 20);
  pid_t t = fork();
  if (!t) _exit(filter() ? 1 : 0);
  int tst;
  filtering = waitpid(t, &tst, 0) == t && tst == 0 && !getenv("FSX_NO_FILTER");
  while (fgets(line, sizeof line, stdin)) {
    line[strcspn(line, "\n")] = 0;
    char *v = line + 2;
    switch (line[0]) {
    case 'R': snprintf(root, sizeof root, "%s", v); break;
    case 'M': scheduling = 1; break;
    case 'D': if (nrem < 500) removable[nrem++] = strdup(v); break;
    case 'V': if (nvis < 2000) { vis[nvis].p = atoi(v); vis[nvis++].path = strdup(strchr(v, ' ') + 1); } break;
    case 'P': p = &P[np++]; memset(p, 0, sizeof *p); p->cwd = strdup(v); p->hist = 99; break;
    case 'E': p->env[p->nenv++] = strdup(v); break;
    case 'A': p->arg[p->narg++] = strdup(v); break;
    case 'O': p->out = strdup(v); break;
    case 'F': case 'Q': {
      char act[16] = "";
      fault[nfault].n = 0;
      sscanf(v, "%d %15s %ld", &fault[nfault].idx, act, &fault[nfault].n);
      fault[nfault].all = line[0] == 'Q';
      fault[nfault++].act = !strcmp(act, "kill") ? 1 : !strcmp(act, "err") ? 2 : !strcmp(act, "short") ? 3 : 4;
      break;
    }
    case 'S': snprintf(sched, sizeof sched, "%s", v); break;
    case 'K': { char *a = strchr(v, ' ') + 1, *b = strchr(a, ' '); *b++ = 0; keep[nkeep].p = atoi(v); keep[nkeep].a = strdup(a); keep[nkeep++].b = strdup(b); break; }
    case 'G':
      go();
      for (int i = 0; i < np; i++) {
        free(P[i].cwd); free(P[i].out);
        for (int j = 0; j < P[i].nenv; j++) free(P[i].env[j]);
        for (int j = 0; j < P[i].narg; j++) free(P[i].arg[j]);
      }
      for (int i = 0; i < nkeep; i++) free(keep[i].a), free(keep[i].b);
      for (int i = 0; i < nvis; i++) free(vis[i].path);
      for (int i = 0; i < nrem; i++) free(removable[i]);
      scheduling = nrem = np = nvis = nfault = nkeep = 0;
      sched[0] = 0;
      break;
    }
  }
  return 0;
}
