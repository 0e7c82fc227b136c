// File paths, and file operations over a model of the file system: the system calls the library makes are the functions below.
//@ entry h_path_join props=F01 shards=32 : every left path of 0..4 (thorough 5) and right path of 0..4 (thorough 5) arbitrary bytes, every overload, and appending a path or a part of it to itself
//@ entry h_path_parts props=F01 shards=16 : every path of 0..7 (thorough 9) arbitrary bytes
//@ entry h_file_load props=F02 shards=16 : a file of 0..5 (thorough 7) arbitrary bytes, every chunking of the reads, up to 2 failing calls, the file being truncated after its size was taken; missing files, directories, links
//@ entry h_file_copy props=F02 shards=32 : source of 0..3 (thorough 4) arbitrary bytes, every chunking of reads and writes, up to 2 failing calls, destination missing, existing and longer or shorter, a directory, a link, the source itself, a missing directory
//@ entry h_file_copy_big props=F02 shards=8 : source of 65535..65537 and 131072 bytes over an existing longer one
//@ entry h_file_mkdir props=F03 shards=32 : every path of 1..3 (thorough 4) elements out of 2 names, "." and the empty one, absolute and relative, with trailing separators; every existing prefix; a file or a link in the way; up to 2 failing calls
//@ entry h_file_remove_all props=F03 shards=64 : every tree of up to 4 (thorough 5) entries (files, directories, links to a file and to a directory outside, dangling links, named pipes), up to 2 failing calls
//@ entry h_file_remove props=F03 shards=8 : each kind of entry, up to 2 failing calls
//@ entry h_file_query props=F04 shards=16 : arbitrary mode, size and times (seconds below 2^33), every errno
//@ entry h_file_where props=F04 shards=16 : absolute and canonical paths of files, links, missing ones; working directories of any length up to 5000; every combination of the temporary directory variables
//@ entry h_unique_fd props=F02 shards=2 : every descriptor value
//@ srcs: swoc_file bw_format TextView string_view_util ArenaWriter MemArena RBTree
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <string>
#include <system_error>
#include "vf.h"
#include "swoc/swoc_file.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
using swoc::TextView;
using swoc::file::path;
namespace file = swoc::file;

// ---- the model of the file system
namespace fs
{
enum Kind : uint8_t { NONE, REG, DIRECTORY, LINK, PIPE };
static const size_t BIG = 140000;
struct Node {
  Kind kind;
  int parent;
  char name[8];
  int target; // of a link, -1: dangling
  mode_t mode;
  size_t size;
  unsigned store; // of a file
};
static const int MAX = 16;
static Node nodes[MAX]; // 0 is the root
static char data[2][BIG], small[MAX][16];
static int cwd;
static unsigned stores;
static char *bytes(Node &n) { return n.store < 2 ? data[n.store] : small[n.store - 2]; }
static size_t room(Node &n) { return n.store < 2 ? BIG : 16; }
static int add(Kind k, int parent, const char *name, mode_t mode = 0644)
{
  for (int i = 0; i < MAX; ++i)
    if (nodes[i].kind == NONE) {
      nodes[i].kind = k;
      nodes[i].parent = parent;
      strcpy(nodes[i].name, name);
      nodes[i].mode = mode;
      nodes[i].target = -1;
      nodes[i].size = 0;
      nodes[i].store = i + 2;
      return i;
    }
  sym_fail("model: too many entries");
}
static int child(int dir, const char *s, size_t n)
{
  if (n == 1 && s[0] == '.')
    return dir;
  if (n == 2 && s[0] == '.' && s[1] == '.')
    return nodes[dir].parent;
  for (int i = 1; i < MAX; ++i)
    if (nodes[i].kind != NONE && nodes[i].parent == dir && strlen(nodes[i].name) == n && memcmp(nodes[i].name, s, n) == 0)
      return i;
  return -1;
}
// Faults.
static unsigned faults, faulted;
static int denied; // what access() refuses
static int fault_errno = EIO;
static bool fault(const char *what)
{
  if (faults && sym_pick(2, what)) {
    --faults;
    ++faulted;
    errno = fault_errno;
    return true;
  }
  return false;
}
// Find the node for a path, -1 if none with errno. @a dir and @a last are for the last element.
static int g_dir;
static char g_last[16];
static bool g_slash;
static int find(const char *p, bool follow)
{
  g_dir = -1;
  g_last[0] = 0;
  g_slash = false;
  if (!*p) {
    errno = ENOENT;
    return -1;
  }
  int at = *p == '/' ? 0 : cwd;
  g_dir = at;
  while (true) {
    while (*p == '/')
      ++p;
    if (!*p)
      return at;
    size_t n = 0;
    while (p[n] && p[n] != '/')
      ++n;
    if (n >= sizeof(g_last)) {
      errno = ENAMETOOLONG;
      return -1;
    }
    size_t m = n;
    while (p[m] == '/')
      ++m;
    bool last = !p[m];
    if (nodes[at].kind != DIRECTORY) {
      errno = ENOTDIR;
      g_dir = -1;
      return -1;
    }
    g_dir = at;
    memcpy(g_last, p, n);
    g_last[n] = 0;
    g_slash = last && m != n;
    int c = child(at, p, n);
    if (c < 0) {
      if (!last)
        g_dir = -1;
      errno = ENOENT;
      return -1;
    }
    if (nodes[c].kind == LINK && (!last || follow || g_slash)) {
      c = nodes[c].target;
      if (c < 0) {
        if (!last)
          g_dir = -1;
        errno = ENOENT;
        return -1;
      }
    }
    if (g_slash && nodes[c].kind != DIRECTORY) {
      errno = ENOTDIR;
      return -1;
    }
    at = c;
    p += n;
  }
}
static mode_t type(Kind k) { return k == REG ? S_IFREG : k == DIRECTORY ? S_IFDIR : k == LINK ? S_IFLNK : S_IFIFO; }
static void fill(int i, struct ::stat *s)
{
  memset(s, 0, sizeof(*s));
  s->st_mode = type(nodes[i].kind) | nodes[i].mode;
  s->st_size = nodes[i].kind == REG ? nodes[i].size : 4096;
  s->st_ino = i + 1;
  s->st_dev = 7;
  s->st_nlink = 1;
}
static bool empty(int d)
{
  for (int i = 1; i < MAX; ++i)
    if (nodes[i].kind != NONE && nodes[i].parent == d)
      return false;
  return true;
}
static struct {
  int node = -1;
  size_t pos = 0;
  int flags = 0;
} fds[8];
static int open_fds;
static bool bad_close, chunked;
static int truncate_node = -1; // truncated once its size has been asked for
static size_t truncate_size;
static size_t chunk(size_t n, const char *what)
{
  if (n < 2 || !chunked)
    return n;
  return n - sym_pick(n, what);
}
static int do_open(int dir_fd, const char *p, int flags, mode_t mode)
{
  (void)dir_fd;
  if (fault("open"))
    return -1;
  int i = find(p, !(flags & O_NOFOLLOW));
  if (i < 0) {
    if (errno != ENOENT || !(flags & O_CREAT) || g_dir < 0)
      return -1;
    if (g_slash) {
      errno = EISDIR;
      return -1;
    }
    if (child(g_dir, g_last, strlen(g_last)) >= 0) // dangling link
      return -1;
    i = add(REG, g_dir, g_last, mode & 07777);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) {
      errno = EEXIST;
      return -1;
    }
    if (nodes[i].kind == LINK) {
      errno = ELOOP;
      return -1;
    }
    if (nodes[i].kind == DIRECTORY && (flags & O_ACCMODE) != O_RDONLY) {
      errno = EISDIR;
      return -1;
    }
    if (nodes[i].kind != DIRECTORY && (flags & O_DIRECTORY)) {
      errno = ENOTDIR;
      return -1;
    }
    if ((flags & O_TRUNC) && nodes[i].kind == REG)
      nodes[i].size = 0;
  }
  for (int f = 3; f < 8; ++f)
    if (fds[f].node < 0) {
      fds[f].node = i;
      fds[f].pos = 0;
      fds[f].flags = flags;
      ++open_fds;
      return f;
    }
  errno = EMFILE;
  return -1;
}
static int valid(int fd)
{
  if (fd >= 3 && fd < 8 && fds[fd].node >= 0)
    return fds[fd].node;
  errno = EBADF;
  return -1;
}
static void reset()
{
  errno = ENOTTY; // of some call before
  nodes[0].kind = DIRECTORY;
  nodes[0].mode = 0755;
  nodes[0].parent = 0;
  cwd = add(DIRECTORY, 0, "vfw", 0755);
}
struct Snapshot {
  Node n[MAX];
  Snapshot() { memcpy(n, nodes, sizeof(n)); }
  // everything but the nodes in the set is as it was
  bool same(int i) const { return memcmp(&n[i], &nodes[i], sizeof(Node)) == 0; }
};
} // namespace fs
struct DirHandle {
  int node, next;
  bool open;
  struct dirent e;
};
static DirHandle dirs[8];
static int open_dirs;
static struct ::stat any_stat; // for h_file_query
static int any_errno;
static bool any_mode;
static const char *env[4];
static size_t cwd_size;

extern "C" {
// The engine calls these for the variadic ones.
__attribute__((used, noinline)) int vf_open(const char *p, int flags, mode_t mode) { return fs::do_open(AT_FDCWD, p, flags, mode); }
__attribute__((used, noinline)) int vf_openat(int d, const char *p, int flags, mode_t mode)
{
  CHECKM(d == AT_FDCWD, "model: openat");
  return fs::do_open(d, p, flags, mode);
}
int open(const char *p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return vf_open(p, flags, mode);
}
int openat(int d, const char *p, int flags, ...)
{
  va_list ap;
  va_start(ap, flags);
  mode_t mode = flags & O_CREAT ? va_arg(ap, mode_t) : 0;
  va_end(ap);
  return vf_openat(d, p, flags, mode);
}
int creat(const char *p, mode_t mode) { return fs::do_open(AT_FDCWD, p, O_WRONLY | O_CREAT | O_TRUNC, mode); }
int close(int fd)
{
  if (fs::valid(fd) < 0) {
    fs::bad_close = true;
    return -1;
  }
  fs::fds[fd].node = -1;
  --fs::open_fds;
  return 0;
}
static ssize_t read_at(int i, void *b, size_t n, size_t pos)
{
  auto &f = fs::nodes[i];
  if (f.kind == fs::DIRECTORY) {
    errno = EISDIR;
    return -1;
  }
  size_t k = pos < f.size ? f.size - pos : 0;
  k = fs::chunk(k < n ? k : n, "read");
  memcpy(b, fs::bytes(f) + pos, k);
  return k;
}
ssize_t read(int fd, void *b, size_t n)
{
  int i = fs::valid(fd);
  if (i < 0 || fs::fault("read_fails"))
    return -1;
  ssize_t k = read_at(i, b, n, fs::fds[fd].pos);
  if (k > 0)
    fs::fds[fd].pos += k;
  return k;
}
ssize_t pread(int fd, void *b, size_t n, off_t pos)
{
  int i = fs::valid(fd);
  if (i < 0 || fs::fault("read_fails"))
    return -1;
  return read_at(i, b, n, pos);
}
static ssize_t write_at(int i, const void *b, size_t n, size_t pos)
{
  auto &f = fs::nodes[i];
  size_t k = fs::chunk(n, "write");
  if (pos + k > fs::room(f)) {
    errno = ENOSPC;
    return -1;
  }
  if (pos > f.size)
    memset(fs::bytes(f) + f.size, 0, pos - f.size);
  memcpy(fs::bytes(f) + pos, b, k);
  if (pos + k > f.size)
    f.size = pos + k;
  return k;
}
ssize_t write(int fd, const void *b, size_t n)
{
  int i = fs::valid(fd);
  if (i < 0 || fs::fault("write_fails"))
    return -1;
  if ((fs::fds[fd].flags & O_ACCMODE) == O_RDONLY) {
    errno = EBADF;
    return -1;
  }
  if (fs::fds[fd].flags & O_APPEND)
    fs::fds[fd].pos = fs::nodes[i].size;
  ssize_t k = write_at(i, b, n, fs::fds[fd].pos);
  if (k > 0)
    fs::fds[fd].pos += k;
  return k;
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t pos)
{
  int i = fs::valid(fd);
  if (i < 0 || fs::fault("write_fails"))
    return -1;
  return write_at(i, b, n, pos);
}
off_t lseek(int fd, off_t off, int how) noexcept
{
  int i = fs::valid(fd);
  if (i < 0)
    return -1;
  size_t base = how == SEEK_SET ? 0 : how == SEEK_CUR ? fs::fds[fd].pos : fs::nodes[i].size;
  return fs::fds[fd].pos = base + off;
}
int ftruncate(int fd, off_t n) noexcept
{
  int i = fs::valid(fd);
  if (i < 0 || fs::fault("ftruncate_fails"))
    return -1;
  auto &f = fs::nodes[i];
  if (f.kind != fs::REG || size_t(n) > fs::room(f)) {
    errno = EINVAL;
    return -1;
  }
  if (size_t(n) > f.size)
    memset(fs::bytes(f) + f.size, 0, n - f.size);
  f.size = n;
  return 0;
}
int truncate(const char *p, off_t n) noexcept
{
  int i = fs::find(p, true);
  if (i < 0 || fs::fault("truncate_fails"))
    return -1;
  if (fs::nodes[i].kind != fs::REG) {
    errno = EINVAL;
    return -1;
  }
  fs::nodes[i].size = n;
  return 0;
}
static int do_stat(const char *p, struct stat *s, bool follow)
{
  if (any_mode) {
    if (any_errno) {
      errno = any_errno;
      return -1;
    }
    *s = any_stat;
    return 0;
  }
  if (fs::fault("stat_fails"))
    return -1;
  int i = fs::find(p, follow);
  if (i < 0)
    return -1;
  fs::fill(i, s);
  return 0;
}
int stat(const char *p, struct stat *s) noexcept { return do_stat(p, s, true); }
int lstat(const char *p, struct stat *s) noexcept { return do_stat(p, s, false); }
int fstatat(int d, const char *p, struct stat *s, int flags) noexcept
{
  CHECKM(d == AT_FDCWD, "model: fstatat");
  return do_stat(p, s, !(flags & AT_SYMLINK_NOFOLLOW));
}
int fstat(int fd, struct stat *s) noexcept
{
  int i = fs::valid(fd);
  if (i < 0 || fs::fault("fstat_fails"))
    return -1;
  fs::fill(i, s);
  if (i == fs::truncate_node)
    fs::nodes[i].size = fs::truncate_size;
  return 0;
}
int unlink(const char *p) noexcept
{
  if (fs::fault("unlink_fails"))
    return -1;
  int i = fs::find(p, false);
  if (i < 0)
    return -1;
  if (fs::nodes[i].kind == fs::DIRECTORY) {
    errno = EISDIR;
    return -1;
  }
  fs::nodes[i].kind = fs::NONE;
  return 0;
}
int rmdir(const char *p) noexcept
{
  if (fs::fault("rmdir_fails"))
    return -1;
  int i = fs::find(p, false);
  if (i < 0)
    return -1;
  if (fs::nodes[i].kind != fs::DIRECTORY) {
    errno = ENOTDIR;
    return -1;
  }
  if (i == 0 || !fs::empty(i)) {
    errno = ENOTEMPTY;
    return -1;
  }
  fs::nodes[i].kind = fs::NONE;
  return 0;
}
int unlinkat(int d, const char *p, int flags) noexcept
{
  CHECKM(d == AT_FDCWD, "model: unlinkat");
  return flags & AT_REMOVEDIR ? rmdir(p) : unlink(p);
}
int remove(const char *p) noexcept
{
  int i = fs::find(p, false);
  return i >= 0 && fs::nodes[i].kind == fs::DIRECTORY ? rmdir(p) : unlink(p);
}
int rename(const char *, const char *) noexcept { sym_fail("model: rename"); }
int mkdir(const char *p, mode_t mode) noexcept
{
  if (fs::fault("mkdir_fails"))
    return -1;
  int i = fs::find(p, false);
  if (i >= 0 || (fs::g_dir >= 0 && fs::child(fs::g_dir, fs::g_last, strlen(fs::g_last)) >= 0)) {
    errno = EEXIST;
    return -1;
  }
  if (fs::g_dir < 0)
    return -1;
  fs::add(fs::DIRECTORY, fs::g_dir, fs::g_last, mode & 07777);
  return 0;
}
DIR *opendir(const char *p)
{
  if (fs::fault("opendir_fails"))
    return nullptr;
  int i = fs::find(p, true);
  if (i < 0)
    return nullptr;
  if (fs::nodes[i].kind != fs::DIRECTORY) {
    errno = ENOTDIR;
    return nullptr;
  }
  for (auto &d : dirs)
    if (!d.open) {
      d.open = true;
      d.node = i;
      d.next = -2;
      ++open_dirs;
      return reinterpret_cast<DIR *>(&d);
    }
  errno = EMFILE;
  return nullptr;
}
struct dirent *readdir(DIR *dir)
{
  auto d = reinterpret_cast<DirHandle *>(dir);
  CHECKM(d->open, "model: readdir of a closed directory");
  memset(&d->e, 0, sizeof(d->e));
  while (d->next < fs::MAX) {
    int i = d->next++;
    if (i < 0) {
      strcpy(d->e.d_name, i == -2 ? "." : "..");
      return &d->e;
    }
    if (i > 0 && fs::nodes[i].kind != fs::NONE && fs::nodes[i].parent == d->node) {
      strcpy(d->e.d_name, fs::nodes[i].name);
      auto k = fs::nodes[i].kind;
      d->e.d_type = k == fs::REG ? DT_REG : k == fs::DIRECTORY ? DT_DIR : k == fs::LINK ? DT_LNK : DT_FIFO;
      d->e.d_ino = i + 1;
      return &d->e;
    }
  }
  return nullptr;
}
int closedir(DIR *dir)
{
  auto d = reinterpret_cast<DirHandle *>(dir);
  CHECKM(d->open, "a directory is closed once");
  d->open = false;
  --open_dirs;
  return 0;
}
int access(const char *p, int mode) noexcept
{
  if (fs::fault("access_fails"))
    return -1;
  if (fs::find(p, true) < 0)
    return -1; // errno is set
  if (mode & fs::denied) {
    errno = EACCES;
    return -1;
  }
  return 0;
}
static size_t full_path(int i, char *out)
{
  if (i == 0)
    return 0;
  size_t n = full_path(fs::nodes[i].parent, out);
  out[n++] = '/';
  strcpy(out + n, fs::nodes[i].name);
  return n + strlen(fs::nodes[i].name);
}
char *realpath(const char *p, char *out) noexcept
{
  if (fs::fault("realpath_fails"))
    return nullptr;
  int i = fs::find(p, true);
  if (i < 0)
    return nullptr;
  char tmp[256];
  size_t n = full_path(i, tmp);
  if (!n)
    tmp[n++] = '/';
  tmp[n] = 0;
  if (!out)
    out = static_cast<char *>(malloc(n + 1));
  memcpy(out, tmp, n + 1);
  return out;
}
char *getcwd(char *out, size_t n) noexcept
{
  if (fs::fault("getcwd_fails"))
    return nullptr;
  if (cwd_size + 1 > n) {
    errno = ERANGE;
    return nullptr;
  }
  CHECK(out != nullptr);
  memset(out, 'd', cwd_size);
  out[0] = '/';
  out[cwd_size] = 0;
  return out;
}
char *get_current_dir_name() noexcept
{
  if (fs::fault("getcwd_fails"))
    return nullptr;
  char *out = static_cast<char *>(malloc(cwd_size + 1));
  memset(out, 'd', cwd_size);
  out[0] = '/';
  out[cwd_size] = 0;
  return out;
}
char *getenv(const char *n) noexcept
{
  static const char *names[] = {"TMPDIR", "TMP", "TEMP", "TEMPDIR"};
  for (unsigned i = 0; i < 4; ++i)
    if (!strcmp(n, names[i]))
      return const_cast<char *>(env[i]);
  return nullptr;
}
}
static void check_closed()
{
  CHECKM(all(fs::open_fds == 0, open_dirs == 0, !fs::bad_close), "everything opened is closed once");
}
static std::error_code some_code(bool set) { return set ? std::error_code(ENXIO, std::system_category()) : std::error_code(); }
static bool same_text(std::string_view a, std::string_view b)
{
  if (a.size() != b.size())
    return false;
  bool s = true;
  for (size_t i = 0; i < a.size(); ++i)
    s = all(s, a[i] == b[i]);
  return s;
}
// ---- paths
HARNESS(h_path_join)
{
  const size_t N = BOUND(5, 6);
  size_t n = sym_split(N, "n"), m = sym_split(N, "m");
  Block a(n, "a"), b(m, "b");
  std::string_view va{a.p, n}, vb{b.p, m};
  path r;
  unsigned op = sym_split(9, "op");
  uint64_t live = sym_heap_live();
  (void)live;
  if (op == 8) { // to itself, or a part of itself
    std::string longer(n ? sym_pick(2, "long") * 30 : 0, 'p'); // not only short strings
    longer += va;
    path p{std::string_view(longer)};
    size_t from = n ? sym_pick(n, "from") : 0;
    if (sym_pick(2, "whole")) {
      from = 0;
      CHECK(&(p /= p) == &p);
    } else
      CHECK(&(p /= std::string_view(p.string()).substr(from)) == &p);
    std::string all_of(longer.substr(0, longer.size() - n));
    size_t pad = all_of.size();
    if (pad) { // p + p or p + part
      all_of += va;
      size_t k = all_of.size();
      bool replace = longer[from] == '/';
      std::string want;
      if (!replace) {
        want = all_of;
        if (want[k - 1] != '/')
          want += '/';
      }
      want.append(all_of, from);
      CHECKM(same_text(p.string(), want), "joined path");
      return;
    }
    r = p;
    vb = va.substr(from);
    m = vb.size();
  } else if (op == 0) {
    path p(va);
    path const q(vb);
    CHECK(&(p /= q) == &p);
    CHECK(same_text(q.string(), vb));
    r = p;
  } else if (op == 1) {
    path p(va);
    CHECK(&(p /= vb) == &p);
    r = std::move(p);
  } else if (op == 2) {
    path const p(va), q(vb);
    r = p / q;
    CHECK(all(same_text(p.string(), va), same_text(q.string(), vb)));
  } else if (op == 3) {
    path const p(va);
    r = p / vb;
    CHECK(same_text(p.view(), va));
  } else if (op == 4) {
    r = path(va) / path(vb);
  } else if (op == 5) {
    r = path(va) / vb;
  } else if (op == 6) {
    path p;
    p = std::string(va);
    std::string s(vb);
    p.reserve(sym_pick(2, "reserve") ? 40 : 0);
    p /= std::string_view(s);
    r = p;
  } else {
    std::string s(va), t(vb);
    path p(s), q(std::move(t));
    CHECK(same_text(s, va));
    r = p / q;
  }
  // oracle
  char want[24];
  size_t k = 0;
  bool replace = m && vb[0] == 0x2f;
  if (m == 0) {
    memcpy(want, a.p, n);
    k = n;
  } else {
    if (!replace) {
      memcpy(want, a.p, n);
      k = n;
      if (n && a.p[n - 1] != '/')
        want[k++] = '/';
    }
    memcpy(want + k, vb.data(), m);
    k += m;
  }
  CHECKM(same_text(r.string(), {want, k}), "joined path");
  CHECK(all(same_text(r.view(), {want, k}), r.c_str()[k] == 0, r.empty() == (k == 0)));
  REACH("done");
}
HARNESS(h_path_parts)
{
  const size_t N = BOUND(8, 10);
  size_t n = sym_split(N, "n");
  Block a(n, "a");
  std::string_view v{a.p, n};
  path p(v);
  bool abs = n && a.p[0] == '/';
  CHECK(all(p.is_absolute() == abs, p.is_relative() == !abs, p.empty() == (n == 0)));
  unsigned op = sym_split(3, "op");
  size_t s = n; // one past the last separator
  if (op < 2)
    while (s > 0 && a.p[s - 1] != '/')
      --s;
  if (op == 0) {
    path f = p.filename();
    CHECKM(same_text(f.string(), v.substr(s)), "file name: what is after the last separator");
  } else if (op == 1) {
    path f = p.parent_path();
    if (n == 0 || (s > 1 && a.p[s - 2] == '/')) {
      // the parent of nothing, and of an element after several separators, is not specified
    } else if (s == 0)
      CHECKM(f.empty(), "a path of one element has no parent path");
    else if (s == 1)
      CHECKM(same_text(f.string(), "/"), "parent is the root");
    else
      CHECKM(same_text(f.string(), v.substr(0, s - 1)), "parent: what is before the last separator");
    if (s < n && !(s > 1 && a.p[s - 2] == '/'))
      CHECKM((f / p.filename()) == p, "parent and file name make up the path");
  } else {
    path f = p.relative_path();
    if (n > 1 && a.p[0] == '/' && a.p[1] == '/') {
      // not specified
    } else
      CHECKM(same_text(f.string(), v.substr(abs)), "relative path: without the root");
    path q(p), z(a.n ? std::string_view(a.p, n - 1) : v);
    CHECK(all(q == p, !(q != p), std::hash<path>()(q) == std::hash<path>()(p)));
    CHECK(all((z == p) == (n == 0), (z != p) == (n != 0)));
    path t;
    t = v;
    CHECK(t == p);
    t = std::string(v);
    CHECK(t == p);
    path const c(p);
    t = path();
    t = c;
    CHECK(t == p);
    char out[32];
    swoc::FixedBufferWriter w(out, sizeof(out));
    bwformat(w, swoc::bwf::Spec::DEFAULT, p);
    CHECKM(same_text(w.view(), v), "printed path");
    if (n) { // some other path of the same size
      std::string o(v);
      char x = sym_u8("other");
      o[n / 2] = x;
      CHECKM((path(o) == p) == (x == a.p[n / 2]), "compares the text");
    }
    CHECK(same_text(p.string(), v));
  }
  REACH("done");
}
// ---- load and copy
static int add_file(int dir, const char *name, size_t n, const char *label, mode_t mode = 0640)
{
  int i = fs::add(fs::REG, dir, name, mode);
  fs::nodes[i].size = n;
  for (size_t k = 0; k < n; ++k)
    fs::bytes(fs::nodes[i])[k] = sym_u8(label);
  return i;
}
HARNESS(h_file_load)
{
  fs::reset();
  size_t n = sym_split(BOUND(6, 8), "n");
  unsigned what = sym_split(6, "what");
  fs::faults = sym_split(3, "faults");
  fs::chunked = true;
  std::error_code ec = some_code(sym_pick(2, "stale"));
  char copy[16];
  int f = add_file(fs::cwd, "f", n, "byte");
  memcpy(copy, fs::bytes(fs::nodes[f]), n);
  const char *p = "f";
  bool missing = false, dir = false;
  if (what == 1)
    p = "/vfw/f";
  else if (what == 2) {
    int l = fs::add(fs::LINK, fs::cwd, "l");
    fs::nodes[l].target = f;
    p = "l";
  } else if (what == 3) {
    p = "none";
    missing = true;
  } else if (what == 4) {
    fs::add(fs::DIRECTORY, fs::cwd, "d");
    p = "d";
    dir = true;
  } else if (what == 5) { // truncated after fstat
    if (n == 0)
      return;
    fs::truncate_node = f;
    fs::truncate_size = sym_pick(n, "left");
  }
  std::string s = file::load(path(std::string_view(p)), ec);
  check_closed();
  if (missing || dir) {
    CHECKM(bool(ec), "an error is reported");
    if (missing && !fs::faulted)
      CHECK(ec.value() == ENOENT);
  } else {
    if (!fs::faulted)
      CHECKM(!ec, "no error without a failing call");
    if (!ec) {
      size_t want = what == 5 ? fs::truncate_size : n;
      CHECKM(same_text(s, {copy, want}), "exactly the content of the file");
    } else
      CHECKM(ec.category() == std::system_category() && ec.value() == EIO, "the error of the failing call");
  }
  REACH("done");
}
HARNESS(h_file_copy)
{
  using namespace fs;
  reset();
  size_t n = sym_split(BOUND(4, 5), "n");
  unsigned what = sym_split(9, "what");
  faults = sym_split(3, "faults");
  chunked = true;
  std::error_code ec = some_code(sym_pick(2, "stale"));
  char src[16];
  int f = add_file(cwd, "f", n, "byte", 0640);
  memcpy(src, bytes(nodes[f]), n);
  int d = fs::add(DIRECTORY, cwd, "d", 0755), other = add_file(d, "o", 1, "other");
  const char *from = "f", *to = "t";
  int t = -1;     // existing destination
  bool ok = true; // expected to succeed
  int in = cwd;
  const char *name = "t";
  switch (what) {
  case 0: // new file
    break;
  case 1: { // existing file
    size_t m = sym_split(6, "m");
    t = add_file(cwd, "t", m, "old", 0600);
    break;
  }
  case 2: // into a directory
    to = sym_pick(2, "slash") ? "d" : "d/";
    in = d;
    name = "f";
    break;
  case 3: // over a file in a directory
    to = "/vfw/d";
    t = add_file(d, "f", 5, "old", 0600);
    in = d;
    name = "f";
    break;
  case 4: { // through a link
    t = add_file(d, "x", 2, "old", 0600);
    int l = fs::add(LINK, cwd, "t");
    nodes[l].target = t;
    break;
  }
  case 5: // itself
    to = sym_pick(2, "path") ? "/vfw/f" : "f";
    t = f;
    break;
  case 6: { // itself through a link
    int l = fs::add(LINK, cwd, "t");
    nodes[l].target = f;
    t = f;
    break;
  }
  case 7:
    to = "none/t";
    ok = false;
    break;
  case 8:
    ok = false;
    switch (sym_pick(5, "bad")) {
    case 0: from = "none"; break;
    case 1: from = ""; break;
    case 2: to = ""; break;
    case 3: to = "f/t"; break;
    case 4: from = "d"; break;
    }
    break;
  }
  Snapshot before;
  path pf(std::string_view{from}), pt(std::string_view{to});
  bool r = file::copy(pf, pt, ec);
  check_closed();
  CHECKM(r == !ec, "returns true if there is no error");
  CHECKM(nodes[f].kind == REG && nodes[f].size == n && same_text({bytes(nodes[f]), n}, {src, n}), "the source is unchanged");
  if (!faulted)
    CHECKM(r == ok, "succeeds exactly if it is possible");
  if (r) {
    int got = t >= 0 ? t : child(in, name, strlen(name));
    CHECKM(got >= 0 && nodes[got].kind == REG, "the destination exists");
    CHECKM(nodes[got].size == n && same_text({bytes(nodes[got]), n}, {src, n}), "the destination has exactly the content of the source");
    if (t < 0 && !faulted)
      CHECKM((nodes[got].mode & 0777) == 0640, "permissions of a created file");
    t = got;
  }
  for (int i = 0; i < MAX; ++i)
    if (i != t)
      CHECKM(before.same(i) || (before.n[i].kind == NONE && nodes[i].parent == in && !strcmp(nodes[i].name, name)), "nothing else is changed");
  CHECKM(nodes[other].size == 1, "nothing else is changed");
  REACH("done");
}
HARNESS(h_file_copy_big)
{
  using namespace fs;
  static const size_t sizes[] = {65535, 65536, 65537, 131072};
  reset();
  size_t n = sizes[sym_split(4, "n")];
  int f = fs::add(REG, cwd, "f"), t = fs::add(REG, cwd, "t");
  nodes[f].store = 0;
  nodes[t].store = 1;
  for (size_t i = 0; i < n; i += 512)
    memset(data[0] + i, 1 + i / 512, 512);
  data[0][65535 % n] = sym_u8("byte");
  data[0][n - 1] = sym_u8("last");
  nodes[f].size = n;
  nodes[t].size = 139999;
  faults = sym_split(2, "faults");
  std::error_code ec;
  bool r = file::copy(path(std::string_view("f")), path(std::string_view("t")), ec);
  check_closed();
  CHECK(r == !ec);
  if (!faulted)
    CHECK(r);
  if (r) {
    CHECKM(nodes[t].size == n, "size of the copy");
    CHECKM(memcmp(data[0], data[1], n) == 0, "content of the copy");
  }
  {
    ec.clear();
    unsigned was = faulted;
    std::string s = file::load(path(std::string_view("f")), ec);
    if (!ec)
      CHECKM(s.size() == n && memcmp(s.data(), data[0], n) == 0, "content loaded");
    CHECK(faulted > was || !ec);
  }
  REACH("done");
}
HARNESS(h_unique_fd)
{
  int fd = sym_u32("fd");
  bool rel = sym_split(2, "release");
  fs::fds[5].node = 0; // an open one
  fs::open_fds = 1;
  ASSUME(fd == 5 || fd == file::NO_FD);
  {
    file::unique_fd a(fd);
    CHECK(int(a) == fd);
    file::unique_fd b(std::move(a));
    CHECK(all(int(b) == fd, int(a) == file::NO_FD));
    if (rel) {
      CHECK(b.release() == fd);
      CHECK(int(b) == file::NO_FD);
    }
  }
  CHECKM(fs::open_fds == (rel || fd != 5 ? 1 : 0), "closed exactly if owned");
  CHECKM(!fs::bad_close, "nothing else is closed");
  REACH("done");
}
// ---- trees
HARNESS(h_file_mkdir)
{
  using namespace fs;
  reset();
  static const char *names[] = {"a", "bc", ".", ""};
  unsigned count = sym_split(BOUND(4, 5), "count");
  if (count == 0) { // the empty path
    std::error_code ec = some_code(sym_pick(2, "stale"));
    faults = 1;
    Snapshot before;
    CHECKM(!file::create_directories(path(), ec) && ec, "the empty path is an error");
    ec = some_code(sym_pick(2, "stale"));
    CHECKM(!file::create_directory(path(), ec) && ec, "the empty path is an error");
    for (int k = 0; k < MAX; ++k)
      CHECK(before.same(k));
    return;
  }
  unsigned el[4];
  std::string text;
  bool abs = sym_split(2, "absolute");
  if (abs)
    text = "/vfw/";
  for (unsigned i = 0; i < count; ++i) {
    el[i] = sym_split(i ? 4 : 3, "element");
    if (i)
      text += '/';
    text += names[el[i]];
  }
  if (sym_pick(2, "trailing"))
    text += '/';
  // what is there already
  unsigned have = sym_split(count + 1, "have");
  unsigned block = have < count ? sym_split(5, "block") : 0;
  int outside = fs::add(DIRECTORY, 0, "out", 0755);
  int at = cwd;
  bool ok = true;
  unsigned i = 0;
  for (; i < have; ++i)
    if (el[i] < 2)
      at = fs::add(DIRECTORY, at, names[el[i]], 0700);
  int base = at; // where new ones are created
  for (; i < count; ++i)
    if (el[i] < 2)
      break;
  if (i < count && block) {
    int l;
    switch (block) {
    case 1:
      fs::add(REG, at, names[el[i]]);
      ok = false;
      break;
    case 2:
      l = fs::add(LINK, at, names[el[i]]);
      nodes[l].target = outside;
      base = outside;
      ++i;
      break;
    case 3:
      fs::add(LINK, at, names[el[i]]);
      ok = false;
      break;
    case 4:
      fs::add(PIPE, at, names[el[i]]);
      ok = false;
      break;
    }
  } else if (block)
    return;
  mode_t mode = sym_pick(2, "mode") ? 0775 : 0700;
  faults = sym_split(3, "faults");
  std::error_code ec = some_code(sym_pick(2, "stale"));
  Snapshot before;
  bool single = count == 1 && sym_pick(2, "single");
  bool r = single ? file::create_directory(path(text), ec, mode) : file::create_directories(path(text), ec, mode);
  check_closed();
  CHECKM(r == !ec, "returns true if there is no error");
  if (!faulted)
    CHECKM(r == ok, "succeeds exactly if it is possible");
  // what was there is unchanged, what is new is what was asked for
  for (int k = 0; k < MAX; ++k)
    if (before.n[k].kind != NONE)
      CHECKM(before.same(k), "what is there stays");
  int dir = base;
  unsigned made = 0, now = 0;
  bool full = true;
  if (ok)
    for (; i < count; ++i) {
      if (el[i] >= 2)
        continue;
      int c = child(dir, names[el[i]], strlen(names[el[i]]));
      if (c < 0) {
        full = false;
        break;
      }
      ++made;
      CHECKM(nodes[c].kind == DIRECTORY && nodes[c].mode == mode, "a directory with the mode asked for");
      dir = c;
    }
  for (int k = 0; k < MAX; ++k)
    now += before.n[k].kind == NONE && nodes[k].kind != NONE;
  CHECKM(now == made, "nothing else is created");
  if (r)
    CHECKM(full, "all of it exists");
  REACH("done");
}
// The number of entries of the tree.
static unsigned tree(fs::Snapshot const &s, int top, bool *in)
{
  using namespace fs;
  unsigned n = 0;
  for (int i = 0; i < MAX; ++i) {
    int p = i;
    for (int k = 0; k < MAX && p != 0 && p != top; ++k)
      p = s.n[p].parent;
    in[i] = s.n[i].kind != NONE && p == top && (i != 0 || top == 0);
    n += in[i];
  }
  return n;
}
HARNESS(h_file_remove_all)
{
  using namespace fs;
  reset();
  static const char *names[] = {"t", "a", "..b", ".c", "..."};
  int out = fs::add(DIRECTORY, 0, "out", 0755), out_file = fs::add(REG, out, "f"), beside = fs::add(REG, cwd, "tt");
  (void)beside;
  unsigned count = 1 + sym_split(BOUND(4, 5), "count");
  int top = -1, made[5], ndirs = 0;
  bool pipe = false;
  for (unsigned i = 0; i < count; ++i) {
    int parent = cwd;
    if (i) {
      if (!ndirs)
        return; // nowhere to put it
      parent = made[sym_split(ndirs, "parent")];
    }
    unsigned kind = sym_split(6, "kind");
    int x;
    switch (kind) {
    case 0: x = fs::add(DIRECTORY, parent, names[i], 0755); break;
    case 1: x = fs::add(REG, parent, names[i]); break;
    case 2: // link to a directory outside
      x = fs::add(LINK, parent, names[i]);
      nodes[x].target = out;
      break;
    case 3: // link to a file outside
      x = fs::add(LINK, parent, names[i]);
      nodes[x].target = out_file;
      break;
    case 4: x = fs::add(LINK, parent, names[i]); break;
    case 5:
      x = fs::add(PIPE, parent, names[i]);
      pipe = true;
      break;
    }
    if (!i)
      top = x;
    if (kind == 0)
      made[ndirs++] = x;
  }
  faults = sym_split(3, "faults");
  bool absolute = sym_pick(2, "absolute");
  std::error_code ec = some_code(sym_pick(2, "stale"));
  Snapshot before;
  bool in[MAX];
  unsigned n = tree(before, top, in);
  uintmax_t r = file::remove_all(path(std::string_view(absolute ? "/vfw/t" : "t")), ec);
  check_closed();
  unsigned removed = 0;
  for (int i = 0; i < MAX; ++i)
    if (before.n[i].kind != NONE) {
      if (nodes[i].kind == NONE) {
        CHECKM(in[i], "nothing outside the tree is removed");
        ++removed;
      } else
        CHECKM(before.same(i), "what remains is unchanged");
    } else
      CHECK(nodes[i].kind == NONE);
  CHECKM(r == removed, "the number of removed entries");
  if (!ec)
    CHECKM(removed == n, "without an error everything is removed");
  if (!faulted && !pipe)
    CHECKM(!ec, "no error without a failing call");
  if (faulted)
    CHECKM(bool(ec) || removed == n, "a failing call is reported");
  REACH("done");
}
HARNESS(h_file_remove)
{
  using namespace fs;
  reset();
  int out = fs::add(DIRECTORY, 0, "out", 0755), out_file = fs::add(REG, out, "f");
  unsigned kind = sym_split(9, "kind");
  int x = -1;
  bool ok = true, sure = true, missing = false;
  const char *p = "t";
  switch (kind) {
  case 0: x = fs::add(DIRECTORY, cwd, "t", 0755); break;
  case 1: x = fs::add(REG, cwd, "t"); break;
  case 2:
    x = fs::add(LINK, cwd, "t");
    nodes[x].target = out;
    break;
  case 3:
    x = fs::add(LINK, cwd, "t");
    nodes[x].target = out_file;
    break;
  case 4: x = fs::add(LINK, cwd, "t"); break;
  case 5:
    x = fs::add(PIPE, cwd, "t");
    sure = false;
    break;
  case 6:
    x = fs::add(DIRECTORY, cwd, "t", 0755);
    fs::add(REG, x, "f");
    ok = false;
    break;
  case 7:
    missing = true;
    ok = false;
    break;
  case 8:
    p = "";
    ok = false;
    break;
  }
  bool all_of_it = (missing || kind == 8) && sym_split(2, "all");
  faults = sym_split(3, "faults");
  std::error_code ec = some_code(sym_pick(2, "stale"));
  Snapshot before;
  bool r;
  if (all_of_it) {
    uintmax_t n = file::remove_all(path(std::string_view(p)), ec);
    CHECKM(n == 0, "nothing is removed");
    r = !ec;
    if (missing)
      sure = false; // whether a missing tree is an error is not specified
  } else
    r = file::remove(path(std::string_view(p)), ec);
  CHECKM(r == !ec, "returns true if there is no error");
  if (!faulted && sure)
    CHECKM(r == ok, "succeeds exactly if it is possible");
  bool gone = false;
  for (int i = 0; i < MAX; ++i)
    if (i == x && nodes[i].kind == NONE)
      gone = true;
    else
      CHECKM(before.same(i), "nothing else is changed");
  if (x >= 0)
    CHECKM(gone == r, "removed exactly if reported so");
  check_closed();
  REACH("done");
}
// ---- queries
HARNESS(h_file_query)
{
  any_mode = true;
  memset(&any_stat, 0, sizeof(any_stat));
  errno = ENOTTY;
  unsigned fail = sym_split(2, "fail");
  any_stat.st_mode = sym_u16("mode");
  any_stat.st_size = sym_u64("size");
  auto time = [](const char *s, const char *n) {
    struct timespec t;
    t.tv_sec = int64_t(sym_u64(s) & 0x3ffffffffull) - 0x200000000ll;
    t.tv_nsec = sym_u32(n);
    ASSUME(t.tv_nsec < 1000000000);
    return t;
  };
  any_stat.st_mtim = time("msec", "mnsec");
  any_stat.st_atim = time("asec", "ansec");
  any_stat.st_ctim = time("csec", "cnsec");
  if (fail) {
    any_errno = 1 + sym_u8("errno");
  }
  std::error_code ec = some_code(sym_pick(2, "stale"));
  path p(std::string_view("file"));
  file::file_status st = file::status(p, ec);
  mode_t fmt = any_stat.st_mode & S_IFMT;
  if (fail) {
    CHECKM(ec.value() == any_errno && ec.category() == std::system_category(), "the error is reported");
    CHECKM(!file::exists(st), "not known to exist");
    CHECKM(all(!file::is_dir(st), !file::is_regular_file(st), !file::is_char_device(st), !file::is_block_device(st)), "of no type");
    CHECK((st.type() == decltype(st.type())::not_found) == (any_errno == ENOENT));
    CHECK(!file::exists(p));
    CHECK(file::last_write_time(p, ec) == swoc::file::file_time_type::min());
    CHECK(ec.value() == any_errno);
  } else {
    CHECKM(!ec, "no error");
    CHECKM(all(file::exists(st), file::exists(p)), "exists");
    CHECKM(all(file::is_dir(st) == (fmt == S_IFDIR), file::is_regular_file(st) == (fmt == S_IFREG)), "type");
    CHECKM(all(file::is_char_device(st) == (fmt == S_IFCHR), file::is_block_device(st) == (fmt == S_IFBLK)), "type");
    using T = decltype(st.type());
    CHECKM(all((st.type() == T::symlink) == (fmt == S_IFLNK), (st.type() == T::fifo) == (fmt == S_IFIFO), (st.type() == T::socket) == (fmt == S_IFSOCK)), "type");
    CHECKM(all((st.type() == T::directory) == (fmt == S_IFDIR), (st.type() == T::regular) == (fmt == S_IFREG), (st.type() == T::block) == (fmt == S_IFBLK), (st.type() == T::character) == (fmt == S_IFCHR)), "type");
    CHECKM(st.mode() == any_stat.st_mode, "mode");
    CHECKM(file::file_size(st) == uintmax_t(any_stat.st_size), "size");
    auto ns = [](timespec t) { return t.tv_sec * 1000000000ll + t.tv_nsec; };
    auto count = [](swoc::file::file_time_type t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); };
    CHECKM(count(file::last_write_time(st)) == ns(any_stat.st_mtim), "modification time");
    CHECKM(count(file::access_time(st)) == ns(any_stat.st_atim), "access time");
    CHECKM(count(file::status_time(st)) == ns(any_stat.st_ctim), "status time");
    CHECKM(count(file::last_write_time(p, ec)) == ns(any_stat.st_mtim), "modification time");
    CHECK(!ec);
  }
  REACH("done");
}
HARNESS(h_file_where)
{
  using namespace fs;
  reset();
  int d = fs::add(DIRECTORY, cwd, "d"), f = fs::add(REG, d, "f"), l = fs::add(LINK, cwd, "l"), dead = fs::add(LINK, cwd, "x");
  (void)dead;
  nodes[l].target = d;
  static const char *paths[] = {"d/f", "/vfw/d/f", "l/f", "d/../l/./f", "d//f", ".", "..", "/", "l", "none", "x", "d/f/g", "", "/vfw/l/../d", "/none"};
  static const int ids[] = {-2, -2, -2, -2, -2, -3, -4, -4, -5, -1, -1, -1, -1, -5, -1};
  faults = sym_split(2, "faults");
  std::error_code ec = some_code(sym_pick(2, "stale"));
  switch (sym_split(4, "what")) {
  case 0:
  case 1: {
    bool canon = sym_split(2, "canonical");
    unsigned k = sym_pick(sizeof(paths) / sizeof(*paths), "path");
    int id = ids[k] == -2 ? f : ids[k] == -3 ? cwd : ids[k] == -4 ? 0 : ids[k] == -5 ? d : -1;
    uint64_t live = sym_heap_live();
    {
    path p(std::string_view{paths[k]});
    path r = canon ? file::canonical(p, ec) : file::absolute(p, ec);
    CHECK(same_text(p.string(), paths[k]));
    if (canon) {
      if (id >= 0 && !faulted)
        CHECKM(!ec, "no error without a failing call");
      if (id < 0)
        CHECKM(bool(ec), "an error is reported");
    } else {
      if (p.is_absolute())
        CHECKM(!ec && r == p, "an absolute path stays as it is");
      else if (id >= 0 && !faulted)
        CHECKM(!ec, "no error without a failing call");
    }
    if (!ec) {
      CHECKM(r.is_absolute(), "absolute");
      faults = 0;
      if (id >= 0)
        CHECKM(find(r.c_str(), true) == id, "refers to the same item");
      if (canon) {
        char want[64];
        size_t n = full_path(id, want);
        if (!n)
          want[n++] = '/';
        CHECKM(same_text(r.string(), {want, n}), "canonical");
      }
    } else
      CHECKM(r.empty(), "no path with an error");
    }
    CHECKM(sym_heap_live() == live, "what the system allocated is released");
    break;
  }
  case 2: {
    static const size_t sizes[] = {1, 2, 100, 4095, 4096, 4097, 5000};
    cwd_size = sizes[sym_pick(7, "size")];
    uint64_t live = sym_heap_live();
    {
    path r = file::current_path();
    if (!faulted)
      CHECKM(r.string().size() == cwd_size && r.string()[0] == '/' && r.string()[cwd_size - 1] == (cwd_size > 1 ? 'd' : '/'), "the working directory");
    else
      CHECKM(r.empty() || r.string().size() == cwd_size, "the working directory or nothing");
    }
    CHECKM(sym_heap_live() == live, "what the system allocated is released");
    break;
  }
  case 3: {
    static const char *values[] = {"/tdir", "/tmp1", "/temp2", "/tempdir3"};
    const char *want = "/tmp";
    unsigned set = sym_pick(16, "set");
    for (unsigned i = 4; i-- > 0;)
      if (set & (1 << i))
        want = env[i] = values[i];
    CHECKM(same_text(file::temp_directory_path().string(), want), "the first of the variables that is set");
    bool fails = faults;
    unsigned k = sym_pick(9, "path");
    if (fails) {
      bool r = file::is_readable(path(std::string_view{paths[k]}));
      CHECK(r == !faulted);
    } else
    {
      fs::denied = sym_pick(2, "not_readable") ? R_OK : W_OK | X_OK; // what else is permitted does not matter
      bool r = file::is_readable(path(std::string_view{paths[k]}));
      CHECKM(r == !(fs::denied & R_OK), "readable exactly if it is permitted to read it");
      fs::denied = 0;
    }
    break;
  }
  }
  REACH("done");
}
