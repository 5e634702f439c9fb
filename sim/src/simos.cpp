// The simulated operating system: an in-memory file system, file descriptors, directories,
// clock, environment and plugin loader behind the libc entry points that oclint, libclang,
// LLVM and libstdc++ call.  Everything a scenario does not provide does not exist.
#include "sim.h"
#include <algorithm>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <pwd.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

namespace sim {
Shared *g_sh;
Scenario *g_sc;
bool g_active = false;

static uint64_t g_now_ns; // simulated clock (signed value stored in two's complement)
static long g_clock_queries;

// ------------------------------------------------------------------ results
void shared_append(Region &r, const void *p, size_t n) {
    if (r.used + n > r.cap) { r.lost += n; return; }
    memcpy((char *)g_sh + r.off + r.used, p, n);
    r.used += n;
}
static void put_u32(std::string &s, uint32_t v) { s.append((char *)&v, 4); }
static void journal(char type, uint64_t ino, uint64_t a, const std::string &path, const void *data, size_t n) {
    std::string s;
    s += type;
    s.append((char *)&ino, 8); s.append((char *)&a, 8);
    put_u32(s, path.size()); s += path;
    put_u32(s, n);
    shared_append(g_sh->journal, s.data(), s.size());
    if (n) shared_append(g_sh->journal, data, n);
}
static void mix(const void *p, size_t n) {
    uint64_t h = g_sh->hash;
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    g_sh->hash = h;
}
[[noreturn]] static void sim_kill(int sig) {
    syscall(SYS_kill, syscall(SYS_getpid), sig);
    syscall(SYS_exit_group, 96);
    for (;;) {}
}
static int held_fds();
static int64_t g_mapped;
static std::map<void *, size_t> *g_maps;
void event(const char *op, const std::string &path, long ret, const char *extra) {
    g_sh->ops++;
    g_now_ns += g_sc->tick_ns;
    g_sh->sim_ns += g_sc->tick_ns;
    mix(op, strlen(op)); mix(path.data(), path.size()); mix(&ret, sizeof ret);
    if (g_sc->trace) {
        char b[64];
        std::string s(op);
        s += '\t'; s += path; s += '\t';
        snprintf(b, sizeof b, "%ld\t", ret); s += b;
        if (extra) s += extra;
        snprintf(b, sizeof b, "\t%lld", (long long)g_now_ns); s += b;
        if (g_sc->trace > 1) { snprintf(b, sizeof b, "\t%lld\t%d\t%lld\t%lld", (long long)g_live, held_fds(), (long long)g_mapped, (long long)g_peak); s += b; }
        s += '\n';
        shared_append(g_sh->trace, s.data(), s.size());
    }
    if ((long)g_sh->ops > g_sc->op_budget) { g_sh->note |= 2; sim_kill(9); }
}

// ------------------------------------------------------------------ file system
struct Node {
    char type; // f d l
    uint64_t ino = 0;
    int mode = 0644;
    int64_t mtime = 1600000000;
    std::string data; // content or link target
    std::map<std::string, Node *> kids;
    std::vector<std::string> order;
    Node *parent = nullptr;
    std::string name;
    int nlink = 1;
};
static Node *g_root;
static uint64_t g_next_ino = 1u << 20;
static std::string g_cwd = "/";
static Node *g_cwd_node;

static Node *new_node(char t, Node *parent, const std::string &name) {
    Node *n = new Node; n->type = t; n->parent = parent; n->name = name;
    n->ino = g_next_ino++;
    if (t == 'd') n->mode = 0755;
    if (parent) { parent->kids[name] = n; }
    return n;
}
static std::vector<std::string> split(const std::string &p) {
    std::vector<std::string> v; size_t i = 0;
    while (i < p.size()) {
        size_t j = p.find('/', i);
        if (j == std::string::npos) j = p.size();
        if (j > i) v.push_back(p.substr(i, j - i));
        i = j + 1;
    }
    return v;
}
static std::string node_path(Node *n) {
    if (!n || n == g_root) return "/";
    std::string s;
    for (; n && n != g_root; n = n->parent) s = "/" + n->name + s;
    return s;
}
static Node *root() { if (!g_root) { g_root = new Node; g_root->type = 'd'; g_root->mode = 0755; g_root->ino = 2; } return g_root; }
void fs_add(char type, const std::string &path, uint64_t ino, int mode, int64_t mtime, std::string data) {
    Node *n = root();
    std::vector<std::string> v = split(path);
    for (size_t i = 0; i < v.size(); i++) {
        bool last = i + 1 == v.size();
        auto it = n->kids.find(v[i]);
        if (it == n->kids.end()) n = new_node(last ? type : 'd', n, v[i]);
        else n = it->second;
    }
    if (ino) n->ino = ino;
    if (mode >= 0) n->mode = mode;
    n->mtime = mtime;
    n->type = type;
    if (type != 'd') n->data.swap(data);
}
void fs_order(const std::string &path, std::vector<std::string> names) {
    Node *n = root();
    for (auto &c : split(path)) { auto it = n->kids.find(c); if (it == n->kids.end()) return; n = it->second; }
    n->order.swap(names);
}

// Resolve; returns node or null with errno. If parent/last wanted they are filled also when
// the final component does not exist.
static Node *walk(Node *start, const std::string &path, bool follow, Node **par, std::string *last, int depth = 0) {
    if (par) *par = nullptr;
    if (path.empty()) { errno = ENOENT; return nullptr; }
    if (path.size() >= 4096) { errno = ENAMETOOLONG; return nullptr; }
    if (depth > 40) { errno = ELOOP; return nullptr; }
    Node *n = path[0] == '/' ? root() : start;
    std::vector<std::string> v = split(path);
    bool want_dir = path.back() == '/';
    for (size_t i = 0; i < v.size(); i++) {
        bool lastc = i + 1 == v.size();
        if (n->type != 'd') { errno = ENOTDIR; return nullptr; }
        if (v[i].size() > 255) { errno = ENAMETOOLONG; return nullptr; }
        if (v[i] == ".") continue;
        if (v[i] == "..") { if (n->parent) n = n->parent; continue; }
        if (!(n->mode & 0100)) { errno = EACCES; return nullptr; }
        auto it = n->kids.find(v[i]);
        if (it == n->kids.end()) {
            if (lastc && par) { *par = n; if (last) *last = v[i]; }
            errno = ENOENT;
            return nullptr;
        }
        Node *k = it->second;
        if (k->type == 'l' && (!lastc || follow || want_dir)) {
            Node *p2; std::string l2;
            Node *t = walk(n, k->data, true, &p2, &l2, depth + 1);
            if (!t) { if (lastc && par && p2) { *par = p2; if (last) *last = l2; } return nullptr; }
            k = t;
        }
        n = k;
    }
    if (want_dir && n->type != 'd') { errno = ENOTDIR; return nullptr; }
    return n;
}
static std::string lexical(const std::string &base, const std::string &p) {
    std::string full = (!p.empty() && p[0] == '/') ? p : base + "/" + p;
    std::vector<std::string> out;
    for (auto &c : split(full)) {
        if (c == ".") continue;
        if (c == "..") { if (!out.empty()) out.pop_back(); continue; }
        out.push_back(c);
    }
    std::string s;
    for (auto &c : out) s += "/" + c;
    return s.empty() ? "/" : s;
}

// ------------------------------------------------------------------ faults
struct Hit { bool on = false; std::string kind; long arg = 0; };
static std::map<std::string, long> *g_op_count;
static int err_of(const std::string &k) {
    static const struct { const char *n; int e; } T[] = {
        {"EIO", EIO}, {"ENOSPC", ENOSPC}, {"EACCES", EACCES}, {"ENOENT", ENOENT}, {"EMFILE", EMFILE},
        {"ENFILE", ENFILE}, {"EINTR", EINTR}, {"ENOMEM", ENOMEM}, {"EDQUOT", EDQUOT}, {"EFBIG", EFBIG},
        {"EROFS", EROFS}, {"ENOTDIR", ENOTDIR}, {"EISDIR", EISDIR}, {"EBADF", EBADF}, {"ERANGE", ERANGE},
        {"ELOOP", ELOOP}, {"EPIPE", EPIPE}, {"ESTALE", ESTALE}, {"EPERM", EPERM}, {"EAGAIN", EAGAIN},
        {"ENAMETOOLONG", ENAMETOOLONG}, {"ENODEV", ENODEV}, {"EINVAL", EINVAL}, {"EOVERFLOW", EOVERFLOW}};
    for (auto &t : T) if (k == t.n) return t.e;
    return EIO;
}
static Hit fault(const char *op, const std::string &path) {
    Hit h;
    if (g_sc->faults.empty()) return h;
    for (auto &f : g_sc->faults) {
        if (f.op != op) continue;
        if (f.path != "*" && f.path != path) continue;
        f.seen++;
        // nth > 0: exactly that occurrence; nth < 0: from occurrence |nth| on
        bool match = f.nth > 0 ? f.seen == f.nth : f.seen >= -f.nth;
        if (match && !h.on) {
            h.on = true; h.kind = f.kind; h.arg = f.arg; f.fired = true;
            g_sh->faults_fired++;
            std::string m = "F\t" + f.op + "\t" + path + "\t" + f.kind + "\n";
            shared_append(g_sh->misc, m.data(), m.size());
        }
    }
    if (h.on && h.kind == "kill") { event(op, path, -9, "killed"); sim_kill(9); }
    if (h.on && h.kind == "clock") {
        g_now_ns = (int64_t)h.arg * 1000000000ll;
        h.on = false;
    }
    if (h.on && h.kind == "delay") { g_now_ns += (uint64_t)h.arg * 1000000ull; g_sh->sim_ns += (uint64_t)h.arg * 1000000ull; h.on = false; }
    return h;
}
// returns true if the call must fail (errno set)
static bool fails(const char *op, const std::string &path) {
    Hit h = fault(op, path);
    if (!h.on) return false;
    int e = err_of(h.kind);
    event(op, path, -e, "fault");
    errno = e;
    return true;
}

// ------------------------------------------------------------------ descriptors
struct OFD {
    Node *node = nullptr;
    int std = -1; // 0,1,2 for the standard streams
    uint64_t off = 0;
    int flags = 0;
    std::string path;
    int refs = 1;
};
static std::vector<OFD *> *g_fds;
static int held_fds() { int n = 0; if (g_fds) for (OFD *o : *g_fds) n += o != nullptr; return n; }
static OFD *fd_get(int fd) {
    if (fd < 0 || fd >= (int)g_fds->size() || !(*g_fds)[fd]) { errno = EBADF; return nullptr; }
    return (*g_fds)[fd];
}
static int fd_new(OFD *o, int min = 3) {
    while ((int)g_fds->size() < min) g_fds->push_back(nullptr);
    for (int i = min; i < (int)g_fds->size(); i++) if (!(*g_fds)[i]) { (*g_fds)[i] = o; return i; }
    g_fds->push_back(o);
    return g_fds->size() - 1;
}
static Node *at_node(int dirfd) {
    if (dirfd == AT_FDCWD) return g_cwd_node;
    OFD *o = fd_get(dirfd);
    if (!o) return nullptr;
    if (!o->node || o->node->type != 'd') { errno = ENOTDIR; return nullptr; }
    return o->node;
}
static std::string at_path(int dirfd, const char *p) {
    if (dirfd == AT_FDCWD) return lexical(g_cwd, p);
    OFD *o = fd_get(dirfd);
    return lexical(o && o->node ? node_path(o->node) : "/", p);
}

static int s_open(int dirfd, const char *path, int flags, int mode) {
    InSim g;
    Node *base = at_node(dirfd);
    if (!base) return -1;
    std::string full = at_path(dirfd, path);
    bool wr = (flags & O_ACCMODE) != O_RDONLY;
    const char *op = wr ? "openw" : "open";
    if (!strcmp(path, "/dev/null")) {
        OFD *o = new OFD; o->std = 3; o->flags = flags; o->path = "/dev/null";
        int fd = fd_new(o); event(op, full, fd, nullptr); return fd;
    }
    if (fails(op, full)) return -1;
    if (g_sc->fd_limit && held_fds() >= g_sc->fd_limit) { event(op, full, -EMFILE, nullptr); errno = EMFILE; return -1; }
    Node *par; std::string last;
    Node *n = walk(base, path, !(flags & O_NOFOLLOW), &par, &last);
    if (n && (flags & O_CREAT) && (flags & O_EXCL)) { event(op, full, -EEXIST, nullptr); errno = EEXIST; return -1; }
    if (!n) {
        int e = errno;
        if ((flags & O_CREAT) && par && e == ENOENT && *path && path[strlen(path) - 1] == '/') e = EISDIR;
        if (!(flags & O_CREAT) || !par || e != ENOENT) { event(op, full, -e, nullptr); errno = e; return -1; }
        if (!(par->mode & 0200)) { event(op, full, -EACCES, nullptr); errno = EACCES; return -1; }
        n = new_node('f', par, last);
        n->mode = mode & 0777 & ~022;
        n->mtime = (int64_t)g_now_ns / 1000000000;
        journal('C', n->ino, n->mode, node_path(n), nullptr, 0);
    } else {
        int e = 0;
        if (n->type == 'l') e = ELOOP;
        else if (n->type == 'd' && wr) e = EISDIR;
        else if (n->type != 'd' && (flags & O_DIRECTORY)) e = ENOTDIR;
        else if (wr && !(n->mode & 0200)) e = EACCES;
        else if ((flags & O_ACCMODE) != O_WRONLY && !(n->mode & 0400)) e = EACCES;
        if (e) { event(op, full, -e, nullptr); errno = e; return -1; }
        if ((flags & O_TRUNC) && wr && n->type == 'f') {
            n->data.clear();
            journal('T', n->ino, 0, "", nullptr, 0);
        }
    }
    OFD *o = new OFD; o->node = n; o->flags = flags; o->path = node_path(n);
    int fd = fd_new(o);
    event(op, full, fd, nullptr);
    return fd;
}
static void ofd_unref(OFD *o) { if (--o->refs == 0) delete o; }
static int s_close(int fd) {
    InSim g;
    OFD *o = fd_get(fd);
    if (!o) return -1;
    std::string p = o->path; bool wr = (o->flags & O_ACCMODE) != O_RDONLY || o->std == 1;
    (*g_fds)[fd] = nullptr;
    ofd_unref(o);
    const char *op = wr ? "closew" : "close";
    if (fails(op, p)) return -1; // the descriptor is gone, as on Linux
    event(op, p, 0, nullptr);
    return 0;
}
// what the process leaves open is closed by the kernel: errors that only close reports are lost
void close_at_exit() {
    if (!g_fds) return;
    InSim g;
    for (size_t fd = 0; fd < g_fds->size(); ++fd) {
        OFD *o = (*g_fds)[fd];
        if (!o || o->std >= 0 || !o->node || (o->flags & O_ACCMODE) == O_RDONLY) continue;
        std::string p = o->path;
        if (!fails("closew", p)) event("closew", p, 0, "exit");
    }
}
static ssize_t s_read(OFD *o, void *buf, size_t n, int64_t at) {
    if (o->std == 0 || o->std == 3) { event("read", o->path, 0, nullptr); return 0; }
    if (!o->node || o->std > 0 || (o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (o->node->type == 'd') { event("read", o->path, -EISDIR, nullptr); errno = EISDIR; return -1; }
    Hit h = fault("read", o->path);
    if (h.on && h.kind != "short" && h.kind != "eof") {
        int e = err_of(h.kind); event("read", o->path, -e, "fault"); errno = e; return -1;
    }
    uint64_t off = at >= 0 ? (uint64_t)at : o->off;
    const std::string &d = o->node->data;
    size_t k = off >= d.size() ? 0 : std::min((size_t)(d.size() - off), n);
    if (h.on && h.kind == "short") k = std::min(k, (size_t)std::max(1l, h.arg));
    if (h.on && h.kind == "eof") k = 0;
    if (g_sc->max_read && k > (size_t)g_sc->max_read) k = g_sc->max_read;
    memcpy(buf, d.data() + off, k);
    if (at < 0) o->off += k;
    event("read", o->path, k, nullptr);
    return k;
}
static ssize_t write_fault(OFD *o, size_t &n) {
    Hit h = fault("write", o->path);
    if (g_sc->max_write && n > (size_t)g_sc->max_write) n = g_sc->max_write;
    if (!h.on) return 0;
    if (h.kind == "short") { n = std::min(n, (size_t)std::max(1l, h.arg)); return 0; }
    if (h.kind == "torn") { n = std::min(n, (size_t)std::max(0l, h.arg)); return 2; } // write some, then the process dies
    int e = err_of(h.kind);
    event("write", o->path, -e, "fault"); errno = e;
    return -1;
}
static ssize_t s_write_piece(OFD *o, const void *buf, size_t n, int64_t at, bool torn) {
    if (o->std == 1 || o->std == 2) {
        Region &r = o->std == 1 ? g_sh->out : g_sh->err;
        mix(buf, n);
        shared_append(r, buf, n);
    } else if (o->std == 3) {
    } else {
        uint64_t off = at >= 0 ? (uint64_t)at : (o->flags & O_APPEND) ? o->node->data.size() : o->off;
        std::string &d = o->node->data;
        if (d.size() < off) d.resize(off, 0);
        if (d.size() < off + n) d.resize(off + n);
        memcpy(&d[off], buf, n);
        if (at < 0) o->off = off + n;
        mix(buf, n);
        o->node->mtime = (int64_t)g_now_ns / 1000000000;
        journal('W', o->node->ino, off, "", buf, n);
    }
    event("write", o->path, n, torn ? "torn" : nullptr);
    if (torn) sim_kill(9);
    return n;
}
static bool writable(OFD *o) {
    if (o->std == 0) { errno = EBADF; return false; }
    if (o->std > 0) return true;
    if (!o->node || o->node->type != 'f' || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return false; }
    return true;
}
static ssize_t s_write(int fd, const void *buf, size_t n, int64_t at) {
    InSim g;
    OFD *o = fd_get(fd);
    if (!o || !writable(o)) return -1;
    ssize_t f = write_fault(o, n);
    if (f < 0) return -1;
    return s_write_piece(o, buf, n, at, f == 2);
}
static ssize_t s_writev(int fd, const struct iovec *v, int c) {
    InSim g;
    std::string all;
    for (int i = 0; i < c; i++) all.append((const char *)v[i].iov_base, v[i].iov_len);
    return s_write(fd, all.data(), all.size(), -1);
}
static int64_t s_lseek(int fd, int64_t off, int whence) {
    InSim g;
    OFD *o = fd_get(fd);
    if (!o) return -1;
    if (!o->node || o->node->type != 'f') { errno = ESPIPE; return -1; }
    if (fails("lseek", o->path)) return -1;
    int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)o->off : (int64_t)o->node->data.size();
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->off = b + off;
    return o->off;
}
static void fill_stat(Node *n, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_dev = 11; st->st_ino = n->ino;
    st->st_mode = (n->type == 'd' ? S_IFDIR : n->type == 'l' ? S_IFLNK : S_IFREG) | n->mode;
    st->st_nlink = 1; st->st_uid = 1000; st->st_gid = 1000;
    st->st_size = n->type == 'd' ? 4096 : n->data.size();
    st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
    st->st_mtim.tv_sec = st->st_atim.tv_sec = st->st_ctim.tv_sec = n->mtime;
}
static int s_stat(int dirfd, const char *path, struct stat *st, bool follow) {
    InSim g;
    Node *base = at_node(dirfd);
    if (!base) return -1;
    std::string full = at_path(dirfd, path);
    if (fails("stat", full)) return -1;
    if (!strcmp(path, "/dev/null")) { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; st->st_rdev = 0x103; st->st_nlink = 1; return 0; }
    Node *n = walk(base, path, follow, nullptr, nullptr);
    if (!n) { int e = errno; event("stat", full, -e, nullptr); errno = e; return -1; }
    fill_stat(n, st);
    event("stat", full, 0, nullptr);
    return 0;
}
static int s_fstat(int fd, struct stat *st) {
    InSim g;
    OFD *o = fd_get(fd);
    if (!o) return -1;
    if (fails("fstat", o->path)) return -1;
    if (o->node) fill_stat(o->node, st);
    else { memset(st, 0, sizeof *st); st->st_mode = S_IFIFO | 0600; st->st_nlink = 1; st->st_blksize = 4096; if (o->std == 3) { st->st_mode = S_IFCHR | 0666; } }
    event("fstat", o->path, 0, nullptr);
    return 0;
}
static int s_access(int dirfd, const char *path, int mode) {
    InSim g;
    Node *base = at_node(dirfd);
    if (!base) return -1;
    std::string full = at_path(dirfd, path);
    if (fails("access", full)) return -1;
    Node *n = walk(base, path, true, nullptr, nullptr);
    int e = 0;
    if (!n) e = errno;
    else if (((mode & R_OK) && !(n->mode & 0400)) || ((mode & W_OK) && !(n->mode & 0200)) || ((mode & X_OK) && !(n->mode & 0100))) e = EACCES;
    event("access", full, -e, nullptr);
    if (e) { errno = e; return -1; }
    return 0;
}
static bool proc_fd(const char *path, std::string &out) {
    int fd;
    if (sscanf(path, "/proc/self/fd/%d", &fd) == 1) {
        OFD *o = fd_get(fd);
        if (o) { out = o->path; return true; }
    }
    return false;
}
static ssize_t s_readlink(int dirfd, const char *path, char *buf, size_t n) {
    InSim g;
    std::string t;
    std::string full = at_path(dirfd, path);
    if (fails("readlink", full)) return -1;
    if (!strcmp(path, "/proc/self/exe")) t = g_sc->exe;
    else if (proc_fd(path, t)) {}
    else {
        Node *base = at_node(dirfd);
        Node *k = base ? walk(base, path, false, nullptr, nullptr) : nullptr;
        if (!k) { int e = errno; event("readlink", full, -e, nullptr); errno = e; return -1; }
        if (k->type != 'l') { event("readlink", full, -EINVAL, nullptr); errno = EINVAL; return -1; }
        t = k->data;
    }
    size_t m = std::min(n, t.size());
    memcpy(buf, t.data(), m);
    event("readlink", full, m, nullptr);
    return m;
}
static char *s_realpath(const char *path, char *out) {
    std::string r;
    bool ok = false;
    {
        InSim g;
        if (!path || !*path) { errno = path ? ENOENT : EINVAL; return nullptr; }
        std::string full = at_path(AT_FDCWD, path);
        if (fails("realpath", full)) return nullptr;
        std::string t;
        if (!strcmp(path, "/proc/self/exe")) t = g_sc->exe; else t = path;
        Node *n = walk(g_cwd_node, t, true, nullptr, nullptr);
        int e = errno;
        if (n) { r = node_path(n); ok = true; }
        event("realpath", full, ok ? 0 : -e, nullptr);
        errno = e;
        if (ok && r.size() >= 4096) { ok = false; errno = ENAMETOOLONG; }
    }
    if (!ok) return nullptr;
    if (!out) out = (char *)malloc(r.size() + 1);
    if (out) memcpy(out, r.c_str(), r.size() + 1);
    InSim g2; r = std::string();
    return out;
}
static char *s_getcwd(char *buf, size_t n) {
    std::string *p;
    {
        InSim g;
        if (fails("getcwd", g_cwd)) return nullptr;
        p = new std::string(g_cwd);
        event("getcwd", g_cwd, 0, nullptr);
    }
    if (!buf) {
        size_t m = n ? n : p->size() + 1;
        if (m < p->size() + 1) { errno = ERANGE; return nullptr; }
        buf = (char *)malloc(m); n = m;
        if (!buf) return nullptr;
    }
    if (n < p->size() + 1) { errno = n ? ERANGE : EINVAL; return nullptr; }
    memcpy(buf, p->c_str(), p->size() + 1);
    InSim g; delete p;
    return buf;
}
static int s_chdir(const char *path) {
    InSim g;
    std::string full = at_path(AT_FDCWD, path);
    if (fails("chdir", full)) return -1;
    Node *n = walk(g_cwd_node, path, true, nullptr, nullptr);
    int e = n ? (n->type != 'd' ? ENOTDIR : (n->mode & 0100) ? 0 : EACCES) : errno;
    event("chdir", full, -e, nullptr);
    if (e) { errno = e; return -1; }
    g_cwd_node = n; g_cwd = node_path(n);
    return 0;
}

// ------------------------------------------------------------------ directories
struct SDir { OFD *o; int fd; std::vector<std::string> names; size_t pos; struct dirent de; std::string path; Node *node; };
static std::map<void *, SDir *> *g_dirs;
static SDir *dir_make(Node *n, const std::string &path, int fd) {
    SDir *d = new SDir;
    d->node = n; d->path = path; d->fd = fd; d->pos = 0; d->o = nullptr;
    std::vector<std::string> all;
    if (!n->order.empty()) {
        for (auto &x : n->order) if (x == "." || x == ".." || n->kids.count(x)) all.push_back(x);
        for (auto &k : n->kids) if (std::find(all.begin(), all.end(), k.first) == all.end()) all.push_back(k.first);
    } else {
        all.push_back("."); all.push_back("..");
        for (auto &k : n->kids) all.push_back(k.first);
    }
    d->names = all;
    (*g_dirs)[d] = d;
    return d;
}
static DIR *s_opendir(const char *path) {
    InSim g;
    std::string full = at_path(AT_FDCWD, path);
    if (fails("opendir", full)) return nullptr;
    if (g_sc->fd_limit && held_fds() >= g_sc->fd_limit) { event("opendir", full, -EMFILE, nullptr); errno = EMFILE; return nullptr; }
    Node *n = walk(g_cwd_node, path, true, nullptr, nullptr);
    int e = n ? (n->type != 'd' ? ENOTDIR : (n->mode & 0400) ? 0 : EACCES) : errno;
    event("opendir", full, -e, nullptr);
    if (e) { errno = e; return nullptr; }
    OFD *o = new OFD; o->node = n; o->path = full; o->flags = O_RDONLY;
    return (DIR *)dir_make(n, full, fd_new(o));
}
static struct dirent *s_readdir(DIR *dp) {
    InSim g;
    SDir *d = (SDir *)dp;
    Hit h = fault("readdir", d->path);
    if (h.on) { int e = err_of(h.kind); event("readdir", d->path, -e, "fault"); errno = e; return nullptr; }
    if (d->pos >= d->names.size()) { event("readdir", d->path, 0, "end"); return nullptr; }
    const std::string &nm = d->names[d->pos++];
    memset(&d->de, 0, sizeof d->de);
    auto it = d->node->kids.find(nm);
    Node *k = nm == "." ? d->node : nm == ".." ? (d->node->parent ? d->node->parent : d->node) : it == d->node->kids.end() ? nullptr : it->second;
    d->de.d_ino = k ? k->ino : 1;
    d->de.d_type = !k ? DT_UNKNOWN : k->type == 'd' ? DT_DIR : k->type == 'l' ? DT_LNK : DT_REG;
    d->de.d_off = d->pos;
    d->de.d_reclen = sizeof(struct dirent);
    strncpy(d->de.d_name, nm.c_str(), 255);
    event("readdir", d->path, d->pos, nm.c_str());
    return &d->de;
}
static int s_closedir(DIR *dp) {
    InSim g;
    SDir *d = (SDir *)dp;
    if (!g_dirs->count(d)) { errno = EBADF; return -1; }
    g_dirs->erase(d);
    if (d->fd >= 0 && d->fd < (int)g_fds->size() && (*g_fds)[d->fd]) { ofd_unref((*g_fds)[d->fd]); (*g_fds)[d->fd] = nullptr; }
    event("closedir", d->path, 0, nullptr);
    delete d;
    return 0;
}
// mutations of the tree
static int mut(const char *op, const std::string &full, int e) { event(op, full, -e, nullptr); if (e) { errno = e; return -1; } return 0; }
static int s_unlink(int dirfd, const char *path, bool dir) {
    InSim g;
    Node *base = at_node(dirfd); if (!base) return -1;
    std::string full = at_path(dirfd, path);
    const char *op = dir ? "rmdir" : "unlink";
    if (fails(op, full)) return -1;
    Node *n = walk(base, path, false, nullptr, nullptr);
    if (!n) return mut(op, full, errno);
    if (dir ? n->type != 'd' : n->type == 'd') return mut(op, full, dir ? ENOTDIR : EISDIR);
    if (dir && !n->kids.empty()) return mut(op, full, ENOTEMPTY);
    if (!n->parent || !(n->parent->mode & 0200)) return mut(op, full, EACCES);
    journal('U', n->ino, 0, node_path(n), nullptr, 0);
    n->parent->kids.erase(n->name);
    return mut(op, full, 0);
}
static int s_rename(int fd1, const char *a, int fd2, const char *b) {
    InSim g;
    std::string fa = at_path(fd1, a), fb = at_path(fd2, b);
    if (fails("rename", fb)) return -1;
    Node *b1 = at_node(fd1), *b2 = at_node(fd2);
    if (!b1 || !b2) return -1;
    Node *n = walk(b1, a, false, nullptr, nullptr);
    if (!n) return mut("rename", fb, errno);
    Node *par; std::string last;
    Node *t = walk(b2, b, false, &par, &last);
    if (!t && !par) return mut("rename", fb, errno);
    if (t) {
        if (t == n) return mut("rename", fb, 0);
        if (t->type == 'd' && n->type != 'd') return mut("rename", fb, EISDIR);
        if (t->type == 'd' && !t->kids.empty()) return mut("rename", fb, ENOTEMPTY);
        par = t->parent; last = t->name;
        journal('U', t->ino, 0, node_path(t), nullptr, 0);
        par->kids.erase(last);
    }
    std::string oldp = node_path(n);
    n->parent->kids.erase(n->name);
    n->parent = par; n->name = last; par->kids[last] = n;
    journal('R', n->ino, 0, node_path(n), oldp.data(), oldp.size());
    return mut("rename", fb, 0);
}
static int s_mkdir(int dirfd, const char *path, int mode) {
    InSim g;
    Node *base = at_node(dirfd); if (!base) return -1;
    std::string full = at_path(dirfd, path);
    if (fails("mkdir", full)) return -1;
    Node *par; std::string last;
    Node *n = walk(base, path, true, &par, &last);
    if (n) return mut("mkdir", full, EEXIST);
    if (!par) return mut("mkdir", full, errno);
    n = new_node('d', par, last); n->mode = mode & 0777;
    journal('D', n->ino, n->mode, node_path(n), nullptr, 0);
    return mut("mkdir", full, 0);
}
static int s_symlink(const char *target, int dirfd, const char *path) {
    InSim g;
    Node *base = at_node(dirfd); if (!base) return -1;
    std::string full = at_path(dirfd, path);
    if (fails("symlink", full)) return -1;
    Node *par; std::string last;
    Node *n = walk(base, path, false, &par, &last);
    if (n) return mut("symlink", full, EEXIST);
    if (!par) return mut("symlink", full, errno);
    n = new_node('l', par, last); n->data = target;
    journal('L', n->ino, 0, node_path(n), target, strlen(target));
    return mut("symlink", full, 0);
}
static int s_truncate_node(Node *n, const std::string &full, int64_t len) {
    if (fails("ftruncate", full)) return -1;
    if (n->type != 'f') return mut("ftruncate", full, EINVAL);
    n->data.resize(len);
    journal('T', n->ino, len, "", nullptr, 0);
    return mut("ftruncate", full, 0);
}

// ------------------------------------------------------------------ stdio on top of it
static std::map<FILE *, int> *g_files; // FILE -> sim fd
static FILE *g_out, *g_err;
struct Cookie { int fd; };
static ssize_t ck_read(void *c, char *b, size_t n) {
    InSim g; OFD *o = fd_get(((Cookie *)c)->fd); if (!o) return -1; return s_read(o, b, n, -1);
}
static ssize_t ck_write(void *c, const char *b, size_t n) {
    // a cookie write returning less is treated as an error by glibc: loop as glibc's own
    // file writer does
    size_t done = 0;
    while (done < n) {
        ssize_t k = s_write(((Cookie *)c)->fd, b + done, n - done, -1);
        if (k < 0) return done ? done : 0;
        done += k;
    }
    return done;
}
static int ck_seek(void *c, off64_t *off, int wh) { int64_t r = s_lseek(((Cookie *)c)->fd, *off, wh); if (r < 0) return -1; *off = r; return 0; }
static int ck_close(void *c) { InSim g; int fd = ((Cookie *)c)->fd; delete (Cookie *)c; return s_close(fd); }
static FILE *file_on(int fd, const char *mode) {
    InSim g;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    Cookie *c = new Cookie{fd};
    FILE *f = fopencookie(c, mode, io);
    if (!f) { delete c; return nullptr; }
    (*g_files)[f] = fd;
    return f;
}
static bool mode_flags(const char *m, int &fl) {
    bool plus = strchr(m, '+');
    switch (m[0]) {
    case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
    case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
    case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    default: errno = EINVAL; return false;
    }
    if (strchr(m, 'x')) fl |= O_EXCL;
    return true;
}
static FILE *s_fopen(const char *path, const char *mode) {
    int fl;
    if (!mode_flags(mode, fl)) return nullptr;
    int fd = s_open(AT_FDCWD, path, fl, 0666);
    if (fd < 0) return nullptr;
    FILE *f = file_on(fd, mode);
    if (!f) s_close(fd);
    return f;
}
static inline FILE *xf(FILE *f) { // the process's standard streams live in the simulated world
    if (!g_active) return f;
    if (f == stdout) return g_out;
    if (f == stderr) return g_err;
    return f;
}

// ------------------------------------------------------------------ clock
static int64_t now() {
    InSim g;
    g_clock_queries++;
    for (auto &j : g_sc->jumps) if (j.first == g_clock_queries) g_now_ns = j.second;
    fault("clock", "clock");
    event("clock", "", g_clock_queries, nullptr);
    return (int64_t)g_now_ns;
}
static int64_t floordiv(int64_t a, int64_t b) { int64_t q = a / b; if (a % b < 0) q--; return q; }

// ------------------------------------------------------------------ plugins
std::map<std::string, RealPlugin> *g_real_plugins;
static std::string *g_dlerr;
static std::map<void *, std::string> *g_handles;

void activate() {
    g_fds = new std::vector<OFD *>;
    for (int i = 0; i < 3; i++) {
        OFD *o = new OFD; o->std = i; o->flags = i ? O_WRONLY : O_RDONLY;
        o->path = i == 0 ? "<stdin>" : i == 1 ? "<stdout>" : "<stderr>";
        g_fds->push_back(o);
    }
    g_dirs = new std::map<void *, SDir *>;
    g_files = new std::map<FILE *, int>;
    g_handles = new std::map<void *, std::string>;
    root();
    Node *n = walk(g_root, g_sc->cwd, true, nullptr, nullptr);
    if (!n) { fs_add('d', g_sc->cwd, 0, 0755, 0, ""); n = walk(g_root, g_sc->cwd, true, nullptr, nullptr); }
    g_cwd_node = n; g_cwd = node_path(n);
    g_now_ns = g_sc->clock_ns;
    g_out = file_on(1, "w");
    g_err = file_on(2, "w");
    setvbuf(g_err, nullptr, _IONBF, 0);
    g_active = true;
}
} // namespace sim

using namespace sim;
#define EXP extern "C" __attribute__((visibility("default")))
#define REAL(ret, name, ...) \
    typedef ret (*real_##name##_t)(__VA_ARGS__); static real_##name##_t real_##name;
#define LOADR(name) real_##name = (real_##name##_t)xdlsym(#name)

typedef void *(*dlsym_t)(void *, const char *);
static dlsym_t real_dlsym_;
static void *xdlsym(const char *n) {
    if (!real_dlsym_) {
        real_dlsym_ = (dlsym_t)dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.34");
        if (!real_dlsym_) real_dlsym_ = (dlsym_t)dlvsym(RTLD_NEXT, "dlsym", "GLIBC_2.2.5");
    }
    return real_dlsym_(RTLD_NEXT, n);
}
// pass-through is only needed while the host starts up; `L` resolves lazily
#define L(name) (real_##name ? real_##name : (LOADR(name)))

REAL(int, open, const char *, int, ...)
REAL(int, openat, int, const char *, int, ...)
REAL(int, close, int)
REAL(ssize_t, read, int, void *, size_t)
REAL(ssize_t, pread, int, void *, size_t, off_t)
REAL(ssize_t, write, int, const void *, size_t)
REAL(ssize_t, writev, int, const struct iovec *, int)
REAL(off_t, lseek, int, off_t, int)
REAL(int, stat, const char *, struct stat *)
REAL(int, lstat, const char *, struct stat *)
REAL(int, fstat, int, struct stat *)
REAL(int, access, const char *, int)
REAL(ssize_t, readlink, const char *, char *, size_t)
REAL(char *, realpath, const char *, char *)
REAL(char *, getcwd, char *, size_t)
REAL(DIR *, opendir, const char *)
REAL(struct dirent *, readdir, DIR *)
REAL(int, closedir, DIR *)
REAL(void *, mmap, void *, size_t, int, int, int, off_t)
REAL(FILE *, fopen, const char *, const char *)
REAL(FILE *, fdopen, int, const char *)
REAL(int, fclose, FILE *)
REAL(int, fileno, FILE *)
REAL(size_t, fwrite, const void *, size_t, size_t, FILE *)
REAL(int, fputs, const char *, FILE *)
REAL(int, fputc, int, FILE *)
REAL(int, putc, int, FILE *)
REAL(int, fflush, FILE *)
REAL(int, vfprintf, FILE *, const char *, va_list)
REAL(int, ferror, FILE *)
REAL(void, clearerr, FILE *)
REAL(int, setvbuf, FILE *, char *, int, size_t)
REAL(time_t, time, time_t *)
REAL(int, gettimeofday, struct timeval *, void *)
REAL(int, clock_gettime, clockid_t, struct timespec *)
REAL(void *, dlopen, const char *, int)
REAL(char *, dlerror, void)
REAL(int, dlclose, void *)
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, fcntl, int, int, ...)
REAL(int, isatty, int)
REAL(int, ioctl, int, unsigned long, ...)
REAL(int, dup, int)
REAL(int, poll, struct pollfd *, nfds_t, int)
REAL(int, getentropy, void *, size_t)
REAL(int, fsync, int)

namespace sim {
void init_real() {
    L(open); L(openat); L(close); L(read); L(pread); L(write); L(writev); L(lseek); L(stat); L(lstat); L(fstat);
    L(access); L(readlink); L(realpath); L(getcwd); L(opendir); L(readdir); L(closedir); L(mmap); L(fopen);
    L(fdopen); L(fclose); L(fileno); L(fwrite); L(fputs); L(fputc); L(putc); L(fflush); L(vfprintf); L(ferror);
    L(clearerr); L(setvbuf); L(time); L(gettimeofday); L(clock_gettime); L(dlopen); L(dlerror); L(dlclose);
    L(pthread_create); L(fcntl); L(isatty); L(ioctl); L(dup); L(poll); L(getentropy); L(fsync);
}
}

static int omode(int flags, va_list ap) { return (flags & (O_CREAT | O_TMPFILE)) ? va_arg(ap, int) : 0; }

EXP int open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = omode(fl, ap); va_end(ap);
    return g_active ? s_open(AT_FDCWD, p, fl, m) : L(open)(p, fl, m);
}
EXP int open64(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = omode(fl, ap); va_end(ap);
    return g_active ? s_open(AT_FDCWD, p, fl, m) : L(open)(p, fl, m);
}
EXP int __open_2(const char *p, int fl) { return g_active ? s_open(AT_FDCWD, p, fl, 0) : L(open)(p, fl, 0); }
EXP int __open64_2(const char *p, int fl) { return __open_2(p, fl); }
EXP int openat(int d, const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = omode(fl, ap); va_end(ap);
    return g_active ? s_open(d, p, fl, m) : L(openat)(d, p, fl, m);
}
EXP int openat64(int d, const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int m = omode(fl, ap); va_end(ap);
    return g_active ? s_open(d, p, fl, m) : L(openat)(d, p, fl, m);
}
EXP int __openat_2(int d, const char *p, int fl) { return g_active ? s_open(d, p, fl, 0) : L(openat)(d, p, fl, 0); }
EXP int creat(const char *p, mode_t m) { return open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
EXP int close(int fd) { return g_active ? s_close(fd) : L(close)(fd); }
EXP ssize_t read(int fd, void *b, size_t n) {
    if (!g_active) return L(read)(fd, b, n);
    InSim g; OFD *o = fd_get(fd); return o ? s_read(o, b, n, -1) : -1;
}
EXP ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
EXP ssize_t pread(int fd, void *b, size_t n, off_t off) {
    if (!g_active) return L(pread)(fd, b, n, off);
    InSim g; OFD *o = fd_get(fd); return o ? s_read(o, b, n, off) : -1;
}
EXP ssize_t pread64(int fd, void *b, size_t n, off64_t off) { return pread(fd, b, n, off); }
EXP ssize_t __pread_chk(int fd, void *b, size_t n, off_t off, size_t) { return pread(fd, b, n, off); }
EXP ssize_t readv(int fd, const struct iovec *v, int c) {
    if (c < 1) return 0;
    return read(fd, v[0].iov_base, v[0].iov_len);
}
EXP ssize_t write(int fd, const void *b, size_t n) { return g_active ? s_write(fd, b, n, -1) : L(write)(fd, b, n); }
EXP ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { if (!g_active) { errno = EBADF; return -1; } return s_write(fd, b, n, o); }
EXP ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
EXP ssize_t writev(int fd, const struct iovec *v, int c) { return g_active ? s_writev(fd, v, c) : L(writev)(fd, v, c); }
EXP off_t lseek(int fd, off_t o, int w) { return g_active ? s_lseek(fd, o, w) : L(lseek)(fd, o, w); }
EXP off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
EXP int stat(const char *p, struct stat *s) { return g_active ? s_stat(AT_FDCWD, p, s, true) : L(stat)(p, s); }
EXP int stat64(const char *p, struct stat64 *s) { return stat(p, (struct stat *)s); }
EXP int lstat(const char *p, struct stat *s) { return g_active ? s_stat(AT_FDCWD, p, s, false) : L(lstat)(p, s); }
EXP int lstat64(const char *p, struct stat64 *s) { return lstat(p, (struct stat *)s); }
EXP int fstat(int fd, struct stat *s) { return g_active ? s_fstat(fd, s) : L(fstat)(fd, s); }
EXP int fstat64(int fd, struct stat64 *s) { return fstat(fd, (struct stat *)s); }
EXP int fstatat(int d, const char *p, struct stat *s, int fl) {
    if (g_active && (fl & AT_EMPTY_PATH) && !*p) return s_fstat(d, s);
    return s_stat(d, p, s, !(fl & AT_SYMLINK_NOFOLLOW));
}
EXP int fstatat64(int d, const char *p, struct stat64 *s, int fl) { return fstatat(d, p, (struct stat *)s, fl); }
EXP int access(const char *p, int m) { return g_active ? s_access(AT_FDCWD, p, m) : L(access)(p, m); }
EXP int euidaccess(const char *p, int m) { return access(p, m); }
EXP int eaccess(const char *p, int m) { return access(p, m); }
EXP int faccessat(int d, const char *p, int m, int) { return s_access(d, p, m); }
EXP ssize_t readlink(const char *p, char *b, size_t n) { return g_active ? s_readlink(AT_FDCWD, p, b, n) : L(readlink)(p, b, n); }
EXP ssize_t readlinkat(int d, const char *p, char *b, size_t n) { return s_readlink(d, p, b, n); }
EXP ssize_t __readlink_chk(const char *p, char *b, size_t n, size_t) { return readlink(p, b, n); }
EXP char *realpath(const char *p, char *o) { return g_active ? s_realpath(p, o) : L(realpath)(p, o); }
EXP char *__realpath_chk(const char *p, char *o, size_t) { return realpath(p, o); }
EXP char *canonicalize_file_name(const char *p) { return realpath(p, nullptr); }
EXP char *getcwd(char *b, size_t n) { return g_active ? s_getcwd(b, n) : L(getcwd)(b, n); }
EXP char *__getcwd_chk(char *b, size_t n, size_t) { return getcwd(b, n); }
EXP char *get_current_dir_name(void) { return getcwd(nullptr, 0); }
EXP int chdir(const char *p) { if (!g_active) { errno = EPERM; return -1; } return s_chdir(p); }
EXP int fchdir(int fd) {
    if (!g_active) { errno = EPERM; return -1; }
    InSim g; OFD *o = fd_get(fd); if (!o) return -1;
    if (!o->node || o->node->type != 'd') { errno = ENOTDIR; return -1; }
    if (fails("chdir", o->path)) return -1;
    g_cwd_node = o->node; g_cwd = node_path(o->node); event("chdir", g_cwd, 0, nullptr);
    return 0;
}
EXP DIR *opendir(const char *p) { return g_active ? s_opendir(p) : L(opendir)(p); }
EXP DIR *fdopendir(int fd) {
    InSim g; if (!g_active) { errno = EBADF; return nullptr; }
    OFD *o = fd_get(fd); if (!o) return nullptr;
    if (!o->node || o->node->type != 'd') { errno = ENOTDIR; return nullptr; }
    if (fails("opendir", o->path)) return nullptr;
    event("opendir", o->path, 0, nullptr);
    return (DIR *)dir_make(o->node, o->path, fd);
}
EXP struct dirent *readdir(DIR *d) { return g_active ? s_readdir(d) : L(readdir)(d); }
EXP struct dirent64 *readdir64(DIR *d) { return (struct dirent64 *)readdir(d); }
EXP int closedir(DIR *d) { return g_active ? s_closedir(d) : L(closedir)(d); }
EXP int dirfd(DIR *d) { return ((SDir *)d)->fd; }
EXP void rewinddir(DIR *d) { ((SDir *)d)->pos = 0; }
EXP int scandir(const char *p, struct dirent ***out, int (*filter)(const struct dirent *),
                int (*cmp)(const struct dirent **, const struct dirent **)) {
    DIR *d = opendir(p);
    if (!d) return -1;
    struct dirent **v = (struct dirent **)malloc(sizeof(void *) * 65536); int n = 0;
    while (struct dirent *e = readdir(d)) {
        if (filter && !filter(e)) continue;
        v[n] = (struct dirent *)malloc(sizeof(struct dirent)); *v[n] = *e; n++;
    }
    closedir(d);
    if (cmp) qsort(v, n, sizeof *v, (int (*)(const void *, const void *))cmp);
    *out = v;
    return n;
}
EXP int unlink(const char *p) { if (!g_active) { errno = EPERM; return -1; } return s_unlink(AT_FDCWD, p, false); }
EXP int unlinkat(int d, const char *p, int fl) { if (!g_active) { errno = EPERM; return -1; } return s_unlink(d, p, fl & AT_REMOVEDIR); }
EXP int rmdir(const char *p) { if (!g_active) { errno = EPERM; return -1; } return s_unlink(AT_FDCWD, p, true); }
EXP int remove(const char *p) {
    if (!g_active) { errno = EPERM; return -1; }
    if (s_unlink(AT_FDCWD, p, false) == 0) return 0;
    return errno == EISDIR ? s_unlink(AT_FDCWD, p, true) : -1;
}
EXP int rename(const char *a, const char *b) { if (!g_active) { errno = EPERM; return -1; } return s_rename(AT_FDCWD, a, AT_FDCWD, b); }
EXP int renameat(int d, const char *a, int e, const char *b) { if (!g_active) { errno = EPERM; return -1; } return s_rename(d, a, e, b); }
EXP int renameat2(int d, const char *a, int e, const char *b, unsigned) { return renameat(d, a, e, b); }
EXP int mkdir(const char *p, mode_t m) { if (!g_active) { errno = EPERM; return -1; } return s_mkdir(AT_FDCWD, p, m); }
EXP int mkdirat(int d, const char *p, mode_t m) { if (!g_active) { errno = EPERM; return -1; } return s_mkdir(d, p, m); }
EXP int symlink(const char *t, const char *p) { if (!g_active) { errno = EPERM; return -1; } return s_symlink(t, AT_FDCWD, p); }
EXP int link(const char *, const char *) { errno = EPERM; return -1; }
EXP int linkat(int, const char *, int, const char *, int) { errno = EPERM; return -1; }
EXP int mknod(const char *, mode_t, dev_t) { errno = EPERM; return -1; }
EXP int truncate(const char *p, off_t n) {
    if (!g_active) { errno = EPERM; return -1; }
    InSim g; Node *k = walk(g_cwd_node, p, true, nullptr, nullptr); if (!k) return -1;
    if (!(k->mode & 0200)) { errno = EACCES; return -1; }
    return s_truncate_node(k, node_path(k), n);
}
EXP int truncate64(const char *p, off64_t n) { return truncate(p, n); }
EXP int ftruncate(int fd, off_t n) {
    if (!g_active) { errno = EPERM; return -1; }
    InSim g; OFD *o = fd_get(fd); if (!o) return -1;
    if (!o->node || (o->flags & O_ACCMODE) == O_RDONLY) { errno = EINVAL; return -1; }
    return s_truncate_node(o->node, o->path, n);
}
EXP int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
EXP int fsync(int fd) {
    if (!g_active) return L(fsync)(fd);
    InSim g; OFD *o = fd_get(fd); if (!o) return -1;
    if (o->std >= 0) { errno = EINVAL; return -1; }
    if (fails("fsync", o->path)) return -1;
    event("fsync", o->path, 0, nullptr);
    return 0;
}
EXP int fdatasync(int fd) { return fsync(fd); }
EXP void sync(void) {}
EXP int chmod(const char *p, mode_t m) {
    if (!g_active) { errno = EPERM; return -1; }
    InSim g; Node *k = walk(g_cwd_node, p, true, nullptr, nullptr); if (!k) return -1;
    if (fails("chmod", node_path(k))) return -1;
    k->mode = m & 0777; journal('M', k->ino, k->mode, "", nullptr, 0); event("chmod", node_path(k), 0, nullptr);
    return 0;
}
EXP int fchmod(int fd, mode_t m) { InSim g; if (!g_active) { errno = EPERM; return -1; } OFD *o = fd_get(fd); if (!o || !o->node) return -1; o->node->mode = m & 0777; journal('M', o->node->ino, m & 0777, "", nullptr, 0); return 0; }
EXP int fchmodat(int d, const char *p, mode_t m, int) { (void)d; return chmod(p, m); }
EXP int chown(const char *, uid_t, gid_t) { errno = EPERM; return -1; }
EXP int fchown(int, uid_t, gid_t) { errno = EPERM; return -1; }
EXP int utimensat(int, const char *, const struct timespec *, int) { errno = EPERM; return -1; }
EXP int futimens(int, const struct timespec *) { return 0; }
EXP mode_t umask(mode_t) { return 022; }
EXP int dup(int fd) {
    if (!g_active) return L(dup)(fd);
    InSim g; OFD *o = fd_get(fd); if (!o) return -1; o->refs++; return fd_new(o, 0);
}
EXP int dup2(int a, int b) {
    if (!g_active) { errno = EBADF; return -1; }
    InSim g; OFD *o = fd_get(a); if (!o) return -1; if (a == b) return b;
    while ((int)g_fds->size() <= b) g_fds->push_back(nullptr);
    if ((*g_fds)[b]) ofd_unref((*g_fds)[b]);
    o->refs++; (*g_fds)[b] = o; return b;
}
EXP int dup3(int a, int b, int) { return dup2(a, b); }
EXP int fcntl(int fd, int cmd, ...) {
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    if (!g_active) return L(fcntl)(fd, cmd, arg);
    InSim g; OFD *o = fd_get(fd); if (!o) return -1;
    switch (cmd) {
    case F_GETFL: return o->flags;
    case F_DUPFD: case F_DUPFD_CLOEXEC: o->refs++; return fd_new(o, arg);
    default: return 0;
    }
}
EXP int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap); return fcntl(fd, cmd, arg); }
EXP int isatty(int fd) { if (!g_active) return L(isatty)(fd); errno = ENOTTY; return 0; }
EXP int ioctl(int fd, unsigned long rq, ...) {
    va_list ap; va_start(ap, rq); void *arg = va_arg(ap, void *); va_end(ap);
    if (!g_active) return L(ioctl)(fd, rq, arg);
    if (rq == FIONREAD) { InSim g; OFD *o = fd_get(fd); if (!o) return -1; *(int *)arg = o->node && o->node->data.size() > o->off ? o->node->data.size() - o->off : 0; return 0; }
    errno = ENOTTY; return -1;
}
EXP int poll(struct pollfd *p, nfds_t n, int t) { if (!g_active) return L(poll)(p, n, t); for (nfds_t i = 0; i < n; i++) p[i].revents = p[i].events; return n; }
EXP int statfs(const char *p, struct statfs *s) { InSim g; if (!g_active) return -1; Node *n = walk(g_cwd_node, p, true, nullptr, nullptr); if (!n) return -1; memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20; return 0; }
EXP int statfs64(const char *p, struct statfs64 *s) { return statfs(p, (struct statfs *)s); }
EXP int fstatfs(int, struct statfs *s) { memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; return 0; }
EXP int fstatfs64(int fd, struct statfs64 *s) { return fstatfs(fd, (struct statfs *)s); }
EXP int statvfs(const char *, struct statvfs *s) { memset(s, 0, sizeof *s); s->f_bsize = 4096; s->f_bavail = 1 << 20; return 0; }
EXP ssize_t sendfile(int, int, off_t *, size_t) { errno = EINVAL; return -1; }
EXP ssize_t copy_file_range(int, off64_t *, int, off64_t *, size_t, unsigned) { errno = ENOSYS; return -1; }

EXP void *mmap(void *a, size_t len, int prot, int fl, int fd, off_t off) {
    if (!g_active || (fl & MAP_ANONYMOUS)) return (void *)syscall(SYS_mmap, a, len, prot, fl, fd, off);
    InSim g;
    OFD *o = fd_get(fd);
    if (!o || !o->node) { errno = EBADF; return MAP_FAILED; }
    if (fails("mmap", o->path)) return MAP_FAILED;
    long r = syscall(SYS_mmap, a, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (fl & MAP_FIXED), -1, 0);
    if (r == -1) return MAP_FAILED;
    const std::string &d = o->node->data;
    if ((uint64_t)off < d.size()) memcpy((void *)r, d.data() + off, std::min((size_t)(d.size() - off), len));
    if (!g_maps) g_maps = new std::map<void *, size_t>;
    (*g_maps)[(void *)r] = len; g_mapped += len;
    event("mmap", o->path, len, nullptr);
    return (void *)r;
}
EXP int munmap(void *a, size_t len) {
    if (g_active && g_maps) {
        InSim g;
        auto i = g_maps->find(a);
        if (i != g_maps->end()) { g_mapped -= i->second; g_maps->erase(i); }
    }
    return syscall(SYS_munmap, a, len);
}
EXP void *mmap64(void *a, size_t len, int prot, int fl, int fd, off64_t off) { return mmap(a, len, prot, fl, fd, off); }

// ---- stdio
EXP FILE *fopen(const char *p, const char *m) { return g_active ? s_fopen(p, m) : L(fopen)(p, m); }
EXP FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
EXP FILE *fdopen(int fd, const char *m) { if (!g_active) return L(fdopen)(fd, m); return file_on(fd, m); }
EXP int fclose(FILE *f) {
    f = xf(f);
    if (!g_active) return L(fclose)(f);
    InSim g;
    if (g_files->count(f)) g_files->erase(f);
    return L(fclose)(f);
}
EXP FILE *freopen(const char *p, const char *m, FILE *f) {
    if (!g_active) return nullptr;
    FILE *n = s_fopen(p, m);
    if (!n) return nullptr;
    if (f == stdout) g_out = n; else if (f == stderr) g_err = n;
    return f;
}
EXP FILE *tmpfile(void) { errno = EROFS; return nullptr; }
EXP int mkstemp(char *t) {
    if (!g_active) { errno = EPERM; return -1; }
    InSim g; static int n; size_t l = strlen(t); if (l < 6) { errno = EINVAL; return -1; }
    char b[8]; snprintf(b, sizeof b, "%06d", n++); memcpy(t + l - 6, b, 6);
    return s_open(AT_FDCWD, t, O_RDWR | O_CREAT | O_EXCL, 0600);
}
EXP int mkostemp(char *t, int) { return mkstemp(t); }
EXP int fileno(FILE *f) {
    f = xf(f);
    if (!g_active) return L(fileno)(f);
    if (f == stdin) return 0;
    auto it = g_files->find(f);
    if (it != g_files->end()) return it->second;
    errno = EBADF; return -1;
}
EXP int fileno_unlocked(FILE *f) { return fileno(f); }
EXP size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { return L(fwrite)(p, s, n, xf(f)); }
EXP size_t fwrite_unlocked(const void *p, size_t s, size_t n, FILE *f) { return L(fwrite)(p, s, n, xf(f)); }
EXP int fputs(const char *s, FILE *f) { return L(fputs)(s, xf(f)); }
EXP int fputs_unlocked(const char *s, FILE *f) { return L(fputs)(s, xf(f)); }
EXP int fputc(int c, FILE *f) { return L(fputc)(c, xf(f)); }
EXP int putc(int c, FILE *f) { return L(fputc)(c, xf(f)); }
EXP int fputc_unlocked(int c, FILE *f) { return L(fputc)(c, xf(f)); }
EXP int putc_unlocked(int c, FILE *f) { return L(fputc)(c, xf(f)); }
EXP int putchar(int c) { return L(fputc)(c, xf(stdout)); }
EXP int puts(const char *s) { int r = L(fputs)(s, xf(stdout)); if (r < 0) return r; return L(fputc)('\n', xf(stdout)); }
EXP int fflush(FILE *f) { return L(fflush)(f ? xf(f) : f); }
EXP int fflush_unlocked(FILE *f) { return fflush(f); }
EXP int ferror(FILE *f) { return L(ferror)(xf(f)); }
EXP void clearerr(FILE *f) { L(clearerr)(xf(f)); }
EXP int setvbuf(FILE *f, char *b, int m, size_t n) { return L(setvbuf)(xf(f), b, m, n); }
EXP void setbuf(FILE *f, char *b) { setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
EXP int vfprintf(FILE *f, const char *s, va_list ap) { return L(vfprintf)(xf(f), s, ap); }
EXP int fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); int r = vfprintf(f, s, ap); va_end(ap); return r; }
EXP int printf(const char *s, ...) { va_list ap; va_start(ap, s); int r = vfprintf(stdout, s, ap); va_end(ap); return r; }
EXP int vprintf(const char *s, va_list ap) { return vfprintf(stdout, s, ap); }
EXP int __fprintf_chk(FILE *f, int, const char *s, ...) { va_list ap; va_start(ap, s); int r = vfprintf(f, s, ap); va_end(ap); return r; }
EXP int __printf_chk(int, const char *s, ...) { va_list ap; va_start(ap, s); int r = vfprintf(stdout, s, ap); va_end(ap); return r; }
EXP int __vfprintf_chk(FILE *f, int, const char *s, va_list ap) { return vfprintf(f, s, ap); }
EXP void perror(const char *s) { fprintf(stderr, "%s: error %d\n", s, errno); }
EXP void __assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
    fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, e);
    abort();
}

// ---- time
EXP time_t time(time_t *t) {
    if (!g_active) return L(time)(t);
    time_t v = floordiv(now(), 1000000000ll); if (t) *t = v; return v;
}
EXP int gettimeofday(struct timeval *tv, void *tz) {
    if (!g_active) return L(gettimeofday)(tv, tz);
    int64_t n = now(); tv->tv_sec = floordiv(n, 1000000000ll); tv->tv_usec = (n - tv->tv_sec * 1000000000ll) / 1000; return 0;
}
EXP int clock_gettime(clockid_t c, struct timespec *ts) {
    if (!g_active) return L(clock_gettime)(c, ts);
    int64_t n;
    if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) n = now();
    else { n = 1000000000ll + g_sh->sim_ns; }
    ts->tv_sec = floordiv(n, 1000000000ll); ts->tv_nsec = n - ts->tv_sec * 1000000000ll; return 0;
}
EXP int timespec_get(struct timespec *ts, int b) { clock_gettime(CLOCK_REALTIME, ts); return b; }
EXP clock_t clock(void) { return g_active ? g_sh->sim_ns / 1000 : 0; }
EXP int nanosleep(const struct timespec *a, struct timespec *) {
    if (!g_active) return 0;
    InSim g; uint64_t n = a->tv_sec * 1000000000ull + a->tv_nsec; g_now_ns += n; g_sh->sim_ns += n; event("sleep", "", n, nullptr); return 0;
}
EXP int usleep(useconds_t u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXP unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, nullptr); return 0; }

// ---- randomness
static Rng g_rnd(7);
EXP int getentropy(void *b, size_t n) { if (!g_active) return L(getentropy)(b, n); for (size_t i = 0; i < n; i++) ((char *)b)[i] = g_rnd.next(); return 0; }
EXP ssize_t getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = g_rnd.next(); return n; }
EXP uint32_t arc4random(void) { return g_rnd.next(); }

// ---- processes, threads, users: not part of the simulated world
static int deny(const char *what) {
    InSim g; if (g_sh) { g_sh->note |= 4; std::string m = std::string("E\t") + what + "\n"; shared_append(g_sh->misc, m.data(), m.size()); }
    errno = EPERM; return -1;
}
EXP pid_t vfork(void) { return deny("vfork"); }
EXP int execv(const char *, char *const *) { return deny("execv"); }
EXP int execve(const char *, char *const *, char *const *) { return deny("execve"); }
EXP int execvp(const char *, char *const *) { return deny("execvp"); }
EXP int posix_spawn(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { deny("posix_spawn"); return EPERM; }
EXP int posix_spawnp(pid_t *, const char *, const void *, const void *, char *const *, char *const *) { deny("posix_spawnp"); return EPERM; }
EXP int system(const char *) { return deny("system"); }
EXP FILE *popen(const char *, const char *) { deny("popen"); return nullptr; }
EXP int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    if (!g_active) return L(pthread_create)(t, a, f, x);
    deny("pthread_create"); g_sh->note |= 8; return EAGAIN;
}
EXP pid_t getpid(void) { return g_active ? 4242 : syscall(SYS_getpid); }
EXP int gethostname(char *b, size_t n) { strncpy(b, "simhost", n); return 0; }
EXP int getpwuid_r(uid_t, struct passwd *, char *, size_t, struct passwd **r) { *r = nullptr; return ENOENT; }
EXP int getpwnam_r(const char *, struct passwd *, char *, size_t, struct passwd **r) { *r = nullptr; return ENOENT; }
EXP struct passwd *getpwuid(uid_t) { return nullptr; }
EXP struct passwd *getpwnam(const char *) { return nullptr; }

// ---- plugins
EXP void *dlopen(const char *p, int fl) {
    if (!g_active) return L(dlopen)(p, fl);
    std::string *full, *kind, *arg; RealPlugin *rp = nullptr;
    {
        InSim g;
        if (!p) return nullptr;
        full = new std::string(at_path(AT_FDCWD, p));
        if (!g_dlerr) g_dlerr = new std::string;
        Hit h = fault("dlopen", *full);
        if (h.on) { *g_dlerr = *full + ": cannot open shared object file: simulated " + h.kind; event("dlopen", *full, -1, "fault"); return nullptr; }
        Node *n = walk(g_cwd_node, p, true, nullptr, nullptr);
        if (!n) { *g_dlerr = *full + ": cannot open shared object file: No such file or directory"; event("dlopen", *full, -1, nullptr); return nullptr; }
        std::string real = node_path(n);
        auto it = g_sc->plugins.find(real);
        if (n->type != 'f' || it == g_sc->plugins.end() || it->second.kind == "bad") {
            *g_dlerr = *full + ": file too short"; event("dlopen", *full, -1, nullptr); return nullptr;
        }
        kind = new std::string(it->second.kind); arg = new std::string(it->second.arg);
        event("dlopen", *full, it->second.loaded ? 1 : 0, nullptr);
        void *handle = &it->second;
        (*g_handles)[handle] = real;
        if (it->second.loaded) return handle;
        it->second.loaded = true;
        *full = real;
        if (*kind == "real") {
            auto r = g_real_plugins->find(*arg);
            if (r == g_real_plugins->end()) { *g_dlerr = "no such real plugin " + *arg; deny("missing real plugin"); return nullptr; }
            rp = &r->second;
        }
        if (*kind == "rule" || *kind == "nosym" || *kind == "reporter" || *kind == "empty") {}
    }
    // from here on the plugin's own initializers run, on the process's heap
    if (rp) {
        // one mapped library under several names: initialise it once per process, as the
        // dynamic linker does for one inode
        if (!rp->done) {
            rp->done = true;
            void (**f)(int, char **, char **) = (void (**)(int, char **, char **))(rp->base + rp->init_addr);
            for (uint64_t i = 0; i < rp->init_size / 8; i++) if (f[i]) f[i](0, nullptr, nullptr);
        }
    } else register_script_rules(*full);
    InSim g;
    for (auto &h : *g_handles) if (h.second == *full) return h.first;
    return nullptr;
}
EXP void *dlmopen(Lmid_t, const char *p, int fl) { return dlopen(p, fl); }
EXP void *dlsym(void *h, const char *name) {
    if (!g_active) { if (!real_dlsym_) xdlsym("dlsym"); return real_dlsym_(h, name); }
    InSim g;
    auto it = g_handles->find(h);
    if (it == g_handles->end()) return nullptr;
    Hit hf = fault("dlsym", it->second);
    Plugin &pl = g_sc->plugins[it->second];
    void *r = nullptr;
    if (hf.on) {}
    else if (pl.kind == "real") {
        RealPlugin &rp = (*g_real_plugins)[pl.arg];
        if (!strcmp(name, "create")) r = rp.create;
        else { if (!real_dlsym_) xdlsym("dlsym"); r = real_dlsym_(rp.handle, name); }
    } else if (pl.kind == "reporter" && !strcmp(name, "create")) {
        r = make_script_reporter(pl.arg);
    }
    if (!r) { if (!g_dlerr) g_dlerr = new std::string; *g_dlerr = it->second + ": undefined symbol: " + name; }
    event("dlsym", it->second, r ? 0 : -1, hf.on ? "fault" : nullptr);
    return r;
}
EXP char *dlerror(void) {
    if (!g_active) return L(dlerror)();
    if (!g_dlerr || g_dlerr->empty()) return nullptr;
    InSim g;
    static std::string *last;
    if (!last) last = new std::string;
    *last = *g_dlerr;
    g_dlerr->clear();
    return &(*last)[0];
}
EXP int dlclose(void *h) { if (!g_active) return L(dlclose)(h); InSim g; event("dlclose", "", 0, nullptr); return 0; }
