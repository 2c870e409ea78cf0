// Simulated file system: an in-memory tree behind the C library's file functions, for simulated threads only.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "rt_int.hpp"
#include <dirent.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/statvfs.h>
#include <sys/uio.h>

namespace dst
{
    constexpr int MAXINO = 4096, MAXNAME = 4096, MAXFD = 1024, FD0 = 100000, PMAX = 512;
    struct Inode { bool used, dir; char* data; size_t len, cap; int nlink, opens; size_t lost; };  // lost: bytes of failed writes
    struct Name { bool used; char path[PMAX]; int ino; };
    struct Fd { bool used; int ino; i64 pos; bool append, rd, wr; FILE* stream; int dirPos; };
    static void (*g_moveHook)(const char*, size_t, size_t) = nullptr;
    static Inode* ino; static Name* names; static Fd* fds;
    static int nIno = 0, nName = 0;
    static char vcwd[PMAX] = "/sim/work";
    static u64 g_ops = 0, g_crashAt = NEVER; static u32 g_torn = 0;
    static bool g_freeze = false; static int g_stalled = 0; static u64 g_opens = 0, g_wf[64]; static int g_nwf = 0;
    static u64 g_renames = 0, g_unlinks = 0;

    void fs_init()
    {
        ino = (Inode*)calloc(MAXINO, sizeof(Inode));
        names = (Name*)calloc(MAXNAME, sizeof(Name));
        fds = (Fd*)calloc(MAXFD, sizeof(Fd));
    }
    static int new_inode(bool dir)
    {
        for (int i = 0; i < nIno; ++i) if (!ino[i].used) { ino[i] = Inode{ true, dir, nullptr, 0, 0, 0, 0, 0 }; return i; }
        if (nIno >= MAXINO) fail("livelock", "no end: more than %d files were created", MAXINO);
        ino[nIno] = Inode{ true, dir, nullptr, 0, 0, 0, 0, 0 };
        return nIno++;
    }
    static void drop_inode(int i)
    {
        if (ino[i].nlink == 0 && ino[i].opens == 0) { free(ino[i].data); ino[i].data = nullptr; ino[i].used = false; }
    }
    static Name* find(const char* p)
    {
        for (int i = 0; i < nName; ++i) if (names[i].used && !strcmp(names[i].path, p)) return &names[i];
        return nullptr;
    }
    static Name* link_name(const char* p, int i)
    {
        Name* n = nullptr;
        for (int k = 0; k < nName && !n; ++k) if (!names[k].used) n = &names[k];
        if (!n) { if (nName >= MAXNAME) fail("livelock", "no end: more than %d file names were used", MAXNAME); n = &names[nName++]; }
        n->used = true; n->ino = i; snprintf(n->path, PMAX, "%s", p); ++ino[i].nlink;
        return n;
    }
    static void ensure_root()
    {
        if (!find("/")) link_name("/", new_inode(true));
    }
    // absolute, without "." "..", doubled or trailing slashes
    static int norm(const char* p, char* out)
    {
        if (!p || !*p) return ENOENT;
        char tmp[2 * PMAX];
        if (strlen(p) >= PMAX) return ENAMETOOLONG;
        if (p[0] == '/') snprintf(tmp, sizeof tmp, "%s", p);
        else snprintf(tmp, sizeof tmp, "%s/%s", vcwd, p);
        size_t o = 0; out[o] = 0;
        char* s = tmp;
        while (*s)
        {
            while (*s == '/') ++s;
            char* e = s; while (*e && *e != '/') ++e;
            size_t n = (size_t)(e - s);
            if (n == 0) break;
            if (n == 1 && s[0] == '.') {}
            else if (n == 2 && s[0] == '.' && s[1] == '.') { while (o && out[o - 1] != '/') --o; if (o) --o; out[o] = 0; }
            else { if (o + n + 2 > PMAX) return ENAMETOOLONG; if (n > 255) return ENAMETOOLONG; out[o++] = '/'; memcpy(out + o, s, n); o += n; out[o] = 0; }
            s = e;
        }
        if (!o) { out[0] = '/'; out[1] = 0; }
        return 0;
    }
    static int parent_ok(const char* p)
    {
        char q[PMAX]; snprintf(q, PMAX, "%s", p);
        char* s = strrchr(q, '/'); if (s == q) s[1] = 0; else *s = 0;
        Name* n = find(q);
        if (!n)
        {
            // a prefix that is a file gives ENOTDIR, as the kernel does
            for (;;)
            {
                s = strrchr(q, '/'); if (!s || s == q) return ENOENT;
                *s = 0; n = find(q);
                if (n) return ino[n->ino].dir ? ENOENT : ENOTDIR;
            }
        }
        return ino[n->ino].dir ? 0 : ENOTDIR;
    }
    static bool has_children(const char* p)
    {
        size_t n = strlen(p);
        for (int i = 0; i < nName; ++i) if (names[i].used && !strncmp(names[i].path, p, n) && names[i].path[n] == '/') return true;
        return false;
    }
    static void put_bytes(Inode& f, size_t at, const char* b, size_t n)
    {
        if (at + n > f.cap)
        {
            size_t c = f.cap ? f.cap : 256; while (c < at + n) c *= 2;
            f.data = (char*)realloc(f.data, c); f.cap = c;
        }
        if (at > f.len) memset(f.data + f.len, 0, at - f.len);
        memcpy(f.data + at, b, n);
        if (at + n > f.len) f.len = at + n;
    }

    // every file operation passes here: scheduling point, crash point, stall
    static bool enter(int code, bool* tear = nullptr)
    {
        Thread* me = tl_self;
        if (me->depth) return true;
        const char* nm = code == 40 ? "open" : code == 41 ? "write" : code == 42 ? "rename" : code == 43 ? "unlink" : code == 44 ? "mkdir" : code == 45 ? "stat" : "file-op";
        strcpy(me->op, nm);
        point(code, 0);
        while (g_freeze) { ++g_stalled; me->state = T_FS; block_self(); --g_stalled; }
        ++g_ops;
        mix(g_ops * 131 + (u64)code);
        if (g_ops == g_crashAt)
        {
            if (tear && g_torn) { *tear = true; return true; }
            fs::save_blob(); count_fault(K_IO_CRASH); finish_crashed();
        }
        if (K.pm[K_IO_STALL])
        {
            u32 v = choose(K_IO_STALL, 14, K.pm[K_IO_STALL]);
            if (v) { ++g_stalled; sleep_until_mono(now_ns() + (u64)v * 50000 * (1ull << (2 * (v / 2)))); --g_stalled; }
        }
        return true;
    }
    static bool faulty(Kind k, u32 n, u32* v)
    {
        if (tl_self->depth || !K.pm[k]) return false;
        *v = choose(k, n, K.pm[k]);
        return *v != 0;
    }
    static int err(int e) { errno = e; return -1; }
    static void after() { if (!tl_self->depth) point(50, 0); }

    static int fd_new(int i, bool append, bool rd, bool wr)
    {
        for (int k = 0; k < MAXFD; ++k) if (!fds[k].used) { fds[k] = Fd{ true, i, 0, append, rd, wr, nullptr, 0 }; ++ino[i].opens; return FD0 + k; }
        return err(EMFILE);
    }
    static Fd* fd_get(int fd)
    {
        if (fd < FD0 || fd >= FD0 + MAXFD || !fds[fd - FD0].used) return nullptr;
        return &fds[fd - FD0];
    }
    static int do_open(const char* path, int flags)
    {
        enter(40);
        u32 v;
        if (faulty(K_IO_OPEN, 4, &v)) { static const int e[] = { EMFILE, EACCES, ENOSPC, EIO }; return err(e[v - 1]); }
        ensure_root();
        char p[PMAX]; int e = norm(path, p); if (e) return err(e);
        bool trailing = path[strlen(path) - 1] == '/';
        int acc = flags & O_ACCMODE;
        Name* n = find(p);
        if (n)
        {
            if ((flags & O_CREAT) && (flags & O_EXCL)) return err(EEXIST);
            if (ino[n->ino].dir && acc != O_RDONLY) return err(EISDIR);
            if ((flags & O_DIRECTORY || trailing) && !ino[n->ino].dir) return err(ENOTDIR);
        }
        else
        {
            e = parent_ok(p); if (e) return err(e);
            if (!(flags & O_CREAT)) return err(ENOENT);
            if (trailing) return err(EISDIR);
            n = link_name(p, new_inode(false));
        }
        if ((flags & O_TRUNC) && acc != O_RDONLY) ino[n->ino].len = 0;
        if (!tl_self->depth) ++g_opens;
        int fd = fd_new(n->ino, (flags & O_APPEND) != 0, acc != O_WRONLY, acc != O_RDONLY);
        after();
        return fd;
    }
    static ssize_t do_write(int fd, const char* b, size_t n)
    {
        bool tear = false;
        enter(41, &tear);
        Fd* f = fd_get(fd);
        if (!f || !f->wr) return err(EBADF);
        if (ino[f->ino].dir) return err(EISDIR);
        u32 v;
        if (!tear && faulty(K_IO_EINTR, 1, &v)) return err(EINTR);
        if (!tear && faulty(K_IO_WRITE, 2, &v)) { ino[f->ino].lost += n; if (g_nwf < 64) g_wf[g_nwf++] = g_opens; return err(v == 1 ? ENOSPC : EIO); }
        if (!tear && n > 1 && faulty(K_IO_SHORT, 7, &v)) { n = n * v / 8; if (!n) n = 1; }
        if (tear) n = (size_t)((u64)n * g_torn / 1000);
        Inode& i = ino[f->ino];
        if (f->append) f->pos = (i64)i.len;
        put_bytes(i, (size_t)f->pos, b, n);
        f->pos += (i64)n;
        if (tear) { fs::save_blob(); count_fault(K_IO_CRASH); finish_crashed(); }
        after();
        return (ssize_t)n;
    }
    static ssize_t do_read(int fd, char* b, size_t n)
    {
        enter(46);
        Fd* f = fd_get(fd);
        if (!f || !f->rd) return err(EBADF);
        Inode& i = ino[f->ino];
        if (i.dir) return err(EISDIR);
        size_t left = f->pos < (i64)i.len ? i.len - (size_t)f->pos : 0;
        if (n > left) n = left;
        if (n) memcpy(b, i.data + f->pos, n);
        f->pos += (i64)n;
        return (ssize_t)n;
    }
    static i64 do_seek(int fd, i64 off, int whence)
    {
        Fd* f = fd_get(fd); if (!f) return err(EBADF);
        i64 b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f->pos : (i64)ino[f->ino].len;
        if (b + off < 0) return err(EINVAL);
        return f->pos = b + off;
    }
    static int do_close(int fd)
    {
        if (!tl_self->depth) enter(47);
        Fd* f = fd_get(fd); if (!f) return err(EBADF);
        f->used = false; --ino[f->ino].opens; drop_inode(f->ino);
        after();
        return 0;
    }
    static void fill_stat(int i, struct stat* st)
    {
        memset(st, 0, sizeof *st);
        st->st_dev = 77; st->st_ino = (ino_t)(i + 1); st->st_mode = ino[i].dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
        st->st_nlink = (nlink_t)(ino[i].nlink ? ino[i].nlink : 1); st->st_size = (off_t)ino[i].len; st->st_blksize = 4096;
        st->st_blocks = (blkcnt_t)((ino[i].len + 511) / 512);
    }
    static int do_stat(const char* path, struct stat* st)
    {
        enter(45);
        u32 v;
        if (faulty(K_IO_STAT, 2, &v)) return err(v == 1 ? EACCES : EIO);
        ensure_root();
        char p[PMAX]; int e = norm(path, p); if (e) return err(e);
        Name* n = find(p);
        if (!n) { e = parent_ok(p); return err(e ? e : ENOENT); }
        if (path[strlen(path) - 1] == '/' && !ino[n->ino].dir) return err(ENOTDIR);
        fill_stat(n->ino, st);
        after();
        return 0;
    }
    static int do_mkdir(const char* path)
    {
        enter(44);
        u32 v;
        if (faulty(K_IO_MKDIR, 3, &v)) { static const int e[] = { ENOSPC, EACCES, EIO }; return err(e[v - 1]); }
        ensure_root();
        char p[PMAX]; int e = norm(path, p); if (e) return err(e);
        if (find(p)) return err(EEXIST);
        e = parent_ok(p); if (e) return err(e);
        link_name(p, new_inode(true));
        after();
        return 0;
    }
    static int do_rename(const char* a, const char* b)
    {
        enter(42);
        u32 v;
        if (faulty(K_IO_RENAME, 3, &v)) { static const int e[] = { EACCES, EIO, EBUSY }; return err(e[v - 1]); }
        ensure_root();
        char p[PMAX], q[PMAX]; int e = norm(a, p); if (e) return err(e);
        e = norm(b, q); if (e) return err(e);
        Name* n = find(p); if (!n) return err(ENOENT);
        e = parent_ok(q); if (e) return err(e);
        if (g_moveHook) g_moveHook(p, ino[n->ino].len, ino[n->ino].lost);
        Name* m = find(q);
        if (m == n) return 0;
        if (m && m->ino == n->ino) return 0;
        bool dir = ino[n->ino].dir;
        if (m)
        {
            if (ino[m->ino].dir && !dir) return err(EISDIR);
            if (!ino[m->ino].dir && dir) return err(ENOTDIR);
            if (dir && has_children(q)) return err(ENOTEMPTY);
            m->used = false; --ino[m->ino].nlink; drop_inode(m->ino);
        }
        if (dir)
        {
            size_t l = strlen(p);
            if (!strncmp(q, p, l) && q[l] == '/') return err(EINVAL);
            for (int i = 0; i < nName; ++i)
                if (names[i].used && !strncmp(names[i].path, p, l) && names[i].path[l] == '/')
                {
                    char r[2 * PMAX]; snprintf(r, sizeof r, "%s%s", q, names[i].path + l);
                    r[PMAX - 1] = 0; memcpy(names[i].path, r, PMAX);
                }
        }
        snprintf(n->path, PMAX, "%s", q);
        ++g_renames;
        note("rename %s -> %s", p, q);
        after();
        return 0;
    }
    static int do_unlink(const char* path, int mode)    // 0 file, 1 directory, 2 either
    {
        enter(43);
        u32 v;
        if (faulty(K_IO_UNLINK, 3, &v)) { static const int e[] = { EACCES, EIO, EBUSY }; return err(e[v - 1]); }
        ensure_root();
        char p[PMAX]; int e = norm(path, p); if (e) return err(e);
        Name* n = find(p);
        if (!n) { e = parent_ok(p); return err(e ? e : ENOENT); }
        bool dir = ino[n->ino].dir;
        if (dir && mode == 0) return err(EISDIR);
        if (!dir && mode == 1) return err(ENOTDIR);
        if (dir && has_children(p)) return err(ENOTEMPTY);
        if (g_moveHook) g_moveHook(p, ino[n->ino].len, ino[n->ino].lost);
        n->used = false; --ino[n->ino].nlink; drop_inode(n->ino);
        ++g_unlinks;
        note("unlink %s", p);
        after();
        return 0;
    }

    namespace fs
    {
        void set_move_hook(void (*fn)(const char*, size_t, size_t)) { g_moveHook = fn; }
        bool exists(const char* path) { ensure_root(); char p[PMAX]; return !norm(path, p) && find(p); }
        const char* data(const char* path, size_t* len)
        {
            ensure_root(); char p[PMAX]; if (norm(path, p)) return nullptr;
            Name* n = find(p); if (!n || ino[n->ino].dir) return nullptr;
            *len = ino[n->ino].len; return ino[n->ino].data ? ino[n->ino].data : "";
        }
        void mkdir_p(const char* path)
        {
            ensure_root(); char p[PMAX]; if (norm(path, p)) return;
            for (size_t i = 1;; ++i)
                if (p[i] == '/' || !p[i])
                {
                    char c = p[i]; p[i] = 0;
                    if (!find(p)) link_name(p, new_inode(true));
                    p[i] = c;
                    if (!c) break;
                }
        }
        void put(const char* path, const char* b, size_t n)
        {
            char p[PMAX]; if (norm(path, p)) return;
            char q[PMAX]; snprintf(q, PMAX, "%s", p); char* s = strrchr(q, '/'); if (s != q) { *s = 0; mkdir_p(q); }
            Name* m = find(p); if (!m) m = link_name(p, new_inode(false));
            ino[m->ino].len = 0; put_bytes(ino[m->ino], 0, b, n);
        }
        static int order[MAXNAME];
        int count()
        {
            int n = 0;
            for (int i = 0; i < nName; ++i) if (names[i].used && !ino[names[i].ino].dir) order[n++] = i;
            for (int i = 1; i < n; ++i) for (int j = i; j > 0 && strcmp(names[order[j - 1]].path, names[order[j]].path) > 0; --j) { int x = order[j]; order[j] = order[j - 1]; order[j - 1] = x; }
            return n;
        }
        const char* path_at(int i) { return names[order[i]].path; }
        void remove_external(const char* path)
        {
            ensure_root(); char p[PMAX]; if (norm(path, p)) return;
            size_t l = strlen(p);
            for (int i = 0; i < nName; ++i)
                if (names[i].used && !strncmp(names[i].path, p, l) && (names[i].path[l] == '/' || !names[i].path[l]))
                { names[i].used = false; --ino[names[i].ino].nlink; drop_inode(names[i].ino); }
        }
        u64 ops() { return g_ops; }
        static void blob(const void* b, size_t n)
        {
            if (R->blobLen + n > BLOB_MAX) fatal("simulated disk image too large");
            memcpy(R->blob + R->blobLen, b, n); R->blobLen += (u32)n;
        }
        // the image is written after whatever the scenario put into the blob
        void save_blob()
        {
            u32 start = R->blobLen, cnt = 0;
            blob(&start, 4); blob(&cnt, 4);
            for (int i = 0; i < nName; ++i)
                if (names[i].used)
                {
                    u32 pl = (u32)strlen(names[i].path), d = ino[names[i].ino].dir, l = (u32)ino[names[i].ino].len;
                    blob(&pl, 4); blob(names[i].path, pl); blob(&d, 4); blob(&l, 4); if (l) blob(ino[names[i].ino].data, l);
                    ++cnt;
                }
            memcpy(R->blob + start + 4, &cnt, 4);
            blob(&start, 4);
        }
        void load_blob()
        {
            ensure_root();
            u32 start; memcpy(&start, R->blob + R->blobLen - 4, 4);
            const char* b = R->blob + start + 4; u32 cnt; memcpy(&cnt, b, 4); b += 4;
            for (u32 i = 0; i < cnt; ++i)
            {
                u32 pl, d, l; char p[PMAX];
                memcpy(&pl, b, 4); b += 4; memcpy(p, b, pl); p[pl] = 0; b += pl; memcpy(&d, b, 4); b += 4; memcpy(&l, b, 4); b += 4;
                if (d) mkdir_p(p); else put(p, b, l);
                b += l;
            }
        }
        void set_crash_at(u64 op, u32 torn) { g_crashAt = op; g_torn = torn; }
        void set_freeze_writes(bool on)
        {
            g_freeze = on;
            if (!on) for (int i = 0; i < nthreads(); ++i) if (thread_of(i)->state == T_FS) wake(thread_of(i));
        }
        int open_handles() { int n = 0; for (int i = 0; i < MAXFD; ++i) n += fds[i].used; return n; }
        bool is_open(const char* path)
        {
            char p[PMAX]; if (norm(path, p)) return false;
            Name* n = find(p); if (!n) return false;
            for (int i = 0; i < MAXFD; ++i) if (fds[i].used && fds[i].ino == n->ino && fds[i].wr) return true;
            return false;
        }
        u64 renames() { return g_renames; }
        u64 unlinks() { return g_unlinks; }
        int stalled() { return g_stalled; }
        u64 opens() { return g_opens; }
        int write_faults() { return g_nwf; }
        u64 write_fault_open(int i) { return g_wf[i]; }
    }

    // C streams on simulated files
    static ssize_t ck_read(void* c, char* b, size_t n) { return do_read((int)(long)c, b, n); }
    static ssize_t ck_write(void* c, const char* b, size_t n)
    {
        size_t o = 0;
        while (o < n)
        {
            ssize_t r = do_write((int)(long)c, b + o, n - o);
            if (r < 0) { if (errno == EINTR) continue; return o ? (ssize_t)o : 0; }
            o += (size_t)r;
        }
        return (ssize_t)n;
    }
    static int ck_seek(void* c, off64_t* p, int w) { i64 r = do_seek((int)(long)c, *p, w); if (r < 0) return -1; *p = r; return 0; }
    static int ck_close(void* c) { return do_close((int)(long)c); }
    static FILE* make_stream(int fd, const char* mode)
    {
        cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
        FILE* f = fopencookie((void*)(long)fd, mode, io);
        Fd* d = fd_get(fd); if (d) d->stream = f;
        return f;
    }
    static int mode_flags(const char* m)
    {
        int f = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
        for (const char* p = m + 1; *p; ++p) { if (*p == '+') f = (f & ~O_ACCMODE) | O_RDWR; if (*p == 'x') f |= O_EXCL; }
        return f;
    }
    static int stream_fd(FILE* f)
    {
        for (int i = 0; i < MAXFD; ++i) if (fds[i].used && fds[i].stream == f) return FD0 + i;
        return -1;
    }
    static bool mine(int fd) { return fd >= FD0 && fd < FD0 + MAXFD; }
}

using namespace dst;
#define RF(ret, name, args, call) static ret (*real_##name) args; \
    static inline ret call_##name args { if (!real_##name) real_##name = (ret(*) args)real_sym(#name); return real_##name call; }
RF(FILE*, fopen, (const char* a, const char* b), (a, b))
RF(int, fileno, (FILE* a), (a))
RF(int, close, (int a), (a))
RF(ssize_t, write, (int a, const void* b, size_t c), (a, b, c))
RF(ssize_t, writev, (int a, const iovec* b, int c), (a, b, c))
RF(ssize_t, read, (int a, void* b, size_t c), (a, b, c))
RF(off_t, lseek, (int a, off_t b, int c), (a, b, c))
RF(int, stat, (const char* a, struct stat* b), (a, b))
RF(int, lstat, (const char* a, struct stat* b), (a, b))
RF(int, fstat, (int a, struct stat* b), (a, b))
RF(int, mkdir, (const char* a, mode_t b), (a, b))
RF(int, rename, (const char* a, const char* b), (a, b))
RF(int, remove, (const char* a), (a))
RF(int, unlink, (const char* a), (a))
RF(int, rmdir, (const char* a), (a))
RF(int, unlinkat, (int a, const char* b, int c), (a, b, c))
RF(char*, getcwd, (char* a, size_t b), (a, b))
RF(int, chdir, (const char* a), (a))
RF(char*, realpath, (const char* a, char* b), (a, b))
RF(ssize_t, readlink, (const char* a, char* b, size_t c), (a, b, c))
RF(int, ftruncate, (int a, off_t b), (a, b))
RF(int, truncate, (const char* a, off_t b), (a, b))
RF(int, fsync, (int a), (a))
RF(int, fdatasync, (int a), (a))
RF(int, access, (const char* a, int b), (a, b))
RF(int, fchmod, (int a, mode_t b), (a, b))
RF(int, statvfs, (const char* a, struct statvfs* b), (a, b))
RF(int, link, (const char* a, const char* b), (a, b))
RF(DIR*, opendir, (const char* a), (a))
RF(DIR*, fdopendir, (int a), (a))
RF(struct dirent*, readdir, (DIR* a), (a))
RF(int, closedir, (DIR* a), (a))
RF(int, dirfd, (DIR* a), (a))
RF(ssize_t, sendfile, (int a, int b, off_t* c, size_t d), (a, b, c, d))

namespace { struct VDir { u64 magic; int fd; char path[PMAX]; int pos; struct dirent ent; }; constexpr u64 VMAGIC = 0x5644495256444952ull; }
static bool is_vdir(DIR* d) { return d && ((VDir*)d)->magic == VMAGIC; }

extern "C"
{
    FILE* fopen(const char* p, const char* m)
    {
        if (!DST_ACTIVE) return call_fopen(p, m);
        int fd = do_open(p, mode_flags(m));
        if (fd < 0) return nullptr;
        return make_stream(fd, m);
    }
    FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
    FILE* fdopen(int fd, const char* m)
    {
        if (DST_ACTIVE && mine(fd)) return make_stream(fd, m);
        static FILE* (*r)(int, const char*); if (!r) r = (FILE * (*)(int, const char*))real_sym("fdopen");
        return r(fd, m);
    }
    int fileno(FILE* f)
    {
        if (DST_ACTIVE) { int fd = stream_fd(f); if (fd >= 0) return fd; }
        return call_fileno(f);
    }
    static int open_common(const char* p, int flags, unsigned mode)
    {
        if (DST_ACTIVE) return do_open(p, flags);
        static int (*r)(const char*, int, ...); if (!r) r = (int (*)(const char*, int, ...))real_sym("open");
        return r(p, flags, mode);
    }
    int open(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); unsigned m = va_arg(ap, unsigned); va_end(ap); return open_common(p, flags, m); }
    int open64(const char* p, int flags, ...) { va_list ap; va_start(ap, flags); unsigned m = va_arg(ap, unsigned); va_end(ap); return open_common(p, flags, m); }
    int openat(int d, const char* p, int flags, ...)
    {
        va_list ap; va_start(ap, flags); unsigned m = va_arg(ap, unsigned); va_end(ap);
        if (DST_ACTIVE)
        {
            if (p[0] == '/' || d == AT_FDCWD) return do_open(p, flags);
            Fd* f = fd_get(d); if (!f) return err(EBADF);
            char q[2 * PMAX]; q[0] = 0;
            for (int i = 0; i < nName; ++i) if (names[i].used && names[i].ino == f->ino) snprintf(q, sizeof q, "%s/%s", names[i].path, p);
            return do_open(q, flags);
        }
        static int (*r)(int, const char*, int, ...); if (!r) r = (int (*)(int, const char*, int, ...))real_sym("openat");
        return r(d, p, flags, m);
    }
    int close(int fd) { if (DST_ACTIVE && mine(fd)) return do_close(fd); return call_close(fd); }
    ssize_t write(int fd, const void* b, size_t n) { if (DST_ACTIVE && mine(fd)) return do_write(fd, (const char*)b, n); return call_write(fd, b, n); }
    ssize_t writev(int fd, const iovec* v, int n)
    {
        if (!(DST_ACTIVE && mine(fd))) return call_writev(fd, v, n);
        size_t tot = 0; for (int i = 0; i < n; ++i) tot += v[i].iov_len;
        char* b = (char*)malloc(tot ? tot : 1); size_t o = 0;
        for (int i = 0; i < n; ++i) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
        ssize_t r = do_write(fd, b, tot);
        int e = errno; free(b); errno = e;
        return r;
    }
    ssize_t read(int fd, void* b, size_t n) { if (DST_ACTIVE && mine(fd)) return do_read(fd, (char*)b, n); return call_read(fd, b, n); }
    off_t lseek(int fd, off_t o, int w) { if (DST_ACTIVE && mine(fd)) return do_seek(fd, o, w); return call_lseek(fd, o, w); }
    off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
    int stat(const char* p, struct stat* s) { if (DST_ACTIVE) return do_stat(p, s); return call_stat(p, s); }
    int lstat(const char* p, struct stat* s) { if (DST_ACTIVE) return do_stat(p, s); return call_lstat(p, s); }
    int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
    int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
    int fstat(int fd, struct stat* s)
    {
        if (DST_ACTIVE && mine(fd)) { Fd* f = fd_get(fd); if (!f) return err(EBADF); fill_stat(f->ino, s); return 0; }
        return call_fstat(fd, s);
    }
    int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
    int mkdir(const char* p, mode_t m) { if (DST_ACTIVE) return do_mkdir(p); return call_mkdir(p, m); }
    int rename(const char* a, const char* b) { if (DST_ACTIVE) return do_rename(a, b); return call_rename(a, b); }
    int remove(const char* p) { if (DST_ACTIVE) return do_unlink(p, 2); return call_remove(p); }
    int unlink(const char* p) { if (DST_ACTIVE) return do_unlink(p, 0); return call_unlink(p); }
    int rmdir(const char* p) { if (DST_ACTIVE) return do_unlink(p, 1); return call_rmdir(p); }
    int unlinkat(int d, const char* p, int fl) { if (DST_ACTIVE) return do_unlink(p, fl & AT_REMOVEDIR ? 1 : 0); return call_unlinkat(d, p, fl); }
    char* getcwd(char* b, size_t n)
    {
        if (!DST_ACTIVE) return call_getcwd(b, n);
        enter(48);
        u32 v;
        if (faulty(K_IO_CWD, 2, &v)) { errno = v == 1 ? ENOENT : EACCES; return nullptr; }
        size_t l = strlen(vcwd) + 1;
        if (!b) { size_t sz = n > l ? n : l; b = (char*)malloc(sz); }
        else if (n < l) { errno = ERANGE; return nullptr; }
        memcpy(b, vcwd, l);
        return b;
    }
    int chdir(const char* p)
    {
        if (!DST_ACTIVE) return call_chdir(p);
        char q[PMAX]; int e = norm(p, q); if (e) return err(e);
        Name* n = find(q); if (!n) return err(ENOENT); if (!ino[n->ino].dir) return err(ENOTDIR);
        memcpy(vcwd, q, PMAX); return 0;
    }
    char* realpath(const char* p, char* out)
    {
        if (!DST_ACTIVE) return call_realpath(p, out);
        enter(45);
        char q[PMAX]; int e = norm(p, q); if (e) { errno = e; return nullptr; }
        if (!find(q)) { errno = ENOENT; return nullptr; }
        if (!out) out = (char*)malloc(PMAX);
        snprintf(out, PMAX, "%s", q);
        return out;
    }
    ssize_t readlink(const char* p, char* b, size_t n)
    {
        if (!DST_ACTIVE) return call_readlink(p, b, n);
        char q[PMAX]; int e = norm(p, q); if (e) return err(e);
        return err(find(q) ? EINVAL : ENOENT);
    }
    int ftruncate(int fd, off_t n)
    {
        if (!(DST_ACTIVE && mine(fd))) return call_ftruncate(fd, n);
        enter(49);
        Fd* f = fd_get(fd); if (!f) return err(EBADF);
        Inode& i = ino[f->ino];
        if ((size_t)n <= i.len) i.len = (size_t)n; else { char z = 0; put_bytes(i, (size_t)n - 1, &z, 1); }
        return 0;
    }
    int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
    int truncate(const char* p, off_t n)
    {
        if (!DST_ACTIVE) return call_truncate(p, n);
        enter(49);
        char q[PMAX]; int e = norm(p, q); if (e) return err(e);
        Name* m = find(q); if (!m) return err(ENOENT);
        Inode& i = ino[m->ino];
        if ((size_t)n <= i.len) i.len = (size_t)n; else { char z = 0; put_bytes(i, (size_t)n - 1, &z, 1); }
        return 0;
    }
    int fsync(int fd) { if (DST_ACTIVE && mine(fd)) { enter(49); return 0; } return call_fsync(fd); }
    int fdatasync(int fd) { if (DST_ACTIVE && mine(fd)) { enter(49); return 0; } return call_fdatasync(fd); }
    int access(const char* p, int m)
    {
        if (!DST_ACTIVE) return call_access(p, m);
        struct stat s; return do_stat(p, &s);
    }
    int fchmod(int fd, mode_t m) { if (DST_ACTIVE && mine(fd)) return 0; return call_fchmod(fd, m); }
    int statvfs(const char* p, struct statvfs* s)
    {
        if (!DST_ACTIVE) return call_statvfs(p, s);
        memset(s, 0, sizeof *s); s->f_bsize = s->f_frsize = 4096; s->f_blocks = s->f_bfree = s->f_bavail = 1 << 20; return 0;
    }
    int link(const char* a, const char* b)
    {
        if (!DST_ACTIVE) return call_link(a, b);
        enter(42);
        char p[PMAX], q[PMAX]; int e = norm(a, p); if (e) return err(e); e = norm(b, q); if (e) return err(e);
        Name* n = find(p); if (!n) return err(ENOENT); if (find(q)) return err(EEXIST);
        e = parent_ok(q); if (e) return err(e);
        link_name(q, n->ino); return 0;
    }
    ssize_t sendfile(int o, int i, off_t* off, size_t n)
    {
        if (!(DST_ACTIVE && (mine(o) || mine(i)))) return call_sendfile(o, i, off, n);
        return err(EINVAL);     // callers fall back to read and write
    }
    static DIR* vdir(const char* q, int fd)
    {
        VDir* d = (VDir*)calloc(1, sizeof(VDir)); d->magic = VMAGIC; d->fd = fd; snprintf(d->path, PMAX, "%s", q);
        return (DIR*)d;
    }
    DIR* opendir(const char* p)
    {
        if (!DST_ACTIVE) return call_opendir(p);
        int fd = do_open(p, O_RDONLY | O_DIRECTORY); if (fd < 0) return nullptr;
        char q[PMAX]; norm(p, q); return vdir(q, fd);
    }
    DIR* fdopendir(int fd)
    {
        if (!(DST_ACTIVE && mine(fd))) return call_fdopendir(fd);
        Fd* f = fd_get(fd); if (!f) { errno = EBADF; return nullptr; }
        for (int i = 0; i < nName; ++i) if (names[i].used && names[i].ino == f->ino) return vdir(names[i].path, fd);
        errno = ENOENT; return nullptr;
    }
    struct dirent* readdir(DIR* dd)
    {
        if (!is_vdir(dd)) return call_readdir(dd);
        VDir* d = (VDir*)dd;
        size_t l = strlen(d->path);
        if (l == 1) l = 0;
        while (d->pos < nName)
        {
            Name& n = names[d->pos++];
            if (!n.used || strncmp(n.path, d->path, l) || n.path[l] != '/' || !n.path[l + 1] || strchr(n.path + l + 1, '/')) continue;
            d->ent.d_ino = (ino_t)(n.ino + 1); d->ent.d_type = ino[n.ino].dir ? DT_DIR : DT_REG;
            snprintf(d->ent.d_name, sizeof d->ent.d_name, "%s", n.path + l + 1);
            return &d->ent;
        }
        return nullptr;
    }
    int closedir(DIR* dd) { if (!is_vdir(dd)) return call_closedir(dd); VDir* d = (VDir*)dd; int fd = d->fd; d->magic = 0; free(d); return do_close(fd); }
    int dirfd(DIR* dd) { if (!is_vdir(dd)) return call_dirfd(dd); return ((VDir*)dd)->fd; }
}
