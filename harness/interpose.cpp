// C20: runs the same random sequence of I/O, allocation and thread calls without the library
// and with its wrappers active, in two child processes, and compares every result, errno value and
// effect; then compares the recorded I/O regions and byte counts with what the calls returned.
#include <features.h>
#undef __USE_EXTERN_INLINES // call the real getchar
#include <caliper/Caliper.h>
#include <caliper/ConfigManager.h>
#include <caliper/SnapshotRecord.h>
#include <caliper/cali.h>
#include "vh.h"
#include <fcntl.h>
#include <mntent.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <thread>
using vh::Rng; using vh::mix;
extern "C" FILE* fopen64(const char*, const char*);
extern "C" int __xstat(int, const char*, struct stat*);
extern "C" int __lxstat(int, const char*, struct stat*);
extern "C" int __fxstat(int, int, struct stat*);

struct Ent { int op, arg; long long res; int err; uint64_t hash; };
enum { READ, WRITE, META };
struct Exp { int cat; long long bytes; int mount; /* 0 unknown, 1 scratch, 2 /proc, 3 /dev/null, -1 not judged */ };
enum { MAXT = 6, MAXE = 4000, MAXM = 200 };
struct Shared { int n[MAXT]; Ent e[MAXT][MAXE]; uint64_t files; int nmsg; char msg[MAXM][400]; long long regions, bytes_r, bytes_w, judged, mounts; };

static std::string g_cwd; static bool g_ins = false; static cali_id_t g_op;
static std::vector<std::vector<std::pair<int, Exp>>> g_exp(MAXT); // per thread: (op id, expectation)
static std::string g_mounts[4], g_fs[4];
static Shared* S;
static const char* OPN[] = { "open", "read", "write", "close", "stat", "lstat", "fstat", "xstat", "fopen", "fdopen", "freopen", "fclose", "printf", "vprintf", "fprintf", "vfprintf", "fgetc", "fgets", "getchar", "fread", "fwrite", "strtok", "malloc", "calloc", "realloc", "free", "pthread_create", "state" };
enum { O_OPEN, O_READ, O_WRITE, O_CLOSE, O_STAT, O_LSTAT, O_FSTAT, O_XSTAT, O_FOPEN, O_FDOPEN, O_FREOPEN, O_FCLOSE, O_PRINTF, O_VPRINTF, O_FPRINTF, O_VFPRINTF, O_FGETC, O_FGETS, O_GETCHAR, O_FREAD, O_FWRITE, O_STRTOK, O_MALLOC, O_CALLOC, O_REALLOC, O_FREE, O_PTHREAD, O_STATE };

static void msg(const char* f, ...) { if (S->nmsg >= MAXM) return; va_list ap; va_start(ap, f); vsnprintf(S->msg[S->nmsg++], 400, f, ap); va_end(ap); }
static uint64_t hs(const void* p, size_t n) { uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*) p)[i]) * 1099511628211ull; return h; }
static int vfp(FILE* f, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vfprintf(f, fmt, ap); va_end(ap); return r; }
static int vp(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = vprintf(fmt, ap); va_end(ap); return r; }

struct Th;
struct Sub { int kind; long long val; Th* th; };
static void* sub_main(void* p) {
    Sub* s = (Sub*) p; char b[40];
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { snprintf(b, sizeof b, "%lld", s->val); if (write(fd, b, strlen(b)) < 0) return nullptr; close(fd); }
    void* q = malloc((size_t) (s->val % 5000)); memset(q, 1, (size_t) (s->val % 5000)); free(q);
    if (s->kind == 1) pthread_exit((void*) (intptr_t) (s->val * 3));
    if (s->kind == 2) { for (;;) { pthread_testcancel(); usleep(200); } }
    return (void*) (intptr_t) (s->val * 2);
}

struct Th {
    int t; Rng r; std::string dir; bool stdio;
    struct F { int fd = -1; int mount = 0; bool pipe = false; } f[4];
    struct G { FILE* f = nullptr; int mount = 0; bool mem = false; char mb[304]; } g[4];
    struct M { unsigned char* p = nullptr; size_t n = 0; unsigned char c = 0; } m[6];
    char tokbuf[64]; bool tok = false; int opid = 0; char* sout = nullptr; int sub_i = 0;
    Th(int t_, uint64_t seed, bool io) : t(t_), r(seed), stdio(io) {}
    void log(int op, int arg, long long res, int err, uint64_t h = 0) { int& n = S->n[t]; if (n < MAXE) S->e[t][n++] = { op, arg, res, err, h }; }
    void expect(int cat, long long b, int mount) { if (g_ins) g_exp[t].push_back({ t * 100000 + opid, { cat, b, mount } }); }
    std::string path(int k, int& mount, bool& exists) {
        mount = 1; exists = true; std::string p;
        struct stat st;
        switch (k) {
        case 0: case 1: case 2: case 3: p = dir + "/f" + std::to_string(k); break;
        case 4: p = g_cwd + "/" + dir + "/f" + std::to_string(r.below(4)); break;
        case 5: p = "/proc/self/cmdline"; mount = 2; return p;
        case 6: p = "/dev/null"; mount = 3; return p;
        case 7: p = dir + "/nodir/x"; break;
        case 8: p = g_cwd + "/" + dir + "/nofile"; break;
        case 9: p = dir; break;
        case 10: p = dir + "/link"; break;
        case 11: p = ""; break;
        case 12: p = dir + "/loop"; break;
        case 13: p = dir + "/" + std::string(300, 'n'); break;
        }
        // relative paths that do not resolve are recorded as unknown
        if (p.empty() || p[0] != '/') { char* q = p.empty() ? nullptr : realpath(p.c_str(), nullptr); if (!q) { mount = 0; exists = false; } free(q); }
        (void) st;
        return p;
    }
    void op_begin() { ++opid; if (g_ins) cali_set_int(g_op, t * 100000 + opid); errno = 4242; }
    template <class Fn> long long call(Fn fn, int& e) { errno = 4242; long long x = (long long) fn(); e = errno; return x; }
    void run(int n) { for (int i = 0; i < n; ++i) step(); finish(); }
    void finish() {
        for (auto& x : f) if (x.fd >= 0) { op_begin(); int e; long long v = call([&] { return close(x.fd); }, e); log(O_CLOSE, 99, v, e); expect(META, 0, x.mount); x.fd = -1; }
        for (auto& x : g) if (x.f) { op_begin(); int e; long long v = call([&] { return fclose(x.f); }, e); log(O_FCLOSE, 99, v, e); expect(META, 0, x.mount); x.f = nullptr; }
        for (auto& x : m) { if (x.p) check(x); int e; call([&] { free(x.p); return 0; }, e); log(O_FREE, 99, 0, e); x.p = nullptr; }
        op_begin();
    }
    void check(M& x) { for (size_t i = 0; i < x.n; ++i) if (x.p[i] != x.c) { log(O_STATE, 1, (long long) i, x.p[i]); return; } }
    void step() {
        op_begin(); int e = 0; long long v = 0; char buf[4096];
        int what = (int) r.below(100);
        F& x = f[r.below(4)]; G& y = g[r.below(4)]; M& z = m[r.below(6)];
        if (what < 10) { // open
            if (x.fd >= 0) { op_begin(); v = call([&] { return close(x.fd); }, e); log(O_CLOSE, 0, v, e); expect(META, 0, x.mount); x.fd = -1; op_begin(); }
            int k = (int) r.below(16);
            if (k >= 14) { // pipe / socketpair: both ends, nonblocking
                int p[2]; F& x2 = f[(&x - f + 1) % 4];
                if (x2.fd >= 0) { v = call([&] { return close(x2.fd); }, e); log(O_CLOSE, 1, v, e); expect(META, 0, x2.mount); x2.fd = -1; op_begin(); }
                if ((k == 14 ? pipe(p) : socketpair(AF_UNIX, SOCK_STREAM, 0, p)) == 0) { fcntl(p[0], F_SETFL, O_NONBLOCK); fcntl(p[1], F_SETFL, O_NONBLOCK); x.fd = p[0]; x2.fd = p[1]; x.mount = x2.mount = 0; x.pipe = x2.pipe = true; }
                return;
            }
            int mt; bool ex; std::string p = path(k, mt, ex);
            static const int fl[] = { O_RDONLY, O_WRONLY | O_CREAT | O_TRUNC, O_RDWR | O_CREAT, O_RDWR | O_CREAT | O_APPEND, O_WRONLY, O_RDWR | O_CREAT | O_EXCL, O_RDONLY | O_DIRECTORY, O_RDONLY | O_NOFOLLOW };
            int j = (int) r.below(8); bool null = r.chance(3);
            v = call([&] { return open(null ? nullptr : p.c_str(), fl[j], 0640); }, e);
            int omt = mt; if (v >= 0) { x.fd = (int) v; x.pipe = false; x.mount = p == "/proc/self/cmdline" ? 2 : p == "/dev/null" ? 3 : 1; }
            log(O_OPEN, k * 8 + j, v >= 0, e); expect(META, 0, null ? 0 : omt);
        } else if (what < 20) { // read
            int k = (int) r.below(12); size_t n = (size_t) (r.chance(10) ? 0 : r.range(1, 3000)); int fd = k == 0 ? -1 : k == 1 ? 987654 : x.fd; bool bad = k == 2 && !x.pipe;
            memset(buf, 0, sizeof buf);
            v = call([&] { return read(fd, bad ? (char*) 16 : buf, n); }, e);
            log(O_READ, k, v, e, v > 0 && !bad && x.mount != 2 ? hs(buf, (size_t) v) : 0); expect(READ, v > 0 ? v : 0, fd == x.fd && fd >= 0 ? x.mount : 0);
        } else if (what < 30) { // write
            int k = (int) r.below(12); size_t n = (size_t) (r.chance(10) ? 0 : r.range(1, 3000)); int fd = k == 0 ? -7 : k == 1 ? 123456 : x.fd; bool bad = k == 2;
            for (size_t i = 0; i < n; ++i) buf[i] = (char) ('a' + (i * 7 + (size_t) opid) % 26); if (n > 10) buf[n / 2] = '\n';
            v = call([&] { return write(fd, bad ? (const char*) 24 : buf, n); }, e);
            log(O_WRITE, k, v, e); expect(WRITE, v > 0 ? v : 0, fd == x.fd && fd >= 0 ? x.mount : 0);
        } else if (what < 34) { // close
            int k = (int) r.below(6); int fd = k == 0 ? -1 : k == 1 ? 555555 : x.fd;
            v = call([&] { return close(fd); }, e);
            log(O_CLOSE, k, v, e); expect(META, 0, fd == x.fd && fd >= 0 ? x.mount : 0); if (fd == x.fd) { x.fd = -1; x.mount = 0; }
        } else if (what < 44) { // stat family
            int k = (int) r.below(14), w = (int) r.below(6); int mt; bool ex; std::string p = path(k, mt, ex); struct stat st; memset(&st, 0, sizeof st);
            bool null = r.chance(5);
            const char* pp = null ? nullptr : p.c_str(); int op = O_STAT, em = null ? 0 : mt;
            switch (w) {
            case 0: v = call([&] { return stat(pp, &st); }, e); break;
            case 1: op = O_LSTAT; v = call([&] { return lstat(pp, &st); }, e); break;
            case 2: op = O_FSTAT; em = x.fd >= 0 ? x.mount : 0; v = call([&] { return fstat(x.fd, &st); }, e); break;
            case 3: op = O_XSTAT; v = call([&] { return __xstat(1, pp, &st); }, e); break;
            case 4: op = O_XSTAT; v = call([&] { return __lxstat(1, pp, &st); }, e); break;
            case 5: op = O_XSTAT; em = x.fd >= 0 ? x.mount : 0; v = call([&] { return __fxstat(1, x.fd, &st); }, e); break;
            }
            uint64_t h = v == 0 && !(x.pipe && (w == 2 || w == 5)) && em != 2 ? mix((uint64_t) st.st_mode, (uint64_t) (em == 1 && S_ISREG(st.st_mode) ? st.st_size : 0)) : 0;
            log(op, w * 100 + k, v, e, h); expect(META, 0, em);
        } else if (what < 52) { // fopen, fdopen, freopen
            int w = (int) r.below(6); int mt, k = (int) r.below(14); bool ex; std::string p = path(k, mt, ex);
            static const char* md[] = { "r", "w", "a", "r+", "w+", "a+", "q", "rb", "wb" }; const char* mode = md[r.below(9)];
            int real = p == "/proc/self/cmdline" ? 2 : p == "/dev/null" ? 3 : 1;
            if (w < 3) {
                if (y.f) { v = call([&] { return fclose(y.f); }, e); log(O_FCLOSE, 0, v, e); expect(META, 0, y.mount); y.f = nullptr; op_begin(); }
                FILE* q = nullptr; v = call([&] { q = w == 2 ? fopen64(p.c_str(), mode) : fopen(p.c_str(), mode); return q != nullptr; }, e);
                y.f = q; y.mount = real; y.mem = false; log(O_FOPEN, k * 10 + w, v, v ? 0 : e); expect(META, 0, mt);
            } else if (w == 3) {
                if (y.f || x.pipe) return;
                FILE* q = nullptr; v = call([&] { q = fdopen(x.fd, mode); return q != nullptr; }, e);
                log(O_FDOPEN, k, v, v ? 0 : e); expect(META, 0, x.fd >= 0 ? x.mount : 0);
                if (q) { y.f = q; y.mem = false; y.mount = x.mount; x.fd = -1; x.mount = 0; }
            } else if (y.f && !y.mem && w == 4) {
                FILE* q = nullptr; v = call([&] { q = freopen(p.c_str(), mode, y.f); return q != nullptr; }, e);
                log(O_FREOPEN, k, v, v ? 0 : e); expect(META, 0, mt); y.f = q; y.mount = real;
            } else if (w == 5 && !y.f) { memset(y.mb, 0, 300); y.f = fmemopen(y.mb, 300, "w+"); y.mount = 0; y.mem = true; }
        } else if (what < 55) { // fclose
            if (!y.f) return;
            v = call([&] { return fclose(y.f); }, e); log(O_FCLOSE, 1, v, e); expect(META, 0, y.mount); y.f = nullptr;
        } else if (what < 63) { // printf family
            int w = (int) r.below(4); int a = (int) r.range(-5, 100000); double d = (double) r.below(1000) / 8; std::string s((size_t) r.below(80), 'q');
            bool bad = r.chance(6);
            if (!stdio || w > 1) { if (!y.f) return; w = w % 2 + 2; }
            const char* fm = bad ? "%lc" : r.chance(10) ? "" : "%d:%.3f:%s\n";
            auto go = [&](auto fn) { return bad ? fn(fm, (wint_t) 0xd900, 0.0, "") : fn(fm, a, d, s.c_str()); };
            int op = O_PRINTF + w;
            switch (w) {
            case 0: v = call([&] { return go([&](const char* q, auto... as) { return printf(q, as...); }); }, e); break;
            case 1: v = call([&] { return go([&](const char* q, auto... as) { return vp(q, as...); }); }, e); break;
            case 2: v = call([&] { return go([&](const char* q, auto... as) { return fprintf(y.f, q, as...); }); }, e); break;
            case 3: v = call([&] { return go([&](const char* q, auto... as) { return vfp(y.f, q, as...); }); }, e); break;
            }
            log(op, bad, v, e); expect(WRITE, v > 0 ? v : 0, w < 2 ? -1 : y.mount);
            if (y.f && w >= 2) clearerr(y.f);
        } else if (what < 78) { // reads and writes on streams
            int w = (int) r.below(6);
            if (w == 0 && stdio) { v = call([&] { return getchar(); }, e); log(O_GETCHAR, 0, v, e); expect(READ, v != EOF, -1); return; }
            if (!y.f) return;
            if (r.chance(30)) { if (r.chance(50)) rewind(y.f); else fseek(y.f, (long) r.below(200), SEEK_SET); errno = 4242; }
            bool noh = y.mount == 2; // contents of /proc/self/cmdline may differ
            switch (w) {
            case 0: case 1: v = call([&] { return fgetc(y.f); }, e); log(O_FGETC, 0, v, e); expect(READ, v != EOF, y.mount); break;
            case 2: { memset(buf, 0, sizeof buf); int n = r.range(1, 300); char* q; v = call([&] { q = fgets(buf, n, y.f); return q == buf; }, e);
                size_t l = v ? strlen(buf) : 0; log(O_FGETS, n, v, e, v && !noh ? hs(buf, sizeof buf) : 0); expect(READ, (long long) l, y.mount); break; }
            case 3: { memset(buf, 0, sizeof buf); size_t sz = r.below(9), n = r.below(400); v = call([&] { return fread(buf, sz, n, y.f); }, e);
                log(O_FREAD, (int) sz, v, e, !noh ? hs(buf, sizeof buf) : 0); expect(READ, v * (long long) sz, y.mount); break; }
            default: { size_t sz = r.below(9), n = r.below(400); for (size_t i = 0; i < sz * n; ++i) buf[i] = (char) ('A' + i % 26);
                v = call([&] { return fwrite(buf, sz, n, y.f); }, e); log(O_FWRITE, (int) sz, v, e); expect(WRITE, v * (long long) sz, y.mount); break; }
            }
            log(O_STATE, 2, feof(y.f) ? 1 : 0, ferror(y.f) ? 1 : 0); if (r.chance(50)) clearerr(y.f);
            if (r.chance(40)) fseek(y.f, 0, SEEK_CUR);
        } else if (what < 82) { // the application's own strtok state must survive I/O calls
            if (t != 0) return; // strtok is not thread-safe
            char* q;
            if (!tok) { strcpy(tokbuf, "al/be ga/de ep/ze et/th io/ka la/mu"); q = strtok(tokbuf, "/ "); tok = true; }
            else { q = strtok(nullptr, "/ "); if (!q) tok = false; }
            log(O_STRTOK, 0, q ? q - tokbuf : -1, 0, q ? hs(q, strlen(q)) : 0);
        } else if (what < 96) { // allocation
            int w = (int) r.below(4); size_t n = r.chance(5) ? 0 : (size_t) r.range(1, r.chance(10) ? 300000 : 2000); bool huge = r.chance(8); volatile size_t big = ((size_t) 1 << 62) + 5;
            if (z.p) check(z);
            if (w < 2 || !z.p) {
                int e2; call([&] { free(z.p); return 0; }, e2); log(O_FREE, 0, 0, e2); z.p = nullptr;
                void* q = nullptr; if (w == 1) { v = call([&] { q = calloc(huge ? big / 2 : 3, huge ? 8 : n / 3 + 1); return q != nullptr; }, e); n = (n / 3 + 1) * 3; }
                else v = call([&] { q = malloc(huge ? big : n); return q != nullptr; }, e);
                z.p = (unsigned char*) q; z.n = q ? n : 0; z.c = (unsigned char) opid;
                if (w == 1 && q) for (size_t i = 0; i < n; ++i) if (z.p[i]) { log(O_STATE, 3, (long long) i, z.p[i]); break; }
                if (q && ((uintptr_t) q & 15)) log(O_STATE, 4, 0, 0);
                if (q) memset(q, z.c, n);
                log(w == 1 ? O_CALLOC : O_MALLOC, huge, v, e);
            } else if (w == 2) {
                if (n == 0) n = 1;
                void* q = nullptr; v = call([&] { q = realloc(z.p, huge ? big : n); return q != nullptr; }, e);
                log(O_REALLOC, huge, v, e);
                if (q) { size_t mn = std::min(n, z.n); z.p = (unsigned char*) q; for (size_t i = 0; i < mn; ++i) if (z.p[i] != z.c) { log(O_STATE, 5, (long long) i, z.p[i]); break; } z.n = n; memset(q, z.c, n); }
                else check(z);
            } else { call([&] { free(z.p); return 0; }, e); log(O_FREE, 1, 0, e); z.p = nullptr; z.n = 0; }
        } else { // threads
            ++sub_i; Sub s { (int) r.below(3), (long long) r.below(1000000), this }; bool fail = r.chance(25); pthread_attr_t at; pthread_attr_init(&at);
            if (fail) pthread_attr_setstacksize(&at, (size_t) 1 << 47);
            pthread_t th; v = call([&] { return pthread_create(&th, fail ? &at : nullptr, sub_main, &s); }, e); pthread_attr_destroy(&at);
            log(O_PTHREAD, s.kind * 2 + fail, v, v ? 0 : e);
            if (v == 0) { if (s.kind == 2) pthread_cancel(th); void* rv = nullptr; int j = pthread_join(th, &rv); log(O_STATE, 6, (long long) (intptr_t) rv, j); }
        }
    }
};

static uint64_t files_hash() { // contents of all files the sequence left behind
    uint64_t h = 7;
    for (int t = 0; t < MAXT; ++t) for (int k = 0; k < 4; ++k) {
        std::string p = "t" + std::to_string(t) + "/f" + std::to_string(k); struct stat st; char b[65536];
        if (lstat(p.c_str(), &st) != 0) { h = mix(h, 1); continue; }
        h = mix(h, (uint64_t) st.st_mode * 1000003u + (uint64_t) st.st_size);
        int fd = open(p.c_str(), O_RDONLY); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) h = mix(h, hs(b, (size_t) n)); close(fd);
    }
    for (const char* p : { "stdout.txt" }) { char b[65536]; int fd = open(p, O_RDONLY); ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) h = mix(h, hs(b, (size_t) n)); close(fd); }
    return h;
}

struct Case { uint64_t seed; int threads, ops, variant; };
static const char* VAR[] = { "io", "io-trace-alloc", "two-io-channels", "config-manager", "toggle", "recreate", "inactive", "sysalloc", "pthread" };

static void child(const Case& C, bool ins, const std::string& dir) {
    g_ins = false; alarm(120); signal(SIGPIPE, SIG_IGN);
    if (chdir(dir.c_str())) _exit(9);
    char cw[4000]; if (!getcwd(cw, sizeof cw)) _exit(9); g_cwd = cw;
    for (int t = 0; t < C.threads; ++t) {
        std::string d = "t" + std::to_string(t); mkdir(d.c_str(), 0755);
        FILE* f = fopen((d + "/f0").c_str(), "w"); for (int i = 0; i < 60; ++i) fprintf(f, "line %d of the input file %d\n", i, i * i); fclose(f);
        f = fopen((d + "/f1").c_str(), "w"); fclose(f);
        if (symlink("f0", (d + "/link").c_str()) || symlink("loop", (d + "/loop").c_str())) _exit(9);
    }
    { FILE* f = fopen("stdin.txt", "w"); for (int i = 0; i < 50; ++i) fputc('a' + i % 26, f); fclose(f); }
    int fi = open("stdin.txt", O_RDONLY), fo = open("stdout.txt", O_RDWR | O_CREAT | O_TRUNC, 0644); dup2(fi, 0); dup2(fo, 1); close(fi); close(fo);
    cali_id_t ch[3] = { CALI_INV_ID, CALI_INV_ID, CALI_INV_ID }; cali::ConfigManager* mgr = nullptr; std::atomic<bool> stop { false }; std::thread tg; bool judge = false; size_t mult = 1;
    auto make = [&](const char* name, const char* sv, int fl = 0) { return cali::create_channel(name, fl, { { "CALI_SERVICES_ENABLE", sv }, { "CALI_CHANNEL_FLUSH_ON_EXIT", "false" } }); };
    if (ins) {
        g_op = cali_create_attribute("vh.op", CALI_TYPE_INT, CALI_ATTR_ASVALUE | CALI_ATTR_SKIP_EVENTS | CALI_ATTR_SCOPE_THREAD);
        switch (C.variant) {
        case 0: ch[0] = make("a", "event,io,trace"); judge = true; break;
        case 1: ch[0] = make("a", "event,io,trace,sysalloc,pthread"); judge = true; break;
        case 2: ch[0] = make("a", "event,io,trace"); ch[1] = make("b", "event,io,aggregate,pthread"); judge = true; mult = 2; break; // both channels mark the region
        case 3: mgr = new cali::ConfigManager("runtime-report(output=rep.txt,io.bytes,mem.highwatermark)"); mgr->start(); break;
        case 4: ch[0] = make("a", "event,io,trace,sysalloc"); ch[1] = make("b", "event,io,pthread,aggregate");
            tg = std::thread([&] { Rng r(C.seed); while (!stop) { cali_id_t c = ch[r.below(2)]; if (r.chance(50)) cali_activate_channel(c); else cali_deactivate_channel(c); usleep(30); } }); break;
        case 5: ch[0] = make("a", "event,io,trace,sysalloc"); ch[1] = make("b", "event,io,trace"); cali_delete_channel(ch[0]); cali_delete_channel(ch[1]); ch[2] = make("c", "event,io,trace"); cali_delete_channel(make("d", "event,io,trace,pthread")); ch[0] = ch[2]; judge = true; break;
        case 6: ch[0] = make("a", "event,io,trace,sysalloc,pthread", CALI_CHANNEL_LEAVE_INACTIVE); break;
        case 7: ch[0] = make("a", "event,sysalloc,alloc,allocstats,trace"); break;
        case 8: ch[0] = make("a", "event,pthread,trace"); break;
        }
        g_ins = true;
    }
    std::vector<Th*> th; for (int t = 0; t < C.threads; ++t) { Th* p = new Th(t, mix(C.seed, 100 + (uint64_t) t), t == 0); p->dir = "t" + std::to_string(t); th.push_back(p); }
    std::vector<std::thread> ts; for (int t = 1; t < C.threads; ++t) ts.emplace_back([&, t] { th[(size_t) t]->run(C.ops); });
    th[0]->run(C.ops); for (auto& t : ts) t.join();
    stop = true; if (tg.joinable()) tg.join();
    g_ins = false;
    int savo = dup(1); fflush(stdout); (void) savo;
    if (ins) {
        for (auto c : ch) if (c != CALI_INV_ID) cali_deactivate_channel(c);
        if (mgr) mgr->stop();
    }
    S->files = files_hash();
    if (judge && ch[0] != CALI_INV_ID) {
        cali::Caliper c; cali::Channel chn = c.get_channel(ch[0]);
        struct R { std::vector<std::pair<int, std::string>> ends; long long b[2] = { 0, 0 }; int nb[2] = { 0, 0 }; }; std::map<long long, R> rec;
        cali::Attribute aop = c.get_attribute("vh.op"), areg = c.get_attribute("io.region"), aend = c.get_attribute("event.end#io.region"), abr = c.get_attribute("io.bytes.read"), abw = c.get_attribute("io.bytes.written"), amp = c.get_attribute("io.mount.point"), afs = c.get_attribute("io.filesystem");
        static const char* CN[] = { "read", "write", "metadata" };
        c.flush(chn.body(), cali::SnapshotView(), [&](cali::CaliperMetadataAccessInterface&, const std::vector<cali::Entry>& es) {
            long long op = 0; std::string reg, mp, fs, end; long long b[2] = { -1, -1 };
            for (auto& e : es) {
                if (e.is_immediate() && e.attribute() == aop.id()) op = e.value().to_int();
                if (e.is_immediate() && e.attribute() == abr.id()) b[0] = (long long) e.value().to_uint();
                if (e.is_immediate() && e.attribute() == abw.id()) b[1] = (long long) e.value().to_uint();
                if (e.is_reference()) { bool got = false; for (const cali::Node* n = e.node(); n && n->attribute() != CALI_INV_ID; n = n->parent()) {
                    if (n->attribute() == areg.id() && !got) { reg = n->data().to_string(); got = true; }
                    if (n->attribute() == amp.id() && mp.empty()) mp = n->data().to_string();
                    if (n->attribute() == afs.id() && fs.empty()) fs = n->data().to_string();
                    if (n->attribute() == aend.id()) end = n->data().to_string(); } }
            }
            if (!op) return;
            R& x = rec[op];
            for (int k = 0; k < 2; ++k) if (b[k] >= 0) { x.b[k] += b[k]; ++x.nb[k]; if (reg != CN[k]) msg("op %lld: %lld bytes recorded in io.region \"%s\", expected \"%s\"", op, b[k], reg.c_str(), CN[k]); }
            if (!end.empty()) { int cat = end == "read" ? 0 : end == "write" ? 1 : end == "metadata" ? 2 : 9; x.ends.push_back({ cat, mp + "|" + fs }); }
        });
        for (int t = 0; t < C.threads; ++t) {
            std::map<int, std::vector<Exp>> ex; for (auto& p : g_exp[(size_t) t]) ex[p.first].push_back(p.second);
            for (int o = 1; o <= th[(size_t) t]->opid; ++o) {
                int op = t * 100000 + o; R& x = rec[op]; auto& q = ex[op]; long long b[2] = { 0, 0 };
                for (auto& e : q) if (e.cat < 2) b[e.cat] += e.bytes;
                ++S->judged; S->regions += (long long) x.ends.size(); S->bytes_r += x.b[0]; S->bytes_w += x.b[1];
                if (x.ends.size() != q.size() * mult) { msg("thread %d op %d: %zu I/O regions recorded for %zu wrapped calls (category %d, mount %d, %lld bytes)", t, o, x.ends.size(), q.size(), q.empty() ? -1 : q[0].cat, q.empty() ? -1 : q[0].mount, q.empty() ? 0 : q[0].bytes); continue; }
                for (int k = 0; k < 2; ++k) if (x.b[k] != b[k]) msg("thread %d op %d: %lld bytes %s recorded, the call returned %lld", t, o, x.b[k], k ? "written" : "read", b[k]);
                for (size_t i = 0; i < q.size(); ++i) {
                    if (x.ends[i * mult].first != q[i].cat) msg("thread %d op %d: recorded as category %d, expected %d", t, o, x.ends[i * mult].first, q[i].cat);
                    if (q[i].mount >= 0) { std::string want = g_mounts[q[i].mount] + "|" + g_fs[q[i].mount]; ++S->mounts; if (x.ends[i * mult].second != want) msg("thread %d op %d (category %d): mount point and filesystem \"%s\", expected \"%s\"", t, o, q[i].cat, x.ends[i * mult].second.c_str(), want.c_str()); }
                }
            }
        }
    }
    if (mgr) { mgr->flush(); delete mgr; }
    fflush(nullptr); _exit(0);
}

static void find_mount(const std::string& p, std::string& mp, std::string& fs) {
    mp = "unknown"; fs = "unknown"; size_t best = 0; FILE* f = fopen("/proc/self/mounts", "r"); if (!f) return; char dev[4096], dir[4096], ty[256], line[9000];
    while (fgets(line, sizeof line, f)) {
        if (sscanf(line, "%4095s %4095s %255s", dev, dir, ty) != 3) continue;
        std::string d = dir; bool in = d == "/" || p == d || p.compare(0, d.size() + 1, d + "/") == 0;
        if (in && d.size() >= best) { best = d.size(); mp = d; fs = ty; }
    }
    fclose(f);
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    uint64_t seed = (uint64_t) vh::iarg("seed", 1); long long from = vh::iarg("from", 0), to = vh::iarg("to", 5);
    char cw[4000]; if (!getcwd(cw, sizeof cw)) return 3;
    std::string base = std::string(cw) + "/ip"; mkdir(base.c_str(), 0755);
    g_mounts[0] = g_fs[0] = "unknown"; find_mount(base, g_mounts[1], g_fs[1]); find_mount("/proc/self/cmdline", g_mounts[2], g_fs[2]); find_mount("/dev/null", g_mounts[3], g_fs[3]);
    Shared* sh[2]; for (auto& s : sh) s = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (long long i = from; i < to; ++i) {
        Rng r(mix(seed, (uint64_t) i)); Case C { r.next(), r.range(1, 4), r.range(60, 500), (int) (i % 9) };
        for (int k = 0; k < 2; ++k) {
            memset((void*) sh[k], 0, sizeof(Shared)); S = sh[k];
            std::string d = base + (k ? "/i" : "/r") + std::to_string(i); mkdir(d.c_str(), 0755);
            fflush(nullptr); pid_t pid = fork(); if (pid == 0) child(C, k == 1, d);
            int st = 0; waitpid(pid, &st, 0);
            if (st != 0) { std::string w = WIFSIGNALED(st) ? vh::fmt("signal %d", WTERMSIG(st)) : vh::fmt("exit code %d", WEXITSTATUS(st)); if (k) vh::viol(std::string("interposed-died:") + VAR[C.variant], vh::fmt("case %lld (%s): the program ended with %s with the wrappers active, after %d operations on thread 0", i, VAR[C.variant], w.c_str(), sh[1]->n[0])); else vh::error("reference run failed: " + w); }
            std::string rm = "rm -rf '" + d + "'"; if (system(rm.c_str())) return 3;
        }
        vh::kase(vh::fmt("case %lld", i)); vh::stat("cases");
        for (int t = 0; t < C.threads; ++t) {
            int n = std::min(sh[0]->n[t], sh[1]->n[t]), bad = 0; vh::stat("calls_compared", n); vh::stat("failing_calls", 0);
            for (int j = 0; j < n && !bad; ++j) {
                Ent &a = sh[0]->e[t][j], &b = sh[1]->e[t][j];
                vh::fp(vh::fmt("%s/%s/%d/%d", VAR[C.variant], OPN[a.op], a.res < 0 ? -1 : a.res > 0, a.err == 4242 ? 0 : a.err)); if (a.err != 4242 && a.err) vh::stat("calls_setting_errno");
                if (a.op != b.op || a.arg != b.arg || a.res != b.res || a.err != b.err || a.hash != b.hash) {
                    bad = 1; vh::viol(vh::fmt("result:%s:%s", OPN[a.op], a.op != b.op || a.arg != b.arg ? "sequence" : a.res != b.res ? "result" : a.err != b.err ? "errno" : "data"),
                        vh::fmt("case %lld (%s) thread %d call %d: %s arg %d: without wrappers result %lld errno %d data %llx, with wrappers (%s arg %d) result %lld errno %d data %llx", i, VAR[C.variant], t, j, OPN[a.op], a.arg, a.res, a.err, (unsigned long long) a.hash, OPN[b.op], b.arg, b.res, b.err, (unsigned long long) b.hash)); }
            }
            if (!bad && sh[0]->n[t] != sh[1]->n[t]) vh::viol("length", vh::fmt("case %lld (%s) thread %d: %d calls without and %d with wrappers", i, VAR[C.variant], t, sh[0]->n[t], sh[1]->n[t]));
        }
        if (sh[0]->files != sh[1]->files) vh::viol("effect:files", vh::fmt("case %lld (%s): the files left behind differ", i, VAR[C.variant]));
        for (int k = 0; k < sh[1]->nmsg; ++k) vh::viol("recorded:" + std::string(strstr(sh[1]->msg[k], "bytes") ? "bytes" : strstr(sh[1]->msg[k], "mount") ? "mount" : "regions"), vh::fmt("case %lld (%s): %s", i, VAR[C.variant], sh[1]->msg[k]));
        vh::stat("operations_with_recorded_io_judged", sh[1]->judged); vh::stat("io_regions", sh[1]->regions); vh::stat("bytes_read", sh[1]->bytes_r); vh::stat("bytes_written", sh[1]->bytes_w); vh::stat("mount_points_judged", sh[1]->mounts);
    }
    vh::done(); return 0;
}
