// C07: faults are reported: an output that is reported as written is complete
#include "fx.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/FillWriter.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputFile.h"
#include "fimex/XMLInputString.h"

#include <atomic>
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <omp.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace fx;

// ------------------------------------------------------------------ fault injector
// every data-changing (or data-reading) system call on a file below the scratch directory is numbered;
// the call with the chosen number fails in the chosen way
namespace inj {
enum Mode { NONE, ONCE_NOSPC, ONCE_EIO, FROM_NOSPC, TORN_NOSPC, NMODES };
const char* MODE[] = {"none", "ENOSPC once", "EIO once", "ENOSPC from then on", "half the bytes, then ENOSPC from then on"};
volatile bool armed = false;
bool reads = false;
int mode = NONE;
long at = -1, count = 0;
bool hit = false;
char dir[512];

bool ours(int fd)
{
    char link[64], path[600];
    snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
    const ssize_t n = readlink(link, path, sizeof(path) - 1);
    if (n <= 0)
        return false;
    path[n] = 0;
    return strncmp(path, dir, strlen(dir)) == 0;
}
/// 0: proceed, 1: fail, 2: torn
int decide(int fd, bool isRead, bool canTear)
{
    if (!armed || isRead != reads || !ours(fd))
        return 0;
    const long n = count++;
    if (at < 0)
        return 0;
    if (n == at) {
        hit = true;
        if (mode == TORN_NOSPC && canTear)
            return 2;
        errno = mode == ONCE_EIO ? EIO : ENOSPC;
        return 1;
    }
    if (n > at && (mode == FROM_NOSPC || mode == TORN_NOSPC)) {
        errno = ENOSPC;
        return 1;
    }
    return 0;
}
void arm(const string& d, int m, long n, bool r)
{
    strncpy(dir, d.c_str(), sizeof(dir) - 1);
    mode = m;
    at = n;
    count = 0;
    hit = false;
    reads = r;
    armed = true;
}
void disarm()
{
    armed = false;
}
} // namespace inj

extern "C" {
ssize_t write(int fd, const void* b, size_t n)
{
    const int d = inj::decide(fd, false, n > 1);
    if (d == 1)
        return -1;
    return syscall(SYS_write, fd, b, d == 2 ? n / 2 : n);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o)
{
    const int d = inj::decide(fd, false, n > 1);
    if (d == 1)
        return -1;
    return syscall(SYS_pwrite64, fd, b, d == 2 ? n / 2 : n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    return pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (inj::decide(fd, false, false))
        return -1;
    return syscall(SYS_writev, fd, v, c);
}
int ftruncate64(int fd, off64_t l)
{
    if (inj::decide(fd, false, false))
        return -1;
    return syscall(SYS_ftruncate, fd, l);
}
int ftruncate(int fd, off_t l)
{
    return ftruncate64(fd, l);
}
int fsync(int fd)
{
    if (inj::decide(fd, false, false))
        return -1;
    return 0; // durability against power loss is not modelled
}
ssize_t read(int fd, void* b, size_t n)
{
    if (inj::decide(fd, true, false))
        return -1;
    return syscall(SYS_read, fd, b, n);
}
ssize_t pread64(int fd, void* b, size_t n, off64_t o)
{
    if (inj::decide(fd, true, false))
        return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    return pread64(fd, b, n, o);
}
}

namespace {
const char* FMT[] = {"nc3", "netcdf4classic", "netcdf4", "nc3_64", "ncml"};
enum { NC3, NC4C, NC4, NC3_64, NCML, NFMT };

void doWrite(CDMReader_p r, int fmt, const string& fn)
{
    if (fmt == NC3_64)
        CDMFileReaderFactory::createWriter(r, "nc3", fn, XMLInputString("<cdm_ncwriter_config><default filetype=\"netcdf3_64bit\"/></cdm_ncwriter_config>"));
    else
        CDMFileReaderFactory::createWriter(r, FMT[fmt], fn);
}
CDMReader_p doRead(int fmt, const string& fn)
{
    if (fmt == NCML)
        return std::make_shared<NcmlCDMReader>(XMLInputFile(fn));
    return CDMFileReaderFactory::create("netcdf", fn);
}

/// dataset kinds
TestReader_p dataset(int kind)
{
    auto r = std::make_shared<TestReader>(kind % 2 ? BY_UNLIMITED : BY_BUILDER);
    if (kind == 0) { // small, fixed
        r->dim("x", 3);
        r->var("v", CDM_SHORT, {"x"}, {1, 2, 3});
        r->var("s", CDM_DOUBLE, {}, {1.5});
        r->att("v", "units", "m");
        r->att("", "title", "t");
    } else if (kind == 1) { // small, unlimited
        r->dim("x", 2);
        r->dim("t", 3, true);
        r->var("v", CDM_INT, {"x", "t"}, iota(6));
        r->var("t", CDM_DOUBLE, {"t"}, {10, 20, 30});
        r->var("x", CDM_FLOAT, {"x"}, {5, 6});
    } else if (kind == 2) { // larger than the buffers of the libraries
        r->dim("x", 3000);
        r->dim("y", 7);
        VD d(21000);
        unsigned int z = 1;
        for (double& x : d) { // incompressible
            z = z * 1664525u + 1013904223u;
            x = double(z);
        }
        r->var("a", CDM_DOUBLE, {"x", "y"}, d);
        r->var("b", CDM_INT, {"x", "y"}, iota(21000));
    } else {
        r->dim("x", 3000);
        r->dim("t", 3, true);
        VD d(9000);
        unsigned int z = 7;
        for (double& x : d) {
            z = z * 1664525u + 1013904223u;
            x = double(z);
        }
        r->var("a", CDM_DOUBLE, {"x", "t"}, d);
        r->var("b", CDM_INT, {"x", "t"}, iota(9000));
        r->var("f", CDM_SHORT, {"x"}, iota(3000));
    }
    return r;
}
string complete(CDMReader_p src, int fmt, const string& fn)
{
    try {
        CDMReader_p b = doRead(fmt, fn);
        for (auto& v : src->getCDM().getVariables()) {
            if (!b->getCDM().hasVariable(v.getName()))
                return "variable " + v.getName() + " is missing";
            const VD want = values(src->getData(v.getName())), got = values(b->getData(v.getName()));
            if (got.size() != want.size())
                return "variable " + v.getName() + " has " + std::to_string(got.size()) + " elements instead of " + std::to_string(want.size());
            for (size_t i = 0; i < want.size(); ++i)
                if (!sameD(got[i], want[i]))
                    return "variable " + v.getName() + " element " + std::to_string(i) + " is " + std::to_string(got[i]) + " instead of " + std::to_string(want[i]);
        }
    } catch (std::exception& e) {
        return string("file cannot be read: ") + e.what();
    }
    return "";
}

/// run f in a child process of its own: after a fault the hdf5 library keeps broken state that would spoil later points.
/// returns 0: finished, 1: exception, 2: finished without ever reaching the fault, 3: exception without fault; *calls = number of calls seen
int isolated(vf::Explorer& ex, const std::function<void()>& f, long* calls)
{
    int fd[2];
    if (pipe(fd) != 0)
        throw std::logic_error("pipe");
    const pid_t pid = fork();
    if (pid == 0) {
        std::set_terminate([] { _exit(66); });
        int rc = 0;
        try {
            f();
        } catch (std::exception& e) {
            rc = 1;
        }
        inj::disarm();
        if (!inj::hit)
            rc += 2;
        long c = inj::count;
        syscall(SYS_write, fd[1], &c, sizeof(c));
        _exit(rc);
    }
    close(fd[1]);
    *calls = 0;
    syscall(SYS_read, fd[0], calls, sizeof(long));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    ex.step(*calls);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 66)
        VF_FAIL("process is terminated (exception outside of any handler)");
    if (!WIFEXITED(st) || WEXITSTATUS(st) > 3)
        return -1;
    return WEXITSTATUS(st);
}

void spaceWrite(vf::Explorer& ex)
{
    for (int kind = 0; kind < 4; ++kind)
        for (int fmt = 0; fmt < NFMT; ++fmt) {
            ex.space(string("write faults: ") + FMT[fmt] + " dataset " + std::to_string(kind));
            // number of calls: an upper bound, positions behind the end of the run are no faults
            const int maxCalls = ex.bound(kind < 2 ? 60 : 90, 400);
            for (int m = 1; m < inj::NMODES; ++m)
                for (int at = 0; at < maxCalls; ++at)
                    ex.run([=] { return string(FMT[fmt]) + " dataset " + std::to_string(kind) + ": " + inj::MODE[m] + " at output call " + std::to_string(at); },
                           [&] {
                               omp_set_num_threads(1);
                               TestReader_p src = dataset(kind);
                               const string fn = ex.scratch() + "/w.out";
                               long calls;
                               const int rc = isolated(ex,
                                                       [&] {
                                                           inj::arm(ex.scratch(), m, at, false);
                                                           doWrite(src, fmt, fn);
                                                       },
                                                       &calls);
                               VF_CHECK(rc != 3, "writing fails without a fault");
                               // the hdf5/netcdf libraries abort in nc_close after some failed writes; that is no success report
                               VF_CHECK(rc != -1 || fmt == NC4 || fmt == NC4C, "crash");
                               const bool thrown = rc == 1 || rc == -1;
                               if (rc == 2)
                                   ex.state("nofault");
                               if (!thrown) {
                                   const string bad = complete(src, fmt, fn);
                                   VF_CHECK(bad.empty(), "writing reports success, but " << bad);
                               }
                               ex.state(string(FMT[fmt]) + std::to_string(kind) + std::to_string(m) + ":" + std::to_string(at) + (thrown ? "T" : "ok"));
                               cleanDir(ex.scratch());
                           });
        }
}

void spaceUpdate(vf::Explorer& ex)
{
    for (int fmt : {NC3, NC4}) {
        ex.space(string("update faults: ") + FMT[fmt]);
        for (int ops = 0; ops < 8; ++ops) // which of three puts are done
            for (int m = 1; m < inj::NMODES; ++m)
                for (int at = 0; at < ex.bound(30, 80); ++at)
                    ex.run([=] { return string("update ") + FMT[fmt] + " puts " + std::to_string(ops) + ": " + inj::MODE[m] + " at output call " + std::to_string(at); },
                           [&] {
                               omp_set_num_threads(1);
                               TestReader_p src = dataset(3);
                               const string fn = ex.scratch() + "/u.nc";
                               doWrite(src, fmt, fn);
                               TestReader_p want = dataset(3);
                               auto upd = [&](const string& v, size_t pos, double first) {
                                   const VD d = iota(3000, first);
                                   for (size_t i = 0; i < d.size(); ++i)
                                       want->full[v]->setValue(pos * 3000 + i, d[i]);
                               };
                               if (ops & 1)
                                   upd("b", 1, 50000);
                               if (ops & 2)
                                   upd("a", 0, 1000);
                               if (ops & 4)
                                   upd("a", 2, 7000);
                               long calls;
                               const int rc = isolated(ex,
                                                       [&] {
                                                           CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf+rw", fn);
                                                           inj::arm(ex.scratch(), m, at, false);
                                                           bool thrown = false;
                                                           auto put = [&](const string& v, size_t pos, double first) {
                                                               thrown |= throws([&] { rw->putDataSlice(v, pos, mk(CDM_INT, iota(3000, first))); });
                                                           };
                                                           if (ops & 1)
                                                               put("b", 1, 50000);
                                                           if (ops & 2)
                                                               put("a", 0, 1000);
                                                           if (ops & 4)
                                                               put("a", 2, 7000);
                                                           thrown |= throws([&] { rw->sync(); });
                                                           inj::disarm();
                                                           if (thrown)
                                                               throw std::runtime_error("reported");
                                                           _exit(inj::hit ? 0 : 2); // a crash directly after the sync: what is synced is on disk
                                                       },
                                                       &calls);
                               VF_CHECK(rc != 3, "update fails without a fault");
                               VF_CHECK(rc != -1 || fmt == NC4, "crash");
                               const bool thrown = rc == 1 || rc == -1;
                               if (!thrown) {
                                   const string bad = complete(want, fmt, fn);
                                   VF_CHECK(bad.empty(), "update and sync report success, but " << bad);
                               }
                               ex.state(string(FMT[fmt]) + std::to_string(ops) + std::to_string(m) + ":" + std::to_string(at) + (thrown ? "T" : "ok"));
                               cleanDir(ex.scratch());
                           });
    }
}

void spaceRead(vf::Explorer& ex)
{
    for (int kind = 0; kind < 4; ++kind)
        for (int fmt : {NC3, NC4, NC3_64}) {
            ex.space(string("read faults: ") + FMT[fmt] + " dataset " + std::to_string(kind));
            for (int m : {inj::ONCE_EIO, inj::FROM_NOSPC})
                for (int at = 0; at < ex.bound(40, 200); ++at)
                    ex.run([=] { return string("read ") + FMT[fmt] + " dataset " + std::to_string(kind) + ": " + inj::MODE[m] + " at input call " + std::to_string(at); },
                           [&] {
                               omp_set_num_threads(1);
                               TestReader_p src = dataset(kind);
                               const string fn = ex.scratch() + "/r.nc";
                               doWrite(src, fmt, fn);
                               inj::arm(ex.scratch(), m, at, true);
                               std::map<string, DataPtr> got;
                               CDMReader_p b;
                               const bool opened = !throws([&] { b = CDMFileReaderFactory::create("netcdf", fn); });
                               size_t nfail = 0;
                               if (opened)
                                   for (auto& v : src->getCDM().getVariables()) {
                                       if (nfail) // the netcdf library delivers stale buffers after a failed read
                                           break;
                                       nfail += throws([&] { got[v.getName()] = b->getData(v.getName()); });
                                   }
                               inj::disarm();
                               ex.step(inj::count);
                               if (!inj::hit)
                                   VF_CHECK(opened && nfail == 0, "reading fails without a fault");
                               for (auto& g : got) {
                                   if (!g.second)
                                       continue;
                                   expectValues(g.second, values(src->getData(g.first)), "data of " + g.first + " delivered in spite of the fault");
                               }
                               ex.state(string(FMT[fmt]) + std::to_string(kind) + "r" + std::to_string(m) + ":" + std::to_string(at) + (opened ? "o" : "x") + std::to_string(nfail));
                               b.reset();
                               cleanDir(ex.scratch());
                           });
        }
}

/// a source that fails at the n-th read
struct Failing : public CDMReader
{
    CDMReader_p src;
    int failAt, how;
    std::atomic<int> n;
    Failing(CDMReader_p s, int at, int h) : src(s), failAt(at), how(h), n(0) { *cdm_ = s->getCDM(); }
    DataPtr maybe(const std::function<DataPtr()>& f)
    {
        if (n++ == failAt) {
            if (how == 0)
                throw CDMException("injected");
            if (how == 1)
                throw std::runtime_error("injected");
            if (how == 2)
                throw 17;
            return createData(CDM_DOUBLE, 5, 1.); // wrong size
        }
        return f();
    }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const string& v, size_t p) override
    {
        return maybe([&] { return src->getDataSlice(v, p); });
    }
    DataPtr getDataSlice(const string& v, const SliceBuilder& sb) override
    {
        return maybe([&] { return src->getDataSlice(v, sb); });
    }
};

void spaceSource(vf::Explorer& ex)
{
    static const char* HOW[] = {"throws", "throws a foreign exception", "throws an int", "delivers the wrong size"};
    ex.space("source faults while writing, for every number of threads");
    for (int kind = 0; kind < 2; ++kind)
        for (int fmt = 0; fmt < NFMT; ++fmt)
            for (int threads = 1; threads <= 4; ++threads)
                for (int how = 0; how < 4; ++how)
                    for (int at = 0; at < 9; ++at)
                        ex.run([=] { return string("source ") + HOW[how] + " at read " + std::to_string(at) + ", " + FMT[fmt] + " dataset " + std::to_string(kind) + " threads " + std::to_string(threads); },
                               [&] {
                                   omp_set_num_threads(threads);
                                   TestReader_p src = dataset(kind);
                                   auto f = std::make_shared<Failing>(src, at, how);
                                   const string fn = ex.scratch() + "/w.nc";
                                   bool thrown = false;
                                   try {
                                       doWrite(f, fmt, fn);
                                   } catch (...) {
                                       thrown = true;
                                   }
                                   ex.step();
                                   const bool reached = f->n > at;
                                   if (how == 3 && fmt == NCML) {
                                       // sizes are not known to a text format; reading it back reports the mismatch
                                       if (reached)
                                           VF_CHECK(thrown || !complete(src, fmt, fn).empty(), "data of the wrong size disappears");
                                   } else if (reached)
                                       VF_CHECK(thrown, "writing reports success although the source failed");
                                   else {
                                       VF_CHECK(!thrown, "writing fails without a fault");
                                       const string bad = complete(src, fmt, fn);
                                       VF_CHECK(bad.empty(), bad);
                                   }
                                   ex.state("src" + std::to_string(kind) + std::to_string(fmt) + std::to_string(how) + std::to_string(at) + std::to_string(thrown));
                                   cleanDir(ex.scratch());
                               });
    ex.space("source faults while filling an existing file, for every number of threads");
    for (int fmt : {NC3, NC4})
        for (int threads = 1; threads <= 4; ++threads)
            for (int how = 0; how < 4; ++how)
                for (int at = 0; at < 9; ++at)
                    ex.run([=] { return string("fill: source ") + HOW[how] + " at read " + std::to_string(at) + ", " + FMT[fmt] + " threads " + std::to_string(threads); },
                           [&] {
                               omp_set_num_threads(threads);
                               TestReader_p src = dataset(1);
                               const string fn = ex.scratch() + "/w.nc";
                               doWrite(src, fmt, fn);
                               auto src2 = dataset(1);
                               src2->full["v"] = mk(CDM_INT, {11, 12, 13, 14, 15, 16});
                               auto f = std::make_shared<Failing>(src2, at, how);
                               bool thrown = false;
                               {
                                   CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf+rw", fn);
                                   try {
                                       FillWriter fw(f, rw);
                                   } catch (...) {
                                       thrown = true;
                                   }
                               }
                               ex.step();
                               const bool reached = f->n > at;
                               if (how == 3) {
                                   // a wrong axis may legitimately be used as it is; only no crash is required
                               } else if (reached)
                                   VF_CHECK(thrown, "filling reports success although the source failed");
                               else {
                                   VF_CHECK(!thrown, "filling fails without a fault");
                                   const string bad = complete(src2, fmt, fn);
                                   VF_CHECK(bad.empty(), bad);
                               }
                               ex.state("fill" + std::to_string(fmt) + std::to_string(how) + std::to_string(at) + std::to_string(thrown));
                               cleanDir(ex.scratch());
                           });
    ex.space("output that cannot be created");
    for (int fmt = 0; fmt < NFMT; ++fmt)
        for (int where = 0; where < 2; ++where)
            ex.run([=] { return string("create ") + FMT[fmt] + (where ? " in a missing directory" : " at the path of a directory"); },
                   [&] {
                       TestReader_p src = dataset(0);
                       const string d = ex.scratch() + (where ? "/missing/x.nc" : "");
                       VF_CHECK(throws([&] { doWrite(src, fmt, d); }), "creating an impossible file reports success");
                       VF_CHECK(throws([&] { CDMFileReaderFactory::create("netcdf", ex.scratch() + "/missing.nc"); }), "opening a missing file succeeds");
                       ex.state("create" + std::to_string(fmt) + std::to_string(where));
                   });
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceWrite(ex);
    spaceUpdate(ex);
    spaceRead(ex);
    spaceSource(ex);
}
