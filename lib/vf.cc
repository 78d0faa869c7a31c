#include "vf.h"

#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <utility>

namespace vf {
namespace {

struct Shared
{
    std::atomic<uint64_t> cur;       // 1 + index of the point being executed (0: none)
    std::atomic<uint64_t> total;     // points enumerated (all workers)
    std::atomic<uint64_t> executed;  // points completed in this worker
    std::atomic<uint64_t> steps;
    std::atomic<int> finished;
};

struct Impl
{
    Shared* sh = nullptr;
    uint64_t idx = 0; // next point index
    uint64_t resume = 0;
    int shard = 0, nshards = 1;
    bool describe = false;
    bool list_only = false;
    int64_t only = -1;
    std::string cur_space;
    std::map<std::string, std::pair<uint64_t, uint64_t>> spaces; // enumerated, executed
    std::vector<std::string> space_order;
    std::unordered_set<uint64_t> states;
    uint64_t nsamples = 0;
    FILE* out = nullptr;
    std::map<std::string, int> space_viol;
    int nviol = 0;
    int max_viol = 40;
    bool stop = false;
};

Impl I;

std::string js(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + 1e-9 * ts.tv_nsec;
}

void emit(FILE* f, const std::string& line)
{
    fputs((line + "\n").c_str(), f);
    fflush(f);
}

} // namespace

uint64_t fnv(const void* p, size_t n, uint64_t h)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}

void fail(const std::string& msg)
{
    throw Violation(msg);
}
void failKnown(const std::string& key, const std::string& msg)
{
    throw Violation(msg, key);
}

void Explorer::step(uint64_t n)
{
    I.sh->steps.fetch_add(n, std::memory_order_relaxed);
}
void Explorer::state(uint64_t h)
{
    if (I.states.size() < 4000000)
        I.states.insert(h);
}
void Explorer::state(const std::string& s)
{
    state(fnv(s));
}
void Explorer::space(const std::string& name)
{
    I.cur_space = name;
    if (!I.spaces.count(name)) {
        I.spaces[name] = std::make_pair(0ull, 0ull);
        I.space_order.push_back(name);
    }
}

void Explorer::run(const Desc& desc, const Body& body)
{
    const uint64_t idx = I.idx++;
    auto& sp = I.spaces[I.cur_space];
    sp.first += 1;
    if (I.stop)
        return;
    if (I.only >= 0) {
        if (idx != static_cast<uint64_t>(I.only))
            return;
        if (I.describe) {
            std::cout << "[" << I.cur_space << "] " << desc() << std::endl;
            return;
        }
    } else {
        if (static_cast<int>(idx % I.nshards) != I.shard || idx < I.resume)
            return;
    }
    I.sh->cur.store(idx + 1);
    std::string msg, key;
    bool bad = false;
    try {
        body();
    } catch (Violation& v) {
        bad = true;
        msg = v.what();
        key = v.key;
    } catch (std::exception& e) {
        bad = true;
        msg = std::string("unexpected exception: ") + e.what();
    } catch (...) {
        bad = true;
        msg = "unexpected exception of unknown type";
    }
    I.sh->cur.store(0);
    I.sh->executed.fetch_add(1, std::memory_order_relaxed);
    sp.second += 1;
    const bool sample = !bad && I.only < 0 && (sp.second == 1 || sp.second == 1000) && I.nsamples < 40;
    if (bad && ++I.space_viol[I.cur_space] > 4 && I.only < 0) {
        // enough examples from this part of the space
    } else if (bad) {
        emit(I.out, "{\"t\":\"viol\",\"idx\":" + std::to_string(idx) + ",\"space\":" + js(I.cur_space) + ",\"desc\":" + js(desc()) + ",\"msg\":" + js(msg) +
                        ",\"key\":" + js(key) + "}");
        if (++I.nviol >= I.max_viol && I.only < 0) {
            I.stop = true;
            emit(I.out, "{\"t\":\"capped\"}");
        }
    } else if (sample) {
        I.nsamples += 1;
        emit(I.out, "{\"t\":\"sample\",\"idx\":" + std::to_string(idx) + ",\"space\":" + js(I.cur_space) + ",\"desc\":" + js(desc()) + "}");
    }
}

} // namespace vf

using namespace vf;

static int worker(Explorer& ex, const std::string& outbase)
{
    I.out = fopen((outbase + ".jsonl").c_str(), "a");
    if (!I.out)
        return 90;
    mkdir(ex.scratch_.c_str(), 0700);
    try {
        explore(ex);
    } catch (std::exception& e) {
        emit(I.out, "{\"t\":\"error\",\"msg\":" + js(std::string("harness: ") + e.what()) + "}");
        fclose(I.out);
        _exit(91);
    }
    std::string line = "{\"t\":\"end\",\"total\":" + std::to_string(I.idx) + ",\"executed\":" + std::to_string(I.sh->executed.load()) +
                       ",\"steps\":" + std::to_string(I.sh->steps.load()) + ",\"spaces\":[";
    bool first = true;
    for (auto& n : I.space_order) {
        line += (first ? "" : ",");
        first = false;
        line += "{\"name\":" + js(n) + ",\"enumerated\":" + std::to_string(I.spaces[n].first) + ",\"executed\":" + std::to_string(I.spaces[n].second) + "}";
    }
    line += "]}";
    emit(I.out, line);
    fclose(I.out);
    FILE* s = fopen((outbase + ".states").c_str(), "ab");
    for (uint64_t h : I.states)
        fwrite(&h, 8, 1, s);
    fclose(s);
    I.sh->finished.store(1);
    fflush(stdout);
    _exit(0);
}

int main(int argc, char** argv)
{
    std::string out, scratch = "/tmp/vf-scratch";
    int jobs = 8;
    double hang = 60;
    bool thorough = false;
    int only_shard = -1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--out")
            out = next();
        else if (a == "--scratch")
            scratch = next();
        else if (a == "--jobs")
            jobs = std::stoi(next());
        else if (a == "--hang")
            hang = std::stod(next());
        else if (a == "--thorough")
            thorough = true;
        else if (a == "--only")
            I.only = std::stoll(next());
        else if (a == "--describe") {
            I.describe = true;
            I.only = std::stoll(next());
        } else if (a == "--shard") // rerun one shard
            only_shard = std::stoi(next());
        else {
            std::cerr << "unknown option " << a << std::endl;
            return 2;
        }
    }
    Explorer ex;
    ex.thorough_ = thorough;
    if (I.describe) {
        I.sh = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        ex.scratch_ = scratch + "/describe";
        mkdir(ex.scratch_.c_str(), 0700);
        explore(ex);
        return 0;
    }
    const int nshards = jobs;
    if (I.only >= 0)
        jobs = 1;

    struct W
    {
        pid_t pid = -1;
        Shared* sh = nullptr;
        uint64_t resume = 0;
        uint64_t lastcur = 0, lastexec = 0;
        double since = 0;
        int crashes = 0;
        bool done = false;
        int shard = 0;
        bool hung = false;
    };
    std::vector<W> ws;
    for (int k = 0; k < jobs; ++k) {
        if (only_shard >= 0 && k != only_shard)
            continue;
        W w;
        w.shard = k;
        w.sh = static_cast<Shared*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
        ws.push_back(w);
    }
    FILE* drv = fopen((out + ".driver.jsonl").c_str(), "w");
    auto spawn = [&](W& w) {
        w.sh->cur.store(0);
        w.since = now();
        w.lastcur = 0;
        w.hung = false;
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            setpgid(0, 0);
            std::string ob = out + "." + std::to_string(w.shard);
            int fd = open((ob + ".log").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0600);
            if (fd >= 0) {
                dup2(fd, 1);
                dup2(fd, 2);
            }
            I.sh = w.sh;
            I.shard = w.shard;
            I.nshards = (I.only >= 0) ? 1 : nshards;
            I.resume = w.resume;
            ex.scratch_ = scratch + "/w" + std::to_string(w.shard);
            worker(ex, ob);
            _exit(92);
        }
        w.pid = p;
    };
    for (auto& w : ws)
        spawn(w);
    bool error = false;
    for (;;) {
        bool alldone = true;
        for (auto& w : ws) {
            if (w.done)
                continue;
            alldone = false;
            int st = 0;
            pid_t r = waitpid(w.pid, &st, WNOHANG);
            if (r == w.pid) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.sh->finished.load()) {
                    w.done = true;
                    continue;
                }
                const uint64_t cur = w.sh->cur.load();
                if (cur == 0) { // died outside of a point: error of the harness
                    emit(drv, "{\"t\":\"error\",\"shard\":" + std::to_string(w.shard) + ",\"status\":" + std::to_string(st) + "}");
                    error = true;
                    w.done = true;
                    continue;
                }
                std::string how = w.hung ? "hang" : WIFSIGNALED(st) ? ("signal " + std::to_string(WTERMSIG(st))) : ("exit " + std::to_string(WEXITSTATUS(st)));
                emit(drv, "{\"t\":\"crash\",\"idx\":" + std::to_string(cur - 1) + ",\"shard\":" + std::to_string(w.shard) + ",\"how\":" + js(how) + "}");
                w.resume = cur;
                if (++w.crashes >= 6 || I.only >= 0) {
                    emit(drv, "{\"t\":\"capped\"}");
                    w.done = true;
                } else
                    spawn(w);
                continue;
            }
            const uint64_t cur = w.sh->cur.load(), exec = w.sh->executed.load();
            if (cur != w.lastcur || exec != w.lastexec) {
                w.lastcur = cur;
                w.lastexec = exec;
                w.since = now();
            } else if (now() - w.since > hang && cur != 0) {
                w.hung = true;
                kill(-w.pid, SIGKILL);
                kill(w.pid, SIGKILL);
                w.since = now() + 1e6;
            }
        }
        if (alldone)
            break;
        usleep(20000);
    }
    fclose(drv);
    return error ? 3 : 0;
}
