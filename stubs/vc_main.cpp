// driver of the concrete replay: vc_main run NAME TOKENS... | search NAME SEED SECONDS CONSTFILE
#define VC_CONCRETE
#include "vc.h"
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <sys/resource.h>
#include <csignal>
#include <ucontext.h>

// the logger is switched off in the replay
namespace LoggerAPI {
enum class LogFile { NODE, WALLET };
enum class LogLevel { TRACE, DEBUG, INFO, WARN, ERR };
__attribute__((weak)) bool WillLog(const LogFile, const LogLevel) { return false; }
__attribute__((weak)) void Log(const LogFile, const LogLevel, const std::string&) {}
__attribute__((weak)) void LogTrace(const std::string&) {}
__attribute__((weak)) void LogDebug(const std::string&) {}
__attribute__((weak)) void LogInfo(const std::string&) {}
__attribute__((weak)) void LogWarning(const std::string&) {}
__attribute__((weak)) void LogError(const std::string&) {}
__attribute__((weak)) void Flush() {}
}
// a jump to an address near zero is a call of a function the replay was not linked with: that run shows nothing
static void on_segv(int, siginfo_t*, void* u)
{
    if (((ucontext_t*)u)->uc_mcontext.gregs[REG_RIP] < 4096) { const char m[] = "VC-UNLINKED\n"; (void)!write(1, m, sizeof m - 1); _exit(98); }
    signal(SIGSEGV, SIG_DFL);
}
static void guard() { struct sigaction a{}; a.sa_sigaction = on_segv; a.sa_flags = SA_SIGINFO; sigaction(SIGSEGV, &a, nullptr); }

namespace vc {
static std::string failed;
static std::string stop_at;
void require(bool c) { if (!c) throw Skip{}; }
void ensure(const char* name, bool c) { if (!c && failed.empty()) { failed = name; throw Skip{}; } }
void lemma(const char* name, bool c) { ensure(name, c); }
void cover(const char*) {}
void axiom(const char*, bool) {}
std::vector<Entry>& entries() { static std::vector<Entry> e; return e; }
uint64_t Src::tok() { uint64_t v = 0; if (!(in >> v)) v = 0; return v; }
size_t Src::len(size_t max)
{
    uint64_t r = pick(16);
    size_t n = r < 3 ? 0 : r < 6 ? 1 : r < 9 ? 2 : r < 13 ? pick(8) : r < 15 ? pick(70) : pick(max);
    if (depth > 0 && n > 8) n = pick(8);
    return n;
}
uint64_t Src::num(int bits)
{
    uint64_t v = 0;
    switch (pick(12)) {
    case 0: v = 0; break;
    case 1: v = pick(4); break;
    case 2: v = ~0ull - pick(3); break;
    case 3: v = (1ull << pick(bits)) + pick(3) - 1; break;
    case 4: v = rng() & ((2ull << pick(bits)) - 1); break;
    case 5: case 6: if (!pool.empty()) v = pool[pick(pool.size())] + pick(5) - 2; break;
    case 7: case 8: if (!pool.empty()) v = pool[pick(pool.size())]; break;
    case 9: case 10: if (!consts.empty()) { v = consts[pick(consts.size())] + pick(3) - 1; if (!pick(4) && !consts.empty()) v += consts[pick(consts.size())]; } break;
    default: v = rng();
    }
    if (bits < 64) v &= (1ull << bits) - 1;
    if (bits > 8) { pool.push_back(v); if (pool.size() > 24) pool.erase(pool.begin() + pick(pool.size())); }
    return v;
}
}
using namespace vc;
static char* shm;
static const size_t SHM = 1 << 22;
static std::string one(Entry& e, Src& s)
{
    failed.clear();
    try { e.run(s); }
    catch (Skip&) { return failed; }
    catch (std::exception& x) { return failed.empty() ? std::string("uncaught-exception ") + x.what() : failed; }
    catch (...) { return failed.empty() ? "uncaught-exception" : failed; }
    return failed;
}
int main(int argc, char** argv)
{
    std::string mode = argv[1], name = argv[2];
    Entry* e = nullptr;
    for (auto& x : entries()) if (x.name == name) e = &x;
    if (!e) { std::cerr << "no contract " << name << "\n"; return 3; }
    guard();
    if (mode == "run") {
        std::ifstream f(argv[3]);
        std::stringstream b; b << f.rdbuf();
        Src s; s.reading = true; s.in.str(b.str());
        std::string r = one(*e, s);
        if (r.empty()) { std::cout << "VC-OK\n"; return 0; }
        std::cout << "VC-FAIL " << r << "\n";
        return 1;
    }
    uint64_t seed = strtoull(argv[3], 0, 10);
    double secs = atof(argv[4]);
    std::vector<uint64_t> consts;
    { std::ifstream f(argv[5]); uint64_t v; while (f >> v) consts.push_back(v); }
    shm = (char*)mmap(0, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto t0 = std::chrono::steady_clock::now();
    auto el = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    uint64_t iter = 0, round = 0;
    while (el() < secs) {
        round++;
        shm[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            struct rlimit rl{8ull << 30, 8ull << 30};
            (void)rl;
            alarm((unsigned)secs + 20);
            std::vector<uint64_t> pool;
            for (uint64_t i = 0; el() < secs && i < 400000; i++) {
                Src s; s.rng.seed(seed * 1000003 + round * 7919 + i * 31 + 17); s.consts = consts;
                // generate first, publish, then run from the published text so that a crash is attributable
                struct Stop {};
                std::string r;
                failed.clear();
                try { e->run(s); } catch (Skip&) { r = failed; } catch (std::exception& x) { r = failed.empty() ? std::string("uncaught-exception ") + x.what() : failed; } catch (...) { r = failed.empty() ? "uncaught-exception" : failed; }
                if (!r.empty()) { std::cout << "VC-FAIL " << r << "\nVC-INPUT " << s.out << "\n" << std::flush; _exit(7); }
                *(uint64_t*)(shm + 8) = i;
            }
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7) return 1;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 98) { std::cout << "VC-NONE unlinked\n"; return 0; }
        // crash in iteration i = last completed + 1: regenerate its input in a fresh child that only prints it
        uint64_t i = *(uint64_t*)(shm + 8);
        for (uint64_t j = i; j <= i + 1; j++) {
            fflush(0);
            int fd[2]; if (pipe(fd)) return 3;
            pid_t q = fork();
            if (q == 0) {
                close(fd[0]);
                alarm(60);
                static Src* cur; static Src s; cur = &s; s.rng.seed(seed * 1000003 + round * 7919 + j * 31 + 17); s.consts = consts;
                static int wfd = fd[1];
                auto h = [](int) { (void)!write(wfd, cur->out.data(), cur->out.size()); _exit(9); };
                for (int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) signal(sg, h);
                std::string r = one(*e, s);
                if (!r.empty()) { (void)!write(wfd, s.out.data(), s.out.size()); _exit(9); }
                _exit(0);
            }
            close(fd[1]);
            std::string text; char buf[4096]; ssize_t n;
            while ((n = read(fd[0], buf, sizeof buf)) > 0) text.append(buf, n);
            close(fd[0]);
            waitpid(q, &st, 0);
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { std::cout << "VC-FAIL crash\nVC-INPUT " << text << "\n"; return 1; }
        }
    }
    std::cout << "VC-NONE rounds=" << round << "\n";
    return 0;
}
