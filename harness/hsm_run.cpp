// Executes scripts on the real state machine engine, one dispatcher turn at a time, and prints what can be observed.
// Input (whitespace separated tokens, produced by tools/): see readRun(). Each run is executed in its own process.
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <deque>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "hsmcpp/HsmEventDispatcherBase.hpp"
#ifdef GENERATED
#include "generated.hpp"
#else
#include "machine.hpp"
#endif

static std::string gOut;
static int gOp = 0;
static void line(const std::string& s) {
    gOut += s;
    gOut += '\n';
}
static void flushOut() {
    size_t off = 0;
    while (off < gOut.size()) {
        ssize_t w = ::write(1, gOut.data() + off, gOut.size() - off);
        if (w <= 0) break;
        off += w;
    }
    gOut.clear();
}

static std::vector<std::shared_ptr<Machine>> gMachines;
#ifdef GENERATED
static int timerNo(const int id) { return gMachines[0]->g->timerNo(id); }
static int timerId(const int no) { return gMachines[0]->g->timers.at(no - 1); }
#else
static int timerNo(const int id) { return id; }
static int timerId(const int no) { return no; }
#endif
static void callbackDone(const int) {}

struct Turner {
    virtual ~Turner() = default;
    virtual int turn() = 0;
    virtual void fire(int id) = 0;
    virtual void snapshot() {}
};

// a dispatcher of our own: one turn delivers the accepted interrupt events and one emitted event
class OwnDispatcher : public IHsmEventDispatcher, public Turner {
public:
    std::map<HandlerID_t, EventHandlerFunc_t> ev;
    std::map<HandlerID_t, EnqueuedEventHandlerFunc_t> enq;
    std::map<HandlerID_t, TimerHandlerFunc_t> tm;
    std::deque<HandlerID_t> emitted;
    std::deque<std::pair<HandlerID_t, EventID_t>> irq;
    std::map<TimerID_t, HandlerID_t> timers;
    int next = 1;
    size_t cap;
    int stopped = 0;
    explicit OwnDispatcher(size_t c) : cap(c) {}
    bool start() override { return true; }
    void stop() override { stopped++; }
    HandlerID_t registerEventHandler(const EventHandlerFunc_t& h) override { ev[next] = h; return next++; }
    void unregisterEventHandler(const HandlerID_t id) override { ev.erase(id); }
    HandlerID_t registerEnqueuedEventHandler(const EnqueuedEventHandlerFunc_t& h) override { enq[next] = h; return next++; }
    void unregisterEnqueuedEventHandler(const HandlerID_t id) override { enq.erase(id); }
    void emitEvent(const HandlerID_t id) override { emitted.push_back(id); }
    bool enqueueEvent(const HandlerID_t id, const EventID_t e) override {
        if (irq.size() >= cap) return false;
        irq.emplace_back(id, e);
        return true;
    }
    void enqueueAction(ActionHandlerFunc_t a) override { a(); }
    HandlerID_t registerTimerHandler(const TimerHandlerFunc_t& h) override { tm[next] = h; return next++; }
    void unregisterTimerHandler(const HandlerID_t id) override { tm.erase(id); }
    void startTimer(const HandlerID_t h, const TimerID_t id, const unsigned int iv, const bool ss) override {
        if (tm.find(h) == tm.end()) {
            observe(0, "ts!", 0, {timerNo(id)});
            return;
        }
        timers[id] = h;
        observe(-1, "ts", 0, {timerNo(id), static_cast<int>(iv), ss ? 1 : 0});
    }
    void restartTimer(const TimerID_t id) override { observe(-1, "trs", 0, {timerNo(id)}); }
    void stopTimer(const TimerID_t id) override { observe(-1, "tp", 0, {timerNo(id)}); }
    bool isTimerRunning(const TimerID_t id) override { return timers.count(id) > 0; }

    int turn() override {
        int had = 0;
        while (!irq.empty()) {
            auto p = irq.front();
            irq.pop_front();
            auto it = enq.find(p.first);
            if (it != enq.end()) (void)it->second(p.second);
        }
        if (!emitted.empty()) {
            had = 1;
            const HandlerID_t h = emitted.front();
            emitted.pop_front();
            auto it = ev.find(h);
            if (it != ev.end()) {
                auto f = it->second;
                (void)f();
            }
        }
        return had;
    }
    void fire(int id) override {
        for (auto& p : tm) {
            auto f = p.second;
            (void)f(id);
            break;
        }
    }
};

// repository's dispatcher base class, driven step by step
class BaseDispatcher : public HsmEventDispatcherBase, public Turner {
public:
    explicit BaseDispatcher(size_t c) : HsmEventDispatcherBase(c) {}
    bool start() override { mStopDispatcher = false; return true; }
    bool deleteSafe() override { return true; }
    void emitEvent(const HandlerID_t id) override { HsmEventDispatcherBase::emitEvent(id); }
    void notifyDispatcherAboutEvent() override { notified++; }
    void startTimerImpl(const TimerID_t id, const unsigned int iv, const bool ss) override {
        if (native.count(id) == 0) native[id] = {static_cast<int>(iv), ss ? 1 : 0, ++gen};
    }
    void stopTimerImpl(const TimerID_t id) override { native.erase(id); }
    // timers as the platform and as the dispatcher sees them
    void snapshot() override {
        std::vector<int> r;
        for (auto& p : native) {
            r.push_back(p.first);
            r.push_back(p.second[0]);
            r.push_back(p.second[1]);
            if (!isTimerRunning(p.first)) r.push_back(-1);
        }
        for (int i = 1; i < 60; ++i) {
            if (native.count(i) == 0 && isTimerRunning(i)) r.push_back(-2);
        }
        observe(0, "tms", 0, r);
    }
    int turn() override {
        const int had = (notified > 0) ? 1 : 0;
        if (had) {
            notified = 0;
            dispatchPendingEvents();
        }
        return had;
    }
    void fire(int id) override {
        auto it = native.find(id);
        if (it == native.end()) return;
        const int g = it->second[2];
        const unsigned int next = handleTimerEvent(id);
        it = native.find(id);
        if (next == 0 && it != native.end() && it->second[2] == g) native.erase(it);
    }
    int notified = 0, gen = 0;
    std::map<int, std::vector<int>> native;
};

// the debug log: what was appended since it was read last
static std::string gLogFile;
static size_t gLogRead = 0;
static void readLog() {
    if (gLogFile.empty()) return;
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    char when[40], ms[8];
    struct tm lt = *localtime(&t.tv_sec);
    strftime(when, sizeof(when), "%Y-%m-%d_%H:%M:%S", &lt);
    snprintf(ms, sizeof(ms), ".%03d", static_cast<int>(t.tv_nsec / 1000000));
    std::string hex;
    FILE* f = fopen(gLogFile.c_str(), "rb");
    if (f != nullptr) {
        fseek(f, static_cast<long>(gLogRead), SEEK_SET);
        char x[4];
        for (int c = fgetc(f); c != EOF; c = fgetc(f)) {
            snprintf(x, sizeof(x), "%02x", c);
            hex += x;
            gLogRead++;
        }
        fclose(f);
    }
    if (!hex.empty()) line("B " + std::to_string(gOp) + " " + when + ms + " " + hex);
}

static int gOnlyMachine = 1;
static void observe(const int m, const std::string& k, const int s, const std::vector<int>& args, const std::vector<int>* act) {
    readLog();
    std::ostringstream o;
    const int mm = (m < 0) ? gOnlyMachine : m;
    o << "O " << gOp << ' ' << mm << ' ' << k << ' ' << s << ' ' << args.size();
    for (int a : args) o << ' ' << a;
    std::vector<int> cur;
    if (act != nullptr) {
        cur = *act;
    } else if (mm >= 1 && mm <= static_cast<int>(gMachines.size()) && gMachines[mm - 1]) {
        cur = gMachines[mm - 1]->active();
    }
    o << ' ' << cur.size();
    for (int a : cur) o << ' ' << a;
    line(o.str());
}

static std::shared_ptr<IHsmEventDispatcher> gDisp;
static Turner* gTurner = nullptr;

static VariantVector_t va(const std::vector<int>& a) {
    VariantVector_t r;
    for (int x : a) {
        const std::string* t = specialText(x);
        if (t == nullptr) {
            r.emplace_back(x);
        } else if (x % 4 == 0) {
            r.emplace_back(*t);
        } else {
            r.emplace_back(ByteArray_t(t->begin(), t->end()));
        }
    }
    return r;
}

// how the log is requested: p - path, e - path in environment, d - default path, a - path of a file which has content already,
// x - path which can't be written
static char gLogMode = '-';
static std::string gDir;
static void logSetup(const std::string& mode) {
    gLogMode = mode[0];
    if (gLogMode == '-') return;
    std::string t = gDir + "/log_XXXXXX";
    if (mkdtemp(&t[0]) == nullptr || chdir(t.c_str()) != 0) _exit(97);
    unsetenv("HSMCPP_DUMP_PATH");
    gLogFile = t + (gLogMode == 'd' ? "/dump.hsmlog" : gLogMode == 'x' ? "/none/x.hsmlog" : "/x.hsmlog");
    if (gLogMode == 'a') {
        FILE* f = fopen(gLogFile.c_str(), "wb");
        fputs("---\n\n-\n  before: 1", f);
        fclose(f);
    }
    if (gLogMode == 'e') setenv("HSMCPP_DUMP_PATH", gLogFile.c_str(), 1);
    gMachines[0]->disableHsmDebugging();
    readLog();
}
static bool logOn() {
    return (gLogMode == 'd' || gLogMode == 'e') ? gMachines[0]->enableHsmDebugging() : gMachines[0]->enableHsmDebugging(gLogFile);
}
static void logEnd() {
    if (gLogMode == '-') return;
    readLog();
    (void)::unlink(gLogFile.c_str());
    if (chdir("..") == 0) (void)::rmdir((gLogFile.substr(0, gLogFile.rfind('/'))).c_str());
}

static void doOp(const Op& o) {
    if (o.op == "nop") return;
    if (o.op == "lon") {
        observe(1, "lon", 0, {logOn() ? 1 : 0});
        return;
    }
    if (o.op == "loff") {
        gMachines[0]->disableHsmDebugging();
        return;
    }
    if (o.op == "fire") {
        gTurner->fire(timerId(o.e));
        return;
    }
    if (o.op == "d") {
        const int had = gTurner->turn();
        line("T " + std::to_string(gOp) + " " + std::to_string(had));
        return;
    }
    auto m = (o.m >= 1 && o.m <= static_cast<int>(gMachines.size())) ? gMachines[o.m - 1] : nullptr;
    if (!m) return;
    gOnlyMachine = o.m;
    if (o.op == "init") {
        observe(o.m, "init", 0, {m->initialize(gDisp) ? 1 : 0});
    } else if (o.op == "t") {
        m->transitionWithArgsArray(m->eid(o.e), va(o.args));
    } else if (o.op == "tc") {
        (void)m->transitionExWithArgsArray(m->eid(o.e), true, false, 0, va(o.args));
    } else if (o.op == "p") {
        bool r = false;
        const int e = m->eid(o.e);
        switch (o.args.size()) {
            case 0: r = m->isTransitionPossible(e); break;
            case 1: r = m->isTransitionPossible(e, o.args[0]); break;
            default: r = m->isTransitionPossible(e, o.args[0], o.args[1]); break;
        }
        observe(o.m, "poss", o.e, {r ? 1 : 0});
    } else if (o.op == "irq") {
        const bool r = m->transitionInterruptSafe(m->eid(o.e));
        observe(o.m, "irq", o.e, {r ? 1 : 0});
    } else if (o.op == "ts") {
        m->startTimer(o.args[0], o.args[1], o.args[2] != 0);
    } else if (o.op == "tp") {
        m->stopTimer(o.args[0]);
    } else if (o.op == "tr") {
        m->restartTimer(o.args[0]);
    } else if (o.op == "rel") {
        m->release();
    } else if (o.op == "del") {
        gMachines[o.m - 1].reset();
    } else if (o.op == "env") {
        m->d.cond = o.cond;
        m->d.bx = o.bx;
        m->d.be = o.be;
    } else if (o.op == "isup") {
        observe(o.m, "isup", 0, {m->isInitialized() ? 1 : 0});
    }
}

static void execRun(const Run& r) {
#ifdef GENERATED
    const bool own = true;
#else
    const bool own = (r.disp == 0);
#endif
    if (own) {
        auto d = std::make_shared<OwnDispatcher>(r.ms[0].cap);
        gTurner = d.get();
        gDisp = d;
    } else {
        auto d = std::make_shared<BaseDispatcher>(r.ms[0].cap);
        gTurner = d.get();
        gDisp = d;
    }
    int no = 0;
#ifdef GENERATED
    gMachines.push_back(std::make_shared<Machine>(r.ms[0], ++no, r.disp));
#else
    for (const MachineDef& d : r.ms) {
        auto m = std::make_shared<Machine>(d, ++no);
        if (d.fcb) {
            Machine* p = m.get();
            m->registerFailedTransitionCallback([p](const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) {
                std::vector<int> act;
                for (auto s : st) act.push_back(p->bs(s));
                observe(p->no, "fl", p->be(e), Machine::ia(a), &act);
                p->react("fl", p->be(e));
            });
        }
        gMachines.push_back(m);
    }
#endif
    for (const Cmd& c : r.cmds) line("R " + std::to_string(gMachines[c.m - 1]->exec(c)));
    logSetup(r.logPath);
    for (const Op& o : r.ops) {
        gOp++;
        doOp(o);
        gTurner->snapshot();
        readLog();
        flushOut();
    }
}

int main(int argc, char** argv) {
    const int limit = (argc > 1) ? atoi(argv[1]) : 10;
    const std::string self = argv[0];
    gDir = self.find('/') == std::string::npos ? "." : self.substr(0, self.rfind('/'));
    Run r;
    while (readRun(std::cin, r)) {
        line("RUN " + std::to_string(r.id));
        flushOut();
        const pid_t pid = fork();
        if (pid == 0) {
            alarm(limit);
            execRun(r);
            logEnd();
            line("END 0");
            flushOut();
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            line("END " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)));
            flushOut();
        }
    }
    return 0;
}
