// Executes scripts of several client threads on one of the repository's dispatchers itself (no machines) under the
// cooperative scheduler and prints calls, returns and handler executions in the order in which they happened.
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <iostream>
#include <map>
#include <sstream>
#include <thread>

#include "loop.hpp"

using namespace hsmcpp;

struct Op {
    std::string op;
    int s = 0;  // slot of a handler
    std::vector<int> a;
};
struct React {
    int s, n, valid;  // n-th call of the handler in slot s (or n-th execution of action s)
    bool act;
    std::vector<Op> ops;
};
struct Run {
    int id = 0, cap = 0, slots = 0;
    std::string cfg;
    std::vector<std::string> kinds;
    std::vector<React> reacts;
    std::map<int, std::vector<Op>> threads;
};

static std::vector<std::string>* gLog;
static std::vector<HandlerID_t>* gIds;
static std::map<int, int>* gCalls;
static const Run* gRun;
static std::shared_ptr<Dispatcher>* gDisp;
static Dispatcher* gRaw;  // is deleted once its handlers have finished

static void flushAll(int code) {
    std::string o;
    for (auto& s : *gLog) {
        o += s;
        o += '\n';
    }
    o += "P " + std::to_string(sched::points()) + "\nEND " + std::to_string(code) + "\n";
    size_t off = 0;
    while (off < o.size()) {
        ssize_t w = ::write(1, o.data() + off, o.size() - off);
        if (w <= 0) break;
        off += w;
    }
}
static void line(const std::string& s) {
    gLog->push_back(s);
    if (gLog->size() > 700) {
        flushAll(0);
        _exit(0);
    }
}
namespace sched {
void onIdle(int64_t now) { line("I " + std::to_string(now)); }
void onTime(int64_t now) { line("T " + std::to_string(now)); }
void onStuck(const char* why, const std::string& threads) {
    Quiet q;
    gLog->push_back(std::string("X ") + why + " " + threads);
    flushAll(why[0] == 'd' ? 14 : why[0] == 'v' ? 15 : why[0] == 't' ? 16 : 17);
    _exit(0);
}
}  // namespace sched

static bool react(bool act, int s);
static bool handle(const char* kind, int s, int x) {
    {
        sched::Quiet q;
        line("H " + std::to_string(sched::tid()) + " " + kind + " " + std::to_string(s) + " " + std::to_string(x));
    }
    const bool v = react(kind[0] == 'a', kind[0] == 'a' ? x : s);
    {
        sched::Quiet q;
        line("Z " + std::to_string(sched::tid()) + " " + kind + " " + (v ? "1" : "0"));
    }
    return v;
}
static void doOpHere(const Op& o) {
    hsmcpp::IHsmEventDispatcher& d = *gRaw;
    if (o.op == "sleep") {
        sched::sleepMs(o.a[0]);
        return;
    }
    const int s = o.s;
    HandlerID_t id = 0;
    {
        sched::Quiet q;
        if (s > 0) {
            id = (*gIds)[s];
            if ((id == 0) != (o.op == "reg")) return;
            if (o.op == "reg") (*gIds)[s] = -1;
            if (id < 0) return;
        }
        std::ostringstream l;
        l << "C " << sched::tid() << ' ' << o.op << ' ' << s << ' ' << o.a.size();
        for (int x : o.a) l << ' ' << x;
        line(l.str());
    }
    sched::point();
    int r = 1;
    const std::string& k = s > 0 ? gRun->kinds[s - 1] : o.op;
    if (o.op == "reg") {
        if (k == "ev") {
            id = d.registerEventHandler([s]() { return handle("ev", s, 0); });
        } else if (k == "enq") {
            id = d.registerEnqueuedEventHandler([s](const EventID_t e) { return handle("enq", s, e); });
        } else {
            id = d.registerTimerHandler([s](const TimerID_t t) { return handle("tm", s, t); });
        }
        r = id;
    } else if (o.op == "unreg") {
        if (k == "ev") {
            d.unregisterEventHandler(id);
        } else if (k == "enq") {
            d.unregisterEnqueuedEventHandler(id);
        } else {
            d.unregisterTimerHandler(id);
        }
    } else if (o.op == "em") {
        d.emitEvent(id);
    } else if (o.op == "enq") {
        r = d.enqueueEvent(id, o.a[0]) ? 1 : 0;
    } else if (o.op == "act") {
        const int x = o.a[0];
        d.enqueueAction([x]() { handle("act", 0, x); });
    } else if (o.op == "ts") {
        d.startTimer(id, o.a[0], o.a[1], o.a[2] != 0);
    } else if (o.op == "tp") {
        d.stopTimer(o.a[0]);
    } else if (o.op == "tr") {
        d.restartTimer(o.a[0]);
    } else if (o.op == "tq") {
        r = d.isTimerRunning(o.a[0]) ? 1 : 0;
    } else if (o.op == "start") {
        r = d.start() ? 1 : 0;
    } else if (o.op == "stop") {
        d.stop();
    } else if (o.op == "join") {
        loop::end(*gDisp);
    }
    sched::point();
    {
        sched::Quiet q;
        if (o.op == "reg") (*gIds)[s] = id;
        line("R " + std::to_string(sched::tid()) + " " + std::to_string(r));
    }
}
static void doOp(const Op& o) {
    if (o.op == "start") {
        loop::call([&]() { doOpHere(o); });
    } else {
        doOpHere(o);
    }
}
static bool react(bool act, int s) {
    const React* todo = nullptr;
    {
        sched::Quiet q;
        const int n = ++(*gCalls)[act ? -s - 1 : s];
        for (const React& r : gRun->reacts) {
            if (r.act == act && r.s == s && r.n == n) todo = &r;
        }
    }
    if (todo == nullptr) return true;
    for (const Op& o : todo->ops) doOp(o);
    return todo->valid != 0;
}
static void execRun(const Run& r) {
    gLog = new std::vector<std::string>();
    gIds = new std::vector<HandlerID_t>(r.slots + 1, 0);
    gCalls = new std::map<int, int>();
    gDisp = new std::shared_ptr<Dispatcher>();
    gRun = &r;
    sched::Config c;
    {
        std::istringstream in(r.cfg);
        char x;
        in >> c.seed >> x >> c.mode >> x >> c.rate >> x >> c.changes >> x >> c.length >> x >> c.hurry >> x >> c.spurious;
    }
    sched::begin(c);
    loop::begin();
    *gDisp = loop::create(r.cap);
    gRaw = gDisp->get();
    const auto& th0 = r.threads.find(0)->second;
    for (const Op& o : th0) doOp(o);
    {
        std::vector<std::thread> th;
        for (auto& s : r.threads) {
            if (s.first == 0 || s.first == 99) continue;
            const std::vector<Op>* ops = &s.second;
            th.emplace_back([ops]() {
                for (const Op& o : *ops) doOp(o);
            });
        }
        for (auto& t : th) t.join();
    }
    for (const Op& o : r.threads.find(99)->second) doOp(o);
    loop::call([]() { gDisp->reset(); });
#if WHICH_LOOP != 0
    sched::sleepMs(20);
    loop::end(nullptr);
#endif
    {
        sched::Quiet q;
        flushAll(0);
    }
    _exit(0);
}

static std::vector<Op> readOps(std::istream& in) {
    int n = 0;
    in >> n;
    std::vector<Op> v;
    for (int i = 0; i < n; ++i) {
        Op o;
        int k = 0;
        in >> o.op >> o.s >> k;
        for (int j = 0; j < k; ++j) {
            int x = 0;
            in >> x;
            o.a.push_back(x);
        }
        v.push_back(o);
    }
    return v;
}
static bool readRun(std::istream& in, Run& r) {
    std::string w;
    if (!(in >> w) || w != "RUN") return false;
    r = Run();
    in >> r.id >> r.cap >> r.cfg >> r.slots;
    for (int i = 0; i < r.slots; ++i) {
        in >> w;
        r.kinds.push_back(w);
    }
    int n = 0;
    in >> n;
    for (int i = 0; i < n; ++i) {
        React x;
        int a = 0;
        in >> a >> x.s >> x.n >> x.valid;
        x.act = a != 0;
        x.ops = readOps(in);
        r.reacts.push_back(x);
    }
    r.threads[0];
    r.threads[99];
    in >> n;
    for (int i = 0; i < n; ++i) {
        int t = 0;
        in >> t;
        r.threads[t] = readOps(in);
    }
    return true;
}

int main(int argc, char** argv) {
    const int limit = (argc > 1) ? atoi(argv[1]) : 10;
    Run r;
    while (readRun(std::cin, r)) {
        const std::string h = "RUN " + std::to_string(r.id) + "\n";
        (void)!write(1, h.data(), h.size());
        const pid_t pid = fork();
        if (pid == 0) {
            alarm(limit);
            execRun(r);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            const std::string e = "END " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\n";
            (void)!write(1, e.data(), e.size());
        }
    }
    return 0;
}
