// Executes scripts of several client threads on real machines with one of the repository's dispatchers (loop.hpp) under the
// cooperative scheduler and prints calls, returns and callbacks in the order in which they happened.
#include <signal.h>
#include <sys/wait.h>

#include <sstream>
#include <thread>

#include "loop.hpp"
#include "machine.hpp"

static std::vector<std::string>* gLog;
static std::vector<std::shared_ptr<Machine>>* gMachines;
static std::shared_ptr<Dispatcher>* gDisp;

static void flushAll(int code) {
    std::string o;
    for (auto& s : *gLog) {
        o += s;
        o += '\n';
    }
    o += "P " + std::to_string(sched::points()) + "\nEND " + std::to_string(code) + "\n";
    size_t off = 0;
    while (off < o.size()) {
        ssize_t w = ::write(1, o.data() + off, o.size() - off);
        if (w <= 0) break;
        off += w;
    }
}
// a machine may keep itself busy for ever: the beginning is enough
static void line(const std::string& s) {
    gLog->push_back(s);
    if (gLog->size() > 700) {
        flushAll(0);
        _exit(0);
    }
}
namespace sched {
void onIdle(int64_t now) {
    line("I " + std::to_string(now));
}
void onTime(int64_t now) {
    line("T " + std::to_string(now));
}
void onStuck(const char* why, const std::string& threads) {
    Quiet q;
    line(std::string("X ") + why + " " + threads);
    flushAll(why[0] == 'd' ? 14 : why[0] == 'v' ? 15 : why[0] == 't' ? 16 : 17);
    _exit(0);
}
}  // namespace sched

static void observe(const int m, const std::string& k, const int s, const std::vector<int>& args, const std::vector<int>* act) {
    sched::Quiet q;
    std::ostringstream o;
    o << "B " << sched::tid() << ' ' << m << ' ' << k << ' ' << s << ' ' << args.size();
    for (int a : args) o << ' ' << a;
    std::vector<int> cur;
    if (act != nullptr) {
        cur = *act;
    } else if ((*gMachines)[m - 1]) {
        cur = (*gMachines)[m - 1]->active();
    }
    o << ' ' << cur.size();
    for (int a : cur) o << ' ' << a;
    line(o.str());
}
static void callbackDone(const int m) {
    sched::Quiet q;
    line("E " + std::to_string(sched::tid()) + " " + std::to_string(m));
}
static VariantVector_t va(const std::vector<int>& a, size_t from) {
    VariantVector_t r;
    for (size_t i = from; i < a.size(); ++i) r.emplace_back(a[i]);
    return r;
}
static void doOpHere(const Op& o) {
    if (o.op == "sleep") {
        sched::sleepMs(o.e);
        return;
    }
    Machine* m = (*gMachines)[o.m - 1].get();
    {
        sched::Quiet q;
        std::ostringstream s;
        s << "C " << sched::tid() << ' ' << o.m << ' ' << o.op << ' ' << o.e << ' ' << o.tag << ' ' << o.args.size();
        for (int a : o.args) s << ' ' << a;
        line(s.str());
    }
    sched::point();
    int r = 1;
    if (o.op == "init") {
        r = m->initialize(*gDisp) ? 1 : 0;
    } else if (o.op == "t") {
        m->transitionWithArgsArray(m->eid(o.e), va(o.args, 0));
    } else if (o.op == "tc") {
        r = m->transitionExWithArgsArray(m->eid(o.e), true, false, 0, va(o.args, 0)) ? 1 : 0;
    } else if (o.op == "s" || o.op == "sc") {
        r = m->transitionExWithArgsArray(m->eid(o.e), o.op == "sc", true, o.args[0], va(o.args, 1)) ? 1 : 0;
    } else if (o.op == "irq") {
        r = m->transitionInterruptSafe(m->eid(o.e)) ? 1 : 0;
    } else if (o.op == "ts") {
        m->startTimer(o.args[0], o.args[1], o.args[2] != 0);
    } else if (o.op == "tp") {
        m->stopTimer(o.args[0]);
    } else if (o.op == "tr") {
        m->restartTimer(o.args[0]);
    } else if (o.op == "tq") {
        r = m->isTimerRunning(o.args[0]) ? 1 : 0;
    } else if (o.op == "rel") {
        m->release();
    }
    sched::point();
    {
        sched::Quiet q;
        line("R " + std::to_string(sched::tid()) + " " + std::to_string(r));
    }
}

// handlers are registered and unregistered by the thread of the loop if the dispatcher demands it
static void doOp(const Op& o) {
    if (o.op == "init" || o.op == "rel") {
        loop::call([&]() { doOpHere(o); });
    } else {
        doOpHere(o);
    }
}

static void execRun(const Run& r) {
    gLog = new std::vector<std::string>();
    gMachines = new std::vector<std::shared_ptr<Machine>>();
    gDisp = new std::shared_ptr<Dispatcher>();
    sched::Config c;
    {
        std::istringstream in(r.logPath);
        char x;
        in >> c.seed >> x >> c.mode >> x >> c.rate >> x >> c.changes >> x >> c.length >> x >> c.hurry >> x >> c.spurious;
    }
    int no = 0;
    for (const MachineDef& d : r.ms) {
        auto m = std::make_shared<Machine>(d, ++no);
        if (d.fcb) {
            Machine* p = m.get();
            m->registerFailedTransitionCallback([p](const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) {
                std::vector<int> act;
                for (auto s : st) act.push_back(p->bs(s));
                observe(p->no, "fl", p->be(e), Machine::ia(a), &act);
                p->react("fl", p->be(e));
                callbackDone(p->no);
            });
        }
        gMachines->push_back(m);
    }
    for (const Cmd& cm : r.cmds) (void)(*gMachines)[cm.m - 1]->exec(cm);
    std::map<int, std::vector<Op>> scripts;
    int cur = 0;
    for (const Op& o : r.ops) {
        if (o.op == "thr") {
            cur = o.e;
        } else {
            scripts[cur].push_back(o);
        }
    }
    sched::begin(c);
    loop::begin();
    *gDisp = loop::create(r.ms[0].cap);
    for (const Op& o : scripts[0]) doOp(o);
    {
        std::vector<std::thread> th;
        for (auto& s : scripts) {
            if (s.first == 0 || s.first == 99) continue;
            const std::vector<Op>* ops = &s.second;
            th.emplace_back([ops]() {
                for (const Op& o : *ops) doOp(o);
            });
        }
        for (auto& t : th) t.join();
    }
    for (const Op& o : scripts[99]) doOp(o);
    // the client's objects must not be destroyed while their callbacks may be running
    for (auto& m : *gMachines) {
        if (m->isInitialized()) {
            Op o;
            o.op = "rel";
            o.m = m->no;
            doOp(o);
        }
    }
    loop::call([]() {
        gMachines->clear();
        gDisp->reset();
    });
#if WHICH_LOOP != 0
    sched::sleepMs(20);
    loop::end(nullptr);
#endif
    {
        sched::Quiet q;
        flushAll(0);
    }
    _exit(0);
}

int main(int argc, char** argv) {
    const int limit = (argc > 1) ? atoi(argv[1]) : 10;
    Run r;
    while (readRun(std::cin, r)) {
        const std::string h = "RUN " + std::to_string(r.id) + "\n";
        (void)!write(1, h.data(), h.size());
        const pid_t pid = fork();
        if (pid == 0) {
            alarm(limit);
            execRun(r);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            const std::string e = "END " + std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\n";
            (void)!write(1, e.data(), e.size());
        }
    }
    return 0;
}
