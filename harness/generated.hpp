// Machines which are classes generated from SCXML; tools/check_gen.py writes the subclasses which implement their callbacks.
#pragma once
#include <functional>
#include <list>
#include <memory>
#include <set>

#include "script.hpp"

// what a generated class implements its callbacks with
class GenMachine {
public:
    virtual ~GenMachine() = default;
    virtual HierarchicalStateMachine& hsm() = 0;
    virtual std::string nameOfState(const StateID_t s) const = 0;
    virtual std::string nameOfEvent(const EventID_t e) const = 0;

    std::vector<std::pair<std::string, StateID_t>> states;      // number - 1
    std::vector<std::pair<std::string, EventID_t>> events;
    std::vector<TimerID_t> timers;
    MachineDef d;

    int stateNo(const StateID_t s) const {
        for (size_t i = 0; i < states.size(); ++i) {
            if (states[i].second == s) return static_cast<int>(i) + 1;
        }
        return 900;
    }
    int eventNo(const EventID_t e) const {
        if (e == INVALID_HSM_EVENT_ID) return 0;
        for (size_t i = 0; i < events.size(); ++i) {
            if (events[i].second == e) return static_cast<int>(i) + 1;
        }
        return 900;
    }
    int timerNo(const TimerID_t t) const {
        for (size_t i = 0; i < timers.size(); ++i) {
            if (timers[i] == t) return static_cast<int>(i) + 1;
        }
        return 900;
    }
    // identifiers are different, and are named as in the document (events without name don't appear in it)
    bool consistent() const {
        std::set<int> s, e, t;
        bool ok = true;
        for (auto& x : states) ok = s.insert(x.second).second && nameOfState(x.second) == x.first && ok;
        for (auto& x : events) ok = e.insert(x.second).second && (x.first.empty() || nameOfEvent(x.second) == x.first) && ok;
        for (auto& x : timers) ok = t.insert(x).second && ok;
        return ok;
    }
    std::vector<int> active() {
        std::vector<int> r;
        for (auto s : hsm().getActiveStates()) r.push_back(stateNo(s));
        for (size_t i = 0; i < states.size(); ++i) {
            bool in = false;
            for (int x : r) in = in || x == static_cast<int>(i) + 1;
            if (in != hsm().isStateActive(states[i].second)) r.push_back(-static_cast<int>(i) - 1);
        }
        return r;
    }
    void fv(const int fn, const VariantVector_t& a) { observe(1, "f", fn, args(a)); }
    bool fb(const int fn, const VariantVector_t& a) {
        observe(1, "f", fn, args(a));
        return d.be[fn - 1] == 0;
    }
    bool fx(const int fn) {
        observe(1, "f", fn, {});
        return d.bx[fn - 1] == 0;
    }
    bool cond(const int c, const VariantVector_t& a) const {
        if (d.ca[c - 1]) return !a.empty() && (args(a)[0] % 2 == 1);
        return d.cond[c - 1] != 0;
    }
    void failed(const std::list<StateID_t>& st, const EventID_t e, const VariantVector_t& a) {
        std::vector<int> act;
        for (auto s : st) act.push_back(stateNo(s));
        observe(1, "fl", eventNo(e), args(a), &act);
    }
};

extern std::vector<std::function<std::shared_ptr<GenMachine>()>> gMakers;

// what the interpreter of scripts needs
class Machine {
public:
    std::shared_ptr<GenMachine> g;
    MachineDef& d;
    int no;
    Machine(const MachineDef& def, const int num, const int cls) : g(gMakers.at(cls)()), d(g->d), no(num) { d = def; }
    int eid(const int e) const { return e == 0 ? INVALID_HSM_EVENT_ID : g->events.at(e - 1).second; }
    int bs(const int s) const { return g->stateNo(s); }
    int be(const int e) const { return g->eventNo(e); }
    static std::vector<int> ia(const VariantVector_t& a) { return args(a); }
    void react(const std::string&, int) {}
    std::vector<int> active() { return g->active(); }
    int exec(const Cmd&) { return 0; }
    bool initialize(const std::weak_ptr<IHsmEventDispatcher>& x) {
        if (!g->consistent()) observe(1, "bad", 0, {});
        return g->hsm().initialize(x);
    }
    void release() { g->hsm().release(); }
    bool isInitialized() { return g->hsm().isInitialized(); }
    void transitionWithArgsArray(const EventID_t e, VariantVector_t a) { g->hsm().transitionWithArgsArray(e, std::move(a)); }
    bool transitionExWithArgsArray(const EventID_t e, const bool c, const bool s, const int t, VariantVector_t a) {
        return g->hsm().transitionExWithArgsArray(e, c, s, t, std::move(a));
    }
    template <typename... A>
    bool isTransitionPossible(const EventID_t e, A... a) { return g->hsm().isTransitionPossible(e, a...); }
    bool transitionInterruptSafe(const EventID_t e) { return g->hsm().transitionInterruptSafe(e); }
    void startTimer(const TimerID_t t, const unsigned int ms, const bool ss) { g->hsm().startTimer(t, ms, ss); }
    void stopTimer(const TimerID_t t) { g->hsm().stopTimer(t); }
    void restartTimer(const TimerID_t t) { g->hsm().restartTimer(t); }
    bool enableHsmDebugging(const std::string& = "") { return false; }
    void disableHsmDebugging() {}
};
