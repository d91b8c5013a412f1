// Machines built from descriptions.
#pragma once
#include "script.hpp"

class Machine : public HierarchicalStateMachine {
public:
    MachineDef d;
    int no;
    std::map<int, int> back, eback;
    std::vector<int> rc;
    Machine(const MachineDef& def, int num) : HierarchicalStateMachine(def.ids[def.init - 1]), d(def), no(num) {
        for (int i = 0; i < d.n; ++i) back[d.ids[i]] = i + 1;
        for (int i = 0; i < d.ne; ++i) eback[d.evs[i]] = i + 1;
        eback[INVALID_HSM_EVENT_ID] = 0;
        for (auto& r : d.react) rc.push_back(r.n);
    }
    int sid(int s) const { return s == 0 ? INVALID_HSM_STATE_ID : d.ids[s - 1]; }
    int eid(int e) const { return e == 0 ? INVALID_HSM_EVENT_ID : d.evs[e - 1]; }
    int bs(int s) const { auto it = back.find(s); return it == back.end() ? 900 : it->second; }
    int be(int e) const { auto it = eback.find(e); return it == eback.end() ? 900 : it->second; }
    std::string getStateName(const StateID_t s) const override {
        auto it = back.find(s);
        return it == back.end() ? "S0" : "S" + std::to_string(it->second);
    }
    std::string getEventName(const EventID_t e) const override {
        auto it = eback.find(e);
        return it == eback.end() ? "E?" : "E" + std::to_string(it->second);
    }
    std::vector<int> active() {
        std::vector<int> r;
        for (auto s : getActiveStates()) r.push_back(bs(s));
        for (int i = 1; i <= d.n; ++i) {
            bool in = false;
            for (int x : r) in = in || x == i;
            if (in != isStateActive(sid(i))) r.push_back(-i);
        }
        const int last = getLastActiveState();
        if (r.empty() ? last != INVALID_HSM_STATE_ID : (r.back() > 0 && bs(last) != r.back())) r.push_back(-100);
        return r;
    }
    bool cond(int c, const VariantVector_t& a) {
        if (d.ca[c - 1]) return !a.empty() && (ia(a)[0] % 2 == 1);
        return d.cond[c - 1] != 0;
    }
    static std::vector<int> ia(const VariantVector_t& a) { return args(a); }
    void cb(const std::string& k, int s, const std::vector<int>& a) {
        observe(no, k, s, a);
        react(k, s);
        callbackDone(no);
    }
    void react(const std::string& k, int s) {
        for (size_t i = 0; i < d.react.size(); ++i) {
            if (d.react[i].k == k && d.react[i].s == s && rc[i] > 0) {
                rc[i]--;
                for (const Op& o : d.react[i].ops) doOp(o);
            }
        }
    }
    HsmTransitionConditionCallback_t mkCond(int c) {
        if (c == 0) return nullptr;
        return [this, c](const VariantVector_t& a) { return cond(c, a); };
    }
    HsmTransitionCallback_t mkTr(int on, const std::string& k, int i) {
        if (!on) return nullptr;
        return [this, k, i](const VariantVector_t& a) { cb(k, i, ia(a)); };
    }
    HsmStateEnterCallback_t mkEn(int on, int s) {
        if (!on) return nullptr;
        return [this, s](const VariantVector_t& a) {
            cb("en", s, ia(a));
            return d.be[s - 1] == 0;
        };
    }
    HsmStateExitCallback_t mkEx(int on, int s) {
        if (!on) return nullptr;
        return [this, s]() {
            cb("ex", s, {});
            return d.bx[s - 1] == 0;
        };
    }
    HsmStateChangedCallback_t mkSt(int on, int s) {
        if (!on) return nullptr;
        return [this, s](const VariantVector_t& a) { cb("st", s, ia(a)); };
    }
    static Variant mkVar(const std::string& kind, int v) {
        if (kind == "b") return Variant(v != 0);
        if (kind == "u") return Variant(static_cast<uint32_t>(v));
        if (kind == "l") return Variant(static_cast<int64_t>(v));
        if (kind == "s") return Variant("x" + std::to_string(v));
        if (kind == "d") return Variant(static_cast<double>(v));
        return Variant(v);
    }
    int exec(const Cmd& c) {
        const std::vector<int>& v = c.v;
        if (c.c == "state") {
            registerState(sid(v[0]), mkSt(v[3], v[0]), mkEn(v[1], v[0]), mkEx(v[2], v[0]));
        } else if (c.c == "final") {
            registerFinalState(sid(v[0]), eid(v[1]), mkSt(v[4], v[0]), mkEn(v[2], v[0]), mkEx(v[3], v[0]));
        } else if (c.c == "sub") {
            return registerSubstate(sid(v[0]), sid(v[1])) ? 1 : 0;
        } else if (c.c == "entry") {
            return registerSubstateEntryPoint(sid(v[0]), sid(v[1]), eid(v[2]), mkCond(v[3]), v[4] != 0) ? 1 : 0;
        } else if (c.c == "hist") {
            registerHistory(sid(v[0]), sid(v[1]), v[2] == 1 ? HistoryType::SHALLOW : HistoryType::DEEP, sid(v[3]),
                            mkTr(v[4], "hd", v[1]));
        } else if (c.c == "trans") {
            registerTransition(sid(v[0]), sid(v[2]), eid(v[1]), mkTr(v[5], "tr", v[6]), mkCond(v[3]), v[4] != 0);
        } else if (c.c == "self") {
            registerSelfTransition(sid(v[0]), eid(v[1]),
                                   v[2] ? TransitionType::INTERNAL_TRANSITION : TransitionType::EXTERNAL_TRANSITION,
                                   mkTr(v[5], "tr", v[6]), mkCond(v[3]), v[4] != 0);
        } else if (c.c == "act") {
            // str: <kinds of the arguments, one letter each, or ->; v: state, trigger, action, args...
            const StateActionTrigger tr = v[1] ? StateActionTrigger::ON_STATE_EXIT : StateActionTrigger::ON_STATE_ENTRY;
            const StateAction a = v[2] == 0   ? StateAction::START_TIMER
                                  : v[2] == 1 ? StateAction::STOP_TIMER
                                  : v[2] == 2 ? StateAction::RESTART_TIMER
                                              : StateAction::TRANSITION;
            std::vector<Variant> p;
            for (size_t i = 3; i < v.size(); ++i) {
                const std::string kind(1, c.str[i - 3]);
                p.push_back(kind == "e" ? Variant(eid(v[i])) : mkVar(kind, v[i]));
            }
            switch (p.size()) {
                case 0: return registerStateAction(sid(v[0]), tr, a) ? 1 : 0;
                case 1: return registerStateAction(sid(v[0]), tr, a, p[0]) ? 1 : 0;
                case 2: return registerStateAction(sid(v[0]), tr, a, p[0], p[1]) ? 1 : 0;
                case 3: return registerStateAction(sid(v[0]), tr, a, p[0], p[1], p[2]) ? 1 : 0;
                default: return registerStateAction(sid(v[0]), tr, a, p[0], p[1], p[2], p[3]) ? 1 : 0;
            }
        } else if (c.c == "timer") {
            registerTimer(v[0], eid(v[1]));
        } else {
            fprintf(stderr, "unknown command %s\n", c.c.c_str());
            _exit(98);
        }
        return 1;
    }
};

