// Descriptions of machines and scripts as produced by tools/hsmgen.py.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>

#include "hsmcpp/hsm.hpp"

using namespace hsmcpp;

struct Op {
    std::string op;
    int m = 0;  // machine
    int e = 0;
    int tag = 0;
    std::vector<int> args;
    std::vector<int> cond, bx, be;
};
struct Reaction {
    std::string k;
    int s, n;
    std::vector<Op> ops;
};
struct Cmd {
    std::string c;
    int m;
    std::vector<int> v;
    std::string str;
};
struct MachineDef {
    int n = 0, ne = 0, init = 0, fcb = 0, cap = 0;
    std::vector<int> ids, evs, ca;
    std::vector<Reaction> react;
    std::vector<int> cond, bx, be;
};
struct Run {
    int id = 0, disp = 0;
    std::string logPath;
    std::vector<MachineDef> ms;
    std::vector<Cmd> cmds;
    std::vector<Op> ops;
};

static bool rd(std::istream& in, std::string& s) { return static_cast<bool>(in >> s); }
static int ri(std::istream& in) {
    int v = 0;
    if (!(in >> v)) {
        fprintf(stderr, "bad input\n");
        _exit(99);
    }
    return v;
}
static std::vector<int> rv(std::istream& in) {
    std::vector<int> v(ri(in));
    for (int& x : v) x = ri(in);
    return v;
}
static Op readOp(std::istream& in) {
    Op o;
    rd(in, o.op);
    o.m = ri(in);
    if (o.op == "env") {
        o.cond = rv(in);
        o.bx = rv(in);
        o.be = rv(in);
    } else {
        o.e = ri(in);
        o.tag = ri(in);
        o.args = rv(in);
    }
    return o;
}
static bool readRun(std::istream& in, Run& r) {
    std::string t;
    if (!rd(in, t)) return false;
    r = Run();
    r.id = ri(in);
    r.disp = ri(in);
    rd(in, r.logPath);
    const int nm = ri(in);
    for (int k = 0; k < nm; ++k) {
        MachineDef d;
        d.n = ri(in);
        d.ne = ri(in);
        d.init = ri(in);
        d.fcb = ri(in);
        d.cap = ri(in);
        d.ids = rv(in);
        d.evs = rv(in);
        d.ca = rv(in);
        d.cond = rv(in);
        d.bx = rv(in);
        d.be = rv(in);
        const int nr = ri(in);
        for (int i = 0; i < nr; ++i) {
            Reaction re;
            rd(in, re.k);
            re.s = ri(in);
            re.n = ri(in);
            const int no = ri(in);
            for (int j = 0; j < no; ++j) re.ops.push_back(readOp(in));
            d.react.push_back(re);
        }
        r.ms.push_back(d);
    }
    const int nc = ri(in);
    for (int i = 0; i < nc; ++i) {
        Cmd c;
        rd(in, c.c);
        c.m = ri(in);
        if (c.c == "act") rd(in, c.str);
        c.v = rv(in);
        r.cmds.push_back(c);
    }
    const int no = ri(in);
    for (int i = 0; i < no; ++i) r.ops.push_back(readOp(in));
    return true;
}

// provided by the harness: what was observed by machine m; what a callback does; end of a callback
static void observe(const int m, const std::string& k, const int s, const std::vector<int>& args, const std::vector<int>* act = nullptr);
static void doOp(const Op& o);
static void callbackDone(const int m);

// arguments which aren't numbers: 100, 102, ... (texts and byte arrays in turn)
static const std::vector<std::string> gTexts = {"", "a: b", "- x", "\"q\"", "back\\slash\\n", "line\nbreak", "# no comment", "[1, 2", "{a", "@at%", "'", "tab\there", "null", "12", "true",
                                                std::string("nul\0in", 6), "\x01\x7f", " lead and trail ", "*a &b !c |", "--- ...", "a,b", "-", "p(1, 2)"};
static const std::string* specialText(int x) {
    const int i = (x - 100) / 2;
    return (x >= 100 && x % 2 == 0 && i < static_cast<int>(gTexts.size())) ? &gTexts[i] : nullptr;
}
static std::vector<int> args(const VariantVector_t& a) {
    std::vector<int> r;
    for (auto& v : a) {
        int x = v.isNumeric() ? static_cast<int>(v.toInt64()) : -77776;
        if (v.isString() || v.isByteArray()) {
            for (size_t i = 0; i < gTexts.size(); ++i) {
                const int code = 100 + 2 * static_cast<int>(i);
                if (v.toString() == gTexts[i] && v.isString() == (code % 4 == 0)) x = code;
            }
        }
        r.push_back(x);
    }
    return r;
}
