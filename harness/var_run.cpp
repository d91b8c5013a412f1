// Executes scripts of operations on hsmcpp::Variant and reports results and what every variant holds.
// input:  RUN id slots ops / one line per operation / (repeated)         output: see check_var.py
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "hsmcpp/variant.hpp"

using namespace hsmcpp;
using Type = Variant::Type;

static int gLive = 0;

struct Custom {
    int magic;
    int p;
    std::string s;
    explicit Custom(const int m, const std::string& str, const int pay) : magic(m), p(pay), s(str) { gLive++; }
    Custom(const Custom& o) : magic(o.magic), p(o.p), s(o.s) { o.check(); gLive++; }
    Custom& operator=(const Custom&) = default;
    ~Custom() {
        check();
        magic = 0;
        gLive--;
    }
    void check() const {
        if (magic != 7001 && magic != 7002) abort();
    }
};
struct CustomA : Custom {
    CustomA(const std::string& str, const int pay) : Custom(7001, str, pay) {}
    bool operator==(const CustomA& o) const {
        if (magic != 7001 || o.magic != 7001) abort();      // somebody else's data
        return s == o.s;
    }
    bool operator>(const CustomA& o) const {
        if (magic != 7001 || o.magic != 7001) abort();
        return std::vector<unsigned char>(s.begin(), s.end()) > std::vector<unsigned char>(o.s.begin(), o.s.end());
    }
};
struct CustomB : Custom {
    std::vector<int> big;
    CustomB(const std::string& str, const int pay) : Custom(7002, str, pay), big(5, pay) {}
    bool operator==(const CustomB& o) const {
        if (magic != 7002 || o.magic != 7002) abort();
        return s == o.s;
    }
    bool operator>(const CustomB& o) const {
        if (magic != 7002 || o.magic != 7002) abort();
        return std::vector<unsigned char>(s.begin(), s.end()) > std::vector<unsigned char>(o.s.begin(), o.s.end());
    }
};

static std::string hexOf(const void* p, const size_t n) {
    std::string r = ".";
    char b[4];
    for (size_t k = 0; k < n; k++) {
        snprintf(b, sizeof b, "%02x", static_cast<const unsigned char*>(p)[k]);
        r += b;
    }
    return r;
}
static std::string unhex(const std::string& h) {
    std::string r;
    for (size_t k = 1; k + 1 < h.size(); k += 2) r.push_back(static_cast<char>(strtol(h.substr(k, 2).c_str(), nullptr, 16)));
    return r;
}
static std::string dbl(const double d) {
    char b[64];
    snprintf(b, sizeof b, "%a", d);
    return b;
}

// ------------------------------------------------------------------------------------------------------- literals
// Puts the value which follows into v; how: 0 by construction, 1 by assignment, 2 with make, 3 with another overload if there is one
template <typename T>
static void put(Variant& v, const T& x, const int how) {
    if (how == 1) v = x;
    else if (how == 2) v = Variant::make(x);
    else v = Variant(x);
}

static void literal(std::istream& in, Variant& v, const int how);
static Variant literal(std::istream& in) {
    Variant v;
    literal(in, v, 0);
    return v;
}

static void literal(std::istream& in, Variant& v, const int how) {
    std::string t, x;
    in >> t;
    if (t == "U") {
        v = Variant();
    } else if (t == "i1" || t == "i2" || t == "i4" || t == "i8" || t == "u1" || t == "u2" || t == "u4" || t == "u8" || t == "d") {
        in >> x;
        const long long s = strtoll(x.c_str(), nullptr, 10);
        const unsigned long long u = strtoull(x.c_str(), nullptr, 10);
        if (t == "i1") put<int8_t>(v, static_cast<int8_t>(s), how);
        if (t == "i2") put<int16_t>(v, static_cast<int16_t>(s), how);
        if (t == "i4") put<int32_t>(v, static_cast<int32_t>(s), how);
        if (t == "i8") put<int64_t>(v, static_cast<int64_t>(s), how);
        if (t == "u1") put<uint8_t>(v, static_cast<uint8_t>(u), how);
        if (t == "u2") put<uint16_t>(v, static_cast<uint16_t>(u), how);
        if (t == "u4") put<uint32_t>(v, static_cast<uint32_t>(u), how);
        if (t == "u8") put<uint64_t>(v, static_cast<uint64_t>(u), how);
        if (t == "d") put<double>(v, strtod(x.c_str(), nullptr), how);
    } else if (t == "B") {
        in >> x;
        put<bool>(v, x == "1", how);
    } else if (t == "s") {
        in >> x;
        const std::string s = unhex(x);
        const char* c = s.c_str();
        if (how == 3 && strlen(c) == s.size()) v = c;
        else if (how == 4 && strlen(c) == s.size()) v = Variant(c);
        else if (how == 5 && strlen(c) == s.size()) v = Variant::make(c);
        else put<std::string>(v, s, how % 3);
    } else if (t == "y") {
        in >> x;
        const std::string s = unhex(x);
        if (how == 3) v = Variant(s.data(), static_cast<size_t>(s.size()));
        else if (how == 4) v = Variant::make(s.data(), static_cast<size_t>(s.size()));
        else put<ByteArray_t>(v, ByteArray_t(s.begin(), s.end()), how % 3);
    } else if (t == "L" || t == "V" || t == "M") {
        size_t n = 0;
        in >> n;
        if (t == "M") {
            VariantMap_t m;
            for (size_t k = 0; k < n; k++) {
                Variant key = literal(in);
                Variant val = literal(in);
                (void)m.emplace(key, val);
            }
            std::map<int32_t, std::string> ints;
            std::map<std::string, bool> strs;
            for (const auto& x : m) {
                if (x.first.getType() == Type::BYTE_4 && x.second.isString()) ints[static_cast<int32_t>(x.first.toInt64())] = x.second.toString();
                if (x.first.isString() && x.second.isBool()) strs[x.first.toString()] = x.second.toBool();
            }
            if (how >= 3 && ints.size() == m.size()) v = (how == 3) ? Variant(ints) : Variant::make(ints);
            else if (how >= 3 && strs.size() == m.size()) v = (how == 3) ? Variant(strs) : Variant::make(strs);
            else put<VariantMap_t>(v, m, how % 3);
        } else {
            VariantVector_t e;
            bool ints = n > 0, strs = n > 0;
            for (size_t k = 0; k < n; k++) {
                e.push_back(literal(in));
                ints = ints && e.back().getType() == Type::BYTE_4;
                strs = strs && e.back().getType() == Type::STRING;
            }
            std::vector<int32_t> vi;
            std::vector<std::string> vs;
            for (const Variant& y : e) {
                if (ints) vi.push_back(static_cast<int32_t>(y.toInt64()));
                if (strs) vs.push_back(y.toString());
            }
            const std::list<int32_t> li(vi.begin(), vi.end());
            const std::list<std::string> ls(vs.begin(), vs.end());
            if (t == "V") {
                if (how >= 3 && ints) v = (how == 3) ? Variant(vi) : Variant::make(vi);
                else if (how >= 3 && strs) v = (how == 3) ? Variant(vs) : Variant::make(vs);
                else put<VariantVector_t>(v, e, how % 3);
            } else {
                if (how >= 3 && ints) v = (how == 3) ? Variant(li) : Variant::make(li);
                else if (how >= 3 && strs) v = (how == 3) ? Variant(ls) : Variant::make(ls);
                else put<VariantList_t>(v, VariantList_t(e.begin(), e.end()), how % 3);
            }
        }
    } else if (t == "P") {
        const Variant a = literal(in), b = literal(in);
        if (how >= 3 && a.getType() == Type::BYTE_4 && b.getType() == Type::STRING) {
            const int32_t x1 = static_cast<int32_t>(a.toInt64());
            const std::string x2 = b.toString();
            v = (how == 3) ? Variant(x1, x2) : Variant::make(x1, x2);
        } else {
            put<VariantPair_t>(v, VariantPair_t(a, b), how % 3);
        }
    } else if (t == "C") {
        std::string c;
        int p = 0;
        in >> c >> x >> p;
        if (c == "A") put<CustomA>(v, CustomA(unhex(x), p), how % 3);
        else if (how == 3) v = Variant::makeCustom(CustomB(unhex(x), p));
        else put<CustomB>(v, CustomB(unhex(x), p), how % 3);
    }
}

// ---------------------------------------------------------------------------------------------------------- output
static std::string dump(const Variant& v) {
    switch (v.getType()) {
        case Type::UNKNOWN: return "U";
        case Type::BYTE_1: return "i1 " + std::to_string(v.toInt64());
        case Type::BYTE_2: return "i2 " + std::to_string(v.toInt64());
        case Type::BYTE_4: return "i4 " + std::to_string(v.toInt64());
        case Type::BYTE_8: return "i8 " + std::to_string(v.toInt64());
        case Type::UBYTE_1: return "u1 " + std::to_string(v.toUInt64());
        case Type::UBYTE_2: return "u2 " + std::to_string(v.toUInt64());
        case Type::UBYTE_4: return "u4 " + std::to_string(v.toUInt64());
        case Type::UBYTE_8: return "u8 " + std::to_string(v.toUInt64());
        case Type::DOUBLE: return "d " + dbl(v.toDouble());
        case Type::BOOL: return v.toBool() ? "B 1" : "B 0";
        case Type::STRING: {
            const std::string s = v.toString();
            return "s " + hexOf(s.data(), s.size());
        }
        case Type::BYTEARRAY: {
            const auto b = v.getByteArray();
            return b ? "y " + hexOf(b->data(), b->size()) : "?";
        }
        case Type::LIST: {
            const auto l = v.getList();
            if (!l) return "?";
            std::string r = "L " + std::to_string(l->size());
            for (const Variant& x : *l) r += " " + dump(x);
            return r;
        }
        case Type::VECTOR: {
            const auto l = v.getVector();
            if (!l) return "?";
            std::string r = "V " + std::to_string(l->size());
            for (const Variant& x : *l) r += " " + dump(x);
            return r;
        }
        case Type::MAP: {
            const auto l = v.getMap();
            if (!l) return "?";
            std::string r = "M " + std::to_string(l->size());
            for (const auto& x : *l) r += " " + dump(x.first) + " " + dump(x.second);
            return r;
        }
        case Type::PAIR: {
            const auto p = v.getPair();
            return p ? "P " + dump(p->first) + " " + dump(p->second) : "?";
        }
        case Type::CUSTOM: {
            const auto c = v.getCustomType<Custom>();
            if (!c) return "?";
            c->check();
            return std::string("C ") + (c->magic == 7001 ? "A " : "B ") + hexOf(c->s.data(), c->s.size()) + " " + std::to_string(c->p);
        }
    }
    return "?";
}

static std::string conv(const Variant& v) {
    std::ostringstream o;
    o << static_cast<bool>(v) << v.isEmpty() << v.isNumeric() << v.isSignedNumeric() << v.isUnsignedNumeric() << v.isBool() << v.isString() << v.isByteArray() << v.isVector()
      << v.isList() << v.isMap() << v.isPair() << v.isCustomType() << " ";
    o << (v.getByteArray() != nullptr) << (v.getVector() != nullptr) << (v.getList() != nullptr) << (v.getMap() != nullptr) << (v.getPair() != nullptr)
      << (v.getCustomType<Custom>() != nullptr) << " ";
    std::vector<std::string> parts;
    const std::function<std::string(const Variant&)> f = [](const Variant& x) { return x.toString(); };
    for (const std::string& x : v.toVector<std::string>(f)) parts.push_back(x);
    for (const std::string& x : v.toList<std::string>(f)) parts.push_back(x);
    struct Key {
        Variant v;
        bool operator<(const Key& o) const { return v < o.v; }
    };
    const std::function<Key(const Variant&)> key = [](const Variant& x) { return Key{x}; };
    for (const auto& x : v.toMap<Key, std::string>(key, f)) {
        parts.push_back(x.first.v.toString());
        parts.push_back(x.second);
    }
    const auto pair = v.toPair<std::string, std::string>(f, f);
    if (v.isPair()) {
        parts.push_back(pair.first);
        parts.push_back(pair.second);
    } else if (!pair.first.empty() || !pair.second.empty()) {
        parts.push_back("?");
    }
    o << parts.size() << " ";
    for (const std::string& x : parts) o << hexOf(x.data(), x.size()) << " ";
    const bool frac = v.getType() == Type::DOUBLE;
    const double d = v.toDouble();
    // what isn't representable isn't asked for
    if (frac && !(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) o << "0 "; else o << v.toInt64() << " ";
    if (frac && !(d >= 0 && d < 18446744073709551616.0)) o << "0 "; else o << v.toUInt64() << " ";
    o << dbl(d) << " " << v.toBool() << " ";
    const std::string s = v.toString();
    const ByteArray_t b = v.toByteArray();
    o << hexOf(s.data(), s.size()) << " " << hexOf(b.data(), b.size());
    return o.str();
}

// ------------------------------------------------------------------------------------------------------ operations
using Slots = std::vector<std::unique_ptr<Variant>>;

static Variant* part(Variant& v, const int n) {
    if (v.isVector() && n <= static_cast<int>(v.getVector()->size())) return &(*v.getVector())[n - 1];
    if (v.isList() && n <= static_cast<int>(v.getList()->size())) {
        auto it = v.getList()->begin();
        std::advance(it, n - 1);
        return &*it;
    }
    if (v.isPair() && n <= 2) return (n == 1) ? &v.getPair()->first : &v.getPair()->second;
    return nullptr;
}

static std::string step(Slots& S, std::istream& in) {
    std::string op;
    int i = 0, j = 0, how = 0, n = 0;
    in >> op >> i;
    Variant& v = *S[i];
    if (op == "set") {
        in >> how;
        literal(in, v, how);
    } else if (op == "copy") {
        in >> j >> how;
        const Variant& w = *S[j];
        if (how == 0) v = w;
        else if (how == 1) S[i].reset(new Variant(w));
        else v = Variant::make(w);
    } else if (op == "move") {
        in >> j >> how;
        if (how == 0 || i == j) v = std::move(*S[j]);
        else S[i].reset(new Variant(std::move(*S[j])));
    } else if (op == "clear") {
        in >> how;
        if (how == 0) v.clear();
        else v = Variant();
    } else if (op == "nest") {
        std::string kind;
        in >> kind >> n;
        VariantVector_t e;
        for (int k = 0; k < n; k++) {
            in >> j;
            e.push_back(*S[j]);
        }
        if (kind == "LIST") v = VariantList_t(e.begin(), e.end());
        if (kind == "VECTOR") v = e;
        if (kind == "PAIR") v = Variant(VariantPair_t(e[0], e[1]));
        if (kind == "MAP") {
            VariantMap_t m;
            for (int k = 0; k + 1 < n; k += 2) (void)m.emplace(e[k], e[k + 1]);
            v = Variant(m);
        }
    } else if (op == "push") {
        int k = 0;
        in >> j >> k;
        const Variant x = *S[j], y = *S[k];
        if (v.isVector()) v.getVector()->push_back(x);
        else if (v.isList()) v.getList()->push_back(x);
        else if (v.isPair()) *v.getPair() = VariantPair_t(x, y);
        else if (v.isMap()) (void)v.getMap()->emplace(x, y);
        else if (v.isByteArray()) v.getByteArray()->push_back(7);
    } else if (op == "part") {
        in >> n >> how;
        Variant* p = part(v, n);
        if (v.isMap() && n <= 2 * static_cast<int>(v.getMap()->size())) {
            auto it = v.getMap()->begin();
            std::advance(it, (n - 1) / 2);
            if (n % 2 == 1) v = it->first;
            else if (how == 0) v = it->second;
            else v = std::move(it->second);
        } else if (p) {
            if (how == 0) v = *p;
            else v = std::move(*p);
        }
    } else if (op == "into") {
        in >> n >> j;
        if (v.isMap() && n <= static_cast<int>(v.getMap()->size())) {
            auto it = v.getMap()->begin();
            std::advance(it, n - 1);
            it->second = *S[j];
        } else if (Variant* p = part(v, n)) {
            *p = *S[j];
        }
    } else if (op == "self") {
        // its own content once more
        in >> how;
        if (how == 0) v = *&v;
        else if (v.isVector()) { VariantVector_t& x = *v.getVector(); v = x; }
        else if (v.isList()) { VariantList_t& x = *v.getList(); v = x; }
        else if (v.isMap()) { VariantMap_t& x = *v.getMap(); v = x; }
        else if (v.isPair()) { VariantPair_t& x = *v.getPair(); v = x; }
        else if (v.isByteArray()) { ByteArray_t& x = *v.getByteArray(); v = x; }
    } else if (op == "cmp") {
        in >> j;
        const Variant& w = *S[j];
        std::ostringstream o;
        o << (v == w) << (v != w) << (v < w) << (v > w) << (v <= w) << (v >= w);
        return o.str();
    } else if (op == "conv") {
        return conv(v);
    } else if (op == "find") {
        in >> j;
        int at = 0;
        if (v.isMap()) {
            const auto m = v.getMap();
            const auto it = m->find(*S[j]);
            if (it != m->end()) at = static_cast<int>(std::distance(m->begin(), it)) + 1;
        }
        return std::to_string(at);
    }
    return "-";
}

static void execute(const int k, const std::vector<std::string>& ops) {
    {
        Slots S;
        for (int n = 0; n <= k; n++) S.emplace_back(new Variant());
        int no = 0;
        for (const std::string& l : ops) {
            std::istringstream in(l);
            const std::string r = step(S, in);
            printf("T %d %s\n", ++no, r.c_str());
            for (int n = 1; n <= k; n++) printf("S %s\n", dump(*S[n]).c_str());
        }
    }
    printf("LIVE %d\n", gLive);
    fflush(stdout);
}

int main() {
    std::string l;
    while (std::getline(std::cin, l)) {
        std::istringstream in(l);
        std::string w;
        int id = 0, k = 0, n = 0;
        in >> w >> id >> k >> n;
        if (w != "RUN") continue;
        std::vector<std::string> ops(n);
        for (std::string& o : ops) (void)std::getline(std::cin, o);
        printf("RUN %d\n", id);
        fflush(stdout);
        const pid_t p = fork();
        if (p == 0) {
            (void)alarm(20);
            execute(k, ops);
            _exit(0);
        }
        int st = 0;
        (void)waitpid(p, &st, 0);
        printf("END %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 100 + WTERMSIG(st));
        fflush(stdout);
    }
    return 0;
}
