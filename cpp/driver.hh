// Command driver: executes scripts of library calls and prints every result.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <unistd.h>

namespace drv {

struct Args {
    std::vector<std::string> tok;
    size_t pos;
    Args() : pos(1) {}
    bool more() const { return pos < tok.size(); }
    std::string raw() {
        if (pos >= tok.size()) {
            fprintf(stderr, "DRIVER: missing argument for %s\n", tok[0].c_str());
            _exit(97);
        }
        return tok[pos++];
    }
    std::string str() {
        std::string r = raw(), o;
        for (size_t i = 0; i < r.size(); ++i) {
            if ((r[i] == '%') && (i+2 < r.size())) {
                o += char(strtol(r.substr(i+1, 2).c_str(), nullptr, 16));
                i += 2;
            } else { o += r[i]; }
        }
        return o;
    }
    double dbl() { return strtod(raw().c_str(), nullptr); }
    long num() { return strtol(raw().c_str(), nullptr, 10); }
    std::vector<std::string> strs() {
        std::vector<std::string> v;
        long n = num();
        for (long i = 0; i < n; ++i) { v.push_back(str()); }
        return v;
    }
};

struct Out {
    std::string s;
    void sep() { if (!s.empty()) { s += '\t'; } }
    void raw(const std::string& v) { sep(); s += v; }
    void str(const std::string& v) {
        sep();
        s += '"';
        for (unsigned char c : v) {
            if ((c <= 32) || (c >= 127) || (c == '%') || (c == '"')) {
                char b[8]; snprintf(b, sizeof(b), "%%%02x", c); s += b;
            } else { s += char(c); }
        }
        s += '"';
    }
    void dbl(double v) {
        char b[64];
        if (std::isnan(v)) { snprintf(b, sizeof(b), "nan"); }
        else if (std::isinf(v)) { snprintf(b, sizeof(b), v > 0 ? "inf" : "-inf"); }
        else { snprintf(b, sizeof(b), "%a", v); }
        raw(b);
    }
    void num(long v) { raw(std::to_string(v)); }
    void exc(const std::string& type, const std::string& what) { raw("EXC"); str(type); str(what); }
};

typedef std::function<void(Args&, Out&)> Command;
std::map<std::string, Command>& commands();
std::vector<std::function<void()> >& resets();

struct Reg {
    Reg(const char* name, Command c) { commands()[name] = c; }
};
struct RegReset {
    RegReset(std::function<void()> f) { resets().push_back(f); }
};

// Run f, reporting a C++ exception in the output.
template<typename F> void guarded(Out& out, F f) {
    try { f(); }
    catch (const std::invalid_argument& e) { out.exc("invalid_argument", e.what()); }
    catch (const std::out_of_range& e) { out.exc("out_of_range", e.what()); }
    catch (const std::length_error& e) { out.exc("length_error", e.what()); }
    catch (const std::domain_error& e) { out.exc("domain_error", e.what()); }
    catch (const std::logic_error& e) { out.exc("logic_error", e.what()); }
    catch (const std::runtime_error& e) { out.exc("runtime_error", e.what()); }
    catch (const std::bad_alloc& e) { out.exc("bad_alloc", e.what()); }
    catch (const std::exception& e) { out.exc("exception", e.what()); }
    catch (...) { out.exc("unknown", ""); }
}

template<typename T> T& need(std::map<std::string, T>& m, const std::string& id) {
    auto it = m.find(id);
    if (it == m.end()) { fprintf(stderr, "DRIVER: no object %s\n", id.c_str()); _exit(97); }
    return it->second;
}

} // drv
#define DRV_CAT2(a,b) a##b
#define DRV_CAT(a,b) DRV_CAT2(a,b)
#define CMD(name) static void DRV_CAT(cmd_,name)(drv::Args& a, drv::Out& out); \
    static drv::Reg DRV_CAT(reg_,name)(#name, DRV_CAT(cmd_,name)); \
    static void DRV_CAT(cmd_,name)(drv::Args& a, drv::Out& out)
