#include "driver.hh"
extern "C" {
#include "geomodelgrids/serial/cquery.h"
#include "geomodelgrids/utils/cerrorhandler.h"
}
static std::map<std::string, void*> objs;
static drv::RegReset rr([] {
    for (auto& o : objs) { geomodelgrids_squery_destroy(&o.second); }
    objs.clear();
});
static void* get(drv::Args& a) {
    std::string id = a.raw();
    if (id == "null") { return nullptr; }
    return drv::need(objs, id);
}
static const double SENTINEL = 12345.678;
static std::vector<const char*> cstrs(const std::vector<std::string>& v) {
    std::vector<const char*> r;
    for (const auto& s : v) { r.push_back(s.c_str()); }
    return r;
}

CMD(C_new) { objs[a.raw()] = geomodelgrids_squery_create(); out.raw("ok"); }
CMD(C_del) {
    std::string id = a.raw();
    void*& h = drv::need(objs, id);
    geomodelgrids_squery_destroy(&h);
    out.num(h == nullptr);
    objs.erase(id);
}
CMD(C_init) {
    void* h = get(a);
    std::string crs = a.str();
    std::vector<std::string> files = a.strs(), names = a.strs();
    auto f = cstrs(files), n = cstrs(names);
    out.num(geomodelgrids_squery_initialize(h, f.data(), int(f.size()), n.data(), int(n.size()), crs.c_str()));
}
CMD(C_squash) { void* h = get(a); out.num(geomodelgrids_squery_setSquashing(h, int(a.num()))); }
CMD(C_minelev) { void* h = get(a); out.num(geomodelgrids_squery_setSquashMinElev(h, a.dbl())); }
CMD(C_fin) { void* h = get(a); out.num(geomodelgrids_squery_finalize(h)); }
CMD(C_err) {
    void* h = get(a);
    void* e = geomodelgrids_squery_getErrorHandler(h);
    if (!e) { out.raw("null"); return; }
    out.num(geomodelgrids_cerrorhandler_getStatus(e)); out.str(geomodelgrids_cerrorhandler_getMessage(e));
}
CMD(C_log) {
    void* e = geomodelgrids_squery_getErrorHandler(get(a));
    std::string f = a.str();
    geomodelgrids_cerrorhandler_setLogFilename(e, f.c_str());
    out.raw("ok");
}
CMD(C_errreset) { void* e = geomodelgrids_squery_getErrorHandler(get(a)); geomodelgrids_cerrorhandler_resetStatus(e); out.raw("ok"); }
// As Q_top etc.; the error status is reset before each point when the first argument is 1.
static void elev(drv::Args& a, drv::Out& out, double (*f)(void*, const double, const double)) {
    void* h = get(a);
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl();
        drv::guarded(out, [&] { out.dbl(f(h, x, y)); });
    }
}
CMD(C_top) { elev(a, out, geomodelgrids_squery_queryTopElevation); }
CMD(C_topo) { elev(a, out, geomodelgrids_squery_queryTopoBathyElevation); }
CMD(C_query) {
    void* h = get(a);
    long nv = a.num(), n = a.num();
    void* e = h ? geomodelgrids_squery_getErrorHandler(h) : nullptr;
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl(), z = a.dbl();
        std::unique_ptr<double[]> v(new double[nv]);
        for (long j = 0; j < nv; ++j) { v[j] = SENTINEL; }
        drv::guarded(out, [&] {
            if (e) { geomodelgrids_cerrorhandler_resetStatus(e); }
            int st = geomodelgrids_squery_query(h, v.get(), x, y, z);
            out.num(st);
            for (long j = 0; j < nv; ++j) { out.dbl(v[j]); }
        });
    }
}
