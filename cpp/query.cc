#include "driver.hh"
#include "geomodelgrids/serial/Query.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
using geomodelgrids::serial::Query;
typedef std::unique_ptr<Query> P;
static std::map<std::string, P> objs;
static drv::RegReset rr([] { objs.clear(); });
static Query& get(drv::Args& a) { return *drv::need(objs, a.raw()); }
static const double SENTINEL = 12345.678;

CMD(Q_new) { objs[a.raw()] = P(new Query()); out.raw("ok"); }
CMD(Q_del) { objs.erase(a.raw()); out.raw("ok"); }
CMD(Q_init) {
    Query& q = get(a);
    std::string crs = a.str();
    std::vector<std::string> files = a.strs(), names = a.strs();
    q.initialize(files, names, crs);
    out.raw("ok");
}
CMD(Q_squash) { Query& q = get(a); q.setSquashing(Query::SquashingEnum(a.num())); out.raw("ok"); }
CMD(Q_minelev) { Query& q = get(a); q.setSquashMinElev(a.dbl()); out.raw("ok"); }
CMD(Q_names) { Query& q = get(a); for (const auto& n : q.getValueNames()) { out.str(n); } }
CMD(Q_fin) { Query& q = get(a); q.finalize(); out.raw("ok"); }
CMD(Q_err) {
    Query& q = get(a);
    auto& e = q.getErrorHandler();
    out.num(e->getStatus()); out.str(e->getMessage());
}
CMD(Q_errreset) { Query& q = get(a); q.getErrorHandler()->resetStatus(); out.raw("ok"); }
CMD(Q_log) { Query& q = get(a); q.getErrorHandler()->setLogFilename(a.str().c_str()); out.raw("ok"); }
// Per point: value, or EXC type what.
CMD(Q_top) {
    Query& q = get(a);
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl();
        drv::guarded(out, [&] { out.dbl(q.queryTopElevation(x, y)); });
    }
}
CMD(Q_topo) {
    Query& q = get(a);
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl();
        drv::guarded(out, [&] { out.dbl(q.queryTopoBathyElevation(x, y)); });
    }
}
// nv n (x y z)* -> per point: status, nv values (SENTINEL where unwritten).
CMD(Q_query) {
    Query& q = get(a);
    long nv = a.num(), n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl(), z = a.dbl();
        std::unique_ptr<double[]> v(new double[nv]);
        for (long j = 0; j < nv; ++j) { v[j] = SENTINEL; }
        drv::guarded(out, [&] {
            int st = q.query(v.get(), x, y, z);
            out.num(st);
            for (long j = 0; j < nv; ++j) { out.dbl(v[j]); }
        });
    }
}
