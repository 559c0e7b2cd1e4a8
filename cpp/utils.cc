#include "driver.hh"
#include "geomodelgrids/utils/CRSTransformer.hh"
#include "geomodelgrids/utils/ErrorHandler.hh"
#include "geomodelgrids/utils/Indexing.hh"
extern "C" {
#include "geomodelgrids/utils/cerrorhandler.h"
}
using namespace geomodelgrids::utils;
static std::map<std::string, std::unique_ptr<CRSTransformer> > crs;
static std::map<std::string, std::unique_ptr<ErrorHandler> > ehs;
static std::map<std::string, std::unique_ptr<Indexing> > idx;
static drv::RegReset rr([] { crs.clear(); ehs.clear(); idx.clear(); });

// T_new id src dest ; T_geoxy id crs ; T_fwd/T_inv id n (x y z)*
CMD(T_new) {
    std::string id = a.raw(), s = a.str(), d = a.str();
    std::unique_ptr<CRSTransformer> t(new CRSTransformer());
    t->setSrc(s.c_str()); t->setDest(d.c_str());
    t->initialize();
    crs[id] = std::move(t);
    out.raw("ok");
}
CMD(T_reinit) {
    CRSTransformer& t = *drv::need(crs, a.raw());
    std::string s = a.str(), d = a.str();
    t.setSrc(s.c_str()); t.setDest(d.c_str());
    t.initialize();
    out.raw("ok");
}
CMD(T_geoxy) {
    std::string id = a.raw(), s = a.str();
    std::unique_ptr<CRSTransformer> t(CRSTransformer::createGeoToXYAxisOrder(s.c_str()));
    crs[id] = std::move(t);
    out.raw("ok");
}
static void transform(drv::Args& a, drv::Out& out, bool inv) {
    CRSTransformer& t = *drv::need(crs, a.raw());
    std::string mode = a.raw(); // 3: with z; 2: z pointer null
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl(), z = a.dbl();
        double ox = 12345.678, oy = 12345.678, oz = 12345.678;
        drv::guarded(out, [&] {
            double* pz = mode == "3" ? &oz : nullptr;
            if (inv) { t.inverse_transform(&ox, &oy, pz, x, y, z); } else { t.transform(&ox, &oy, pz, x, y, z); }
            out.dbl(ox); out.dbl(oy); out.dbl(oz);
        });
    }
}
CMD(T_fwd) { transform(a, out, false); }
CMD(T_inv) { transform(a, out, true); }
// T_units crs mask: which of x y z are requested
CMD(T_units) {
    std::string s = a.str(), mask = a.raw();
    std::string x = "?", y = "?", z = "?";
    CRSTransformer::getCRSUnits(mask[0] == '1' ? &x : nullptr, mask[1] == '1' ? &y : nullptr, mask[2] == '1' ? &z : nullptr, s.c_str());
    out.str(x); out.str(y); out.str(z);
}

CMD(X_uniform) { std::string id = a.raw(); idx[id] = std::unique_ptr<Indexing>(new IndexingUniform(a.dbl())); out.raw("ok"); }
CMD(X_variable) {
    std::string id = a.raw();
    int order = int(a.num());
    size_t n = a.num();
    std::vector<double> v;
    for (size_t i = 0; i < n; ++i) { v.push_back(a.dbl()); }
    std::unique_ptr<double[]> exact(new double[n]);
    std::copy(v.begin(), v.end(), exact.get());
    idx[id] = std::unique_ptr<Indexing>(new IndexingVariable(exact.get(), n, IndexingVariable::SortOrder(order)));
    out.raw("ok");
}
CMD(X_index) {
    Indexing& x = *drv::need(idx, a.raw());
    long n = a.num();
    for (long i = 0; i < n; ++i) { double v = a.dbl(); drv::guarded(out, [&] { out.dbl(x.getIndex(v)); }); }
}

// Error handler; api is "cxx" or "c" (C functions on the same object).
CMD(E_new) { ehs[a.raw()] = std::unique_ptr<ErrorHandler>(new ErrorHandler()); out.raw("ok"); }
CMD(E_del) { ehs.erase(a.raw()); out.raw("ok"); }
CMD(E_op) {
    ErrorHandler& e = *drv::need(ehs, a.raw());
    std::string api = a.raw(), op = a.raw();
    const bool c = api == "c";
    if (op == "file") { std::string f = a.str(); if (c) { geomodelgrids_cerrorhandler_setLogFilename(&e, f.c_str()); } else { e.setLogFilename(f.c_str()); } out.raw("ok"); }
    else if (op == "getfile") { out.str(c ? geomodelgrids_cerrorhandler_getLogFilename(&e) : e.getLogFilename()); }
    else if (op == "on") { long v = a.num(); if (c) { geomodelgrids_cerrorhandler_setLoggingOn(&e, int(v)); } else { e.setLoggingOn(v != 0); } out.raw("ok"); }
    else if (op == "reset") { if (c) { geomodelgrids_cerrorhandler_resetStatus(&e); } else { e.resetStatus(); } out.raw("ok"); }
    else if (op == "get") {
        if (c) { out.num(geomodelgrids_cerrorhandler_getStatus(&e)); out.str(geomodelgrids_cerrorhandler_getMessage(&e)); }
        else { out.num(e.getStatus()); out.str(e.getMessage()); }
    }
    else if (op == "error") { e.setError(a.str().c_str()); out.raw("ok"); }
    else if (op == "warning") { e.setWarning(a.str().c_str()); out.raw("ok"); }
    else if (op == "log") { e.logMessage(a.str().c_str()); out.raw("ok"); }
    else { _exit(97); }
}
