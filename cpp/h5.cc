#include "driver.hh"
#include "geomodelgrids/serial/HDF5.hh"
#include "geomodelgrids/serial/Hyperslab.hh"
using geomodelgrids::serial::HDF5;
using geomodelgrids::serial::Hyperslab;
static std::map<std::string, std::unique_ptr<HDF5> > objs;
static std::map<std::string, std::unique_ptr<Hyperslab> > slabs;
static drv::RegReset rr([] { slabs.clear(); objs.clear(); });
static HDF5& get(drv::Args& a) { return *drv::need(objs, a.raw()); }

CMD(H_new) { objs[a.raw()] = std::unique_ptr<HDF5>(new HDF5()); out.raw("ok"); }
CMD(H_del) { objs.erase(a.raw()); out.raw("ok"); }
CMD(H_open) { HDF5& h = get(a); std::string f = a.str(); h.open(f.c_str(), H5F_ACC_RDONLY); out.raw("ok"); }
CMD(H_close) { HDF5& h = get(a); h.close(); out.raw("ok"); }
CMD(H_isopen) { HDF5& h = get(a); out.num(h.isOpen()); }
CMD(H_setcache) { HDF5& h = get(a); size_t s = a.num(), n = a.num(); h.setCache(s, n, a.dbl()); out.raw("ok"); }
CMD(H_hasgroup) { HDF5& h = get(a); out.num(h.hasGroup(a.str().c_str())); }
CMD(H_hasdataset) { HDF5& h = get(a); out.num(h.hasDataset(a.str().c_str())); }
CMD(H_hasattr) { HDF5& h = get(a); std::string p = a.str(), n = a.str(); out.num(h.hasAttribute(p.c_str(), n.c_str())); }
CMD(H_dims) {
    HDF5& h = get(a);
    hsize_t* d = nullptr; int nd = 0;
    h.getDatasetDims(&d, &nd, a.str().c_str());
    out.num(nd);
    for (int i = 0; i < nd; ++i) { out.num(d[i]); }
    delete[] d;
}
CMD(H_list) {
    HDF5& h = get(a);
    std::vector<std::string> n;
    h.getGroupDatasets(&n, a.str().c_str());
    for (auto& s : n) { out.str(s); }
}
CMD(H_attr) {
    HDF5& h = get(a);
    std::string kind = a.raw(), p = a.str(), n = a.str();
    if (kind == "d") { double v = 0; h.readAttribute(p.c_str(), n.c_str(), H5T_NATIVE_DOUBLE, &v); out.dbl(v); }
    else if (kind == "i") { int v = 0; h.readAttribute(p.c_str(), n.c_str(), H5T_NATIVE_INT, &v); out.num(v); }
    else if (kind == "D") {
        double* v = nullptr; size_t s = 0;
        h.readAttribute(p.c_str(), n.c_str(), H5T_NATIVE_DOUBLE, (void**)&v, &s);
        out.num(s);
        for (size_t i = 0; i < s; ++i) { out.dbl(v[i]); }
        delete[] v;
    }
    else if (kind == "s") { out.str(h.readAttribute(p.c_str(), n.c_str())); }
    else { std::vector<std::string> v; h.readAttribute(p.c_str(), n.c_str(), &v); out.num(v.size()); for (auto& s : v) { out.str(s); } }
}
// path ndims origin... dims...; prints the values of the box as doubles.
CMD(H_read) {
    HDF5& h = get(a);
    std::string p = a.str();
    int nd = int(a.num());
    std::vector<hsize_t> o, d;
    size_t total = 1;
    for (int i = 0; i < nd; ++i) { o.push_back(a.num()); }
    for (int i = 0; i < nd; ++i) { d.push_back(a.num()); total *= d.back(); }
    std::unique_ptr<double[]> v(new double[total]);
    for (size_t i = 0; i < total; ++i) { v[i] = 12345.678; }
    h.readDatasetHyperslab(v.get(), p.c_str(), o.data(), d.data(), nd, H5T_NATIVE_DOUBLE);
    for (size_t i = 0; i < total; ++i) { out.dbl(v[i]); }
}
// S_new id h5id path ndims dims...
CMD(S_new) {
    std::string id = a.raw();
    HDF5& h = get(a);
    std::string p = a.str();
    size_t nd = a.num();
    std::vector<hsize_t> d;
    for (size_t i = 0; i < nd; ++i) { d.push_back(a.num()); }
    slabs[id] = std::unique_ptr<Hyperslab>(new Hyperslab(&h, p.c_str(), d.data(), nd));
    out.raw("ok");
}
CMD(S_del) { slabs.erase(a.raw()); out.raw("ok"); }
static void access(drv::Args& a, drv::Out& out, bool nearest) {
    Hyperslab& s = *drv::need(slabs, a.raw());
    long nv = a.num(), ni = a.num(), n = a.num();
    for (long i = 0; i < n; ++i) {
        std::vector<double> idx;
        for (long j = 0; j < ni; ++j) { idx.push_back(a.dbl()); }
        std::unique_ptr<double[]> v(new double[nv]);
        for (long j = 0; j < nv; ++j) { v[j] = 12345.678; }
        drv::guarded(out, [&] {
            if (nearest) { s.nearest(v.get(), idx.data()); } else { s.interpolate(v.get(), idx.data()); }
            out.num(0);
            for (long j = 0; j < nv; ++j) { out.dbl(v[j]); }
        });
    }
}
CMD(S_interp) { access(a, out, false); }
CMD(S_near) { access(a, out, true); }
