#include "driver.hh"
#include "geomodelgrids/serial/Model.hh"
#include "geomodelgrids/serial/ModelInfo.hh"
#include "geomodelgrids/serial/Surface.hh"
#include "geomodelgrids/serial/Block.hh"
using geomodelgrids::serial::Model;
typedef std::unique_ptr<Model> P;
static std::map<std::string, P> objs;
static drv::RegReset rr([] { objs.clear(); });
static Model& get(drv::Args& a) { return *drv::need(objs, a.raw()); }

CMD(M_new) { objs[a.raw()] = P(new Model()); out.raw("ok"); }
CMD(M_del) { objs.erase(a.raw()); out.raw("ok"); }
CMD(M_incrs) { Model& m = get(a); m.setInputCRS(a.str()); out.raw("ok"); }
CMD(M_open) { Model& m = get(a); std::string f = a.str(); m.open(f.c_str(), Model::READ); out.raw("ok"); }
CMD(M_close) { Model& m = get(a); m.close(); out.raw("ok"); }
CMD(M_load) { Model& m = get(a); m.loadMetadata(); out.raw("ok"); }
CMD(M_init) { Model& m = get(a); m.initialize(); out.raw("ok"); }

static void strs(drv::Out& o, const std::vector<std::string>& v) { o.num(v.size()); for (const auto& s : v) { o.str(s); } }
static void coords(drv::Out& o, const double* c, size_t n) {
    if (!c) { o.raw("-"); return; }
    o.num(n);
    for (size_t i = 0; i < n; ++i) { o.dbl(c[i]); }
}
static void surface(drv::Out& o, const std::shared_ptr<geomodelgrids::serial::Surface>& s) {
    if (!s) { o.raw("-"); return; }
    o.raw("S");
    const size_t* d = s->getDims();
    o.num(d[0]); o.num(d[1]);
    o.dbl(s->getResolutionX()); o.dbl(s->getResolutionY());
    coords(o, s->getCoordinatesX(), d[0]); coords(o, s->getCoordinatesY(), d[1]);
}
CMD(M_meta) {
    Model& m = get(a);
    const auto& i = m.getInfo();
    if (!i) { out.raw("-"); } else {
        out.raw("I");
        out.str(i->getTitle()); out.str(i->getId()); out.str(i->getDescription()); strs(out, i->getKeywords());
        out.str(i->getHistory()); out.str(i->getComment()); out.str(i->getCreatorName());
        out.str(i->getCreatorInstitution()); out.str(i->getCreatorEmail()); out.str(i->getAcknowledgement());
        strs(out, i->getAuthors()); strs(out, i->getReferences()); out.str(i->getRepositoryName());
        out.str(i->getRepositoryURL()); out.str(i->getRepositoryDOI()); out.str(i->getVersion());
        out.str(i->getLicense()); out.str(i->getAuxiliary());
    }
    strs(out, m.getValueNames()); strs(out, m.getValueUnits());
    out.num(m.getDataLayout());
    for (int k = 0; k < 3; ++k) { out.dbl(m.getDims()[k]); }
    for (int k = 0; k < 2; ++k) { out.dbl(m.getOrigin()[k]); }
    out.dbl(m.getYAzimuth());
    out.str(m.getCRSString());
    surface(out, m.getTopSurface()); surface(out, m.getTopoBathy());
    const auto& blocks = m.getBlocks();
    out.num(blocks.size());
    for (const auto& b : blocks) {
        out.str(b->getName());
        const size_t* d = b->getDims();
        for (int k = 0; k < 3; ++k) { out.num(d[k]); }
        out.num(b->getNumValues());
        out.dbl(b->getResolutionX()); out.dbl(b->getResolutionY()); out.dbl(b->getResolutionZ());
        out.dbl(b->getZTop()); out.dbl(b->getZBottom());
        coords(out, b->getCoordinatesX(), d[0]); coords(out, b->getCoordinatesY(), d[1]); coords(out, b->getCoordinatesZ(), d[2]);
    }
}
CMD(M_contains) {
    Model& m = get(a);
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl(), z = a.dbl();
        drv::guarded(out, [&] { out.num(m.contains(x, y, z)); });
    }
}
CMD(M_top) {
    Model& m = get(a);
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl();
        drv::guarded(out, [&] { out.dbl(m.queryTopElevation(x, y)); });
    }
}
CMD(M_topo) {
    Model& m = get(a);
    long n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl();
        drv::guarded(out, [&] { out.dbl(m.queryTopoBathyElevation(x, y)); });
    }
}
// Points must be inside the model.
CMD(M_query) {
    Model& m = get(a);
    long nv = a.num(), n = a.num();
    for (long i = 0; i < n; ++i) {
        double x = a.dbl(), y = a.dbl(), z = a.dbl();
        drv::guarded(out, [&] {
            const double* v = m.query(x, y, z);
            if (!v) { out.raw("null"); return; }
            out.num(0);
            for (long j = 0; j < nv; ++j) { out.dbl(v[j]); }
        });
    }
}
// Read-window sizes: which (top|topo|block index) ndims dims...; call between M_load and M_init.
CMD(M_slab) {
    Model& m = get(a);
    std::string which = a.raw();
    std::vector<size_t> d;
    while (a.more()) { d.push_back(a.num()); }
    if (which == "top") { m.getTopSurface()->setHyperslabDims(d.data(), d.size()); }
    else if (which == "topo") { m.getTopoBathy()->setHyperslabDims(d.data(), d.size()); }
    else { m.getBlocks().at(atoi(which.c_str()))->setHyperslabDims(d.data(), d.size()); }
    out.raw("ok");
}
