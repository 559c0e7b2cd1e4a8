#include "driver.hh"
#include "geomodelgrids/utils/GeoTiff.hh"
#include "gdal/gdal_priv.h"
using geomodelgrids::utils::GeoTiff;
static std::map<std::string, std::unique_ptr<GeoTiff> > objs;
static drv::RegReset rr([] { objs.clear(); });
static GeoTiff& get(drv::Args& a) { return *drv::need(objs, a.raw()); }

CMD(G_new) { objs[a.raw()] = std::unique_ptr<GeoTiff>(new GeoTiff()); out.raw("ok"); }
CMD(G_del) { objs.erase(a.raw()); out.raw("ok"); }
// G_set id rows cols bands crs minx maxx miny maxy nodata nlabels labels...
CMD(G_set) {
    GeoTiff& g = get(a);
    size_t r = a.num(), c = a.num(), b = a.num();
    std::string crs = a.str();
    double x0 = a.dbl(), x1 = a.dbl(), y0 = a.dbl(), y1 = a.dbl();
    float nodata = float(a.dbl());
    std::vector<std::string> labels = a.strs();
    g.setNumRows(r); g.setNumCols(c); g.setNumBands(b);
    g.setBandLabels(labels);
    g.setCRS(crs.c_str());
    g.setBBox(x0, x1, y0, y1);
    g.setNoDataValue(nodata);
    out.raw("ok");
}
CMD(G_create) { GeoTiff& g = get(a); std::string f = a.str(); g.create(f.c_str()); out.raw("ok"); }
// G_fill id values... for all pixels
CMD(G_fill) {
    GeoTiff& g = get(a);
    float* buf = g.getBands();
    const size_t n = g.getNumRows() * g.getNumCols() * g.getNumBands();
    for (size_t i = 0; i < n; ++i) { buf[i] = float(a.dbl()); }
    out.raw("ok");
}
CMD(G_flush) { GeoTiff& g = get(a); g.write(); out.raw("ok"); }
// G_raw file: what GDAL itself reads
CMD(G_raw) {
    std::string f = a.str();
    GDALAllRegister();
    GDALDataset* d = (GDALDataset*) GDALOpen(f.c_str(), GA_ReadOnly);
    if (!d) { out.raw("unreadable"); return; }
    const int nx = d->GetRasterXSize(), ny = d->GetRasterYSize(), nb = d->GetRasterCount();
    out.num(ny); out.num(nx); out.num(nb);
    out.str(d->GetProjectionRef() ? d->GetProjectionRef() : "");
    double t[6] = {0, 0, 0, 0, 0, 0};
    out.num(d->GetGeoTransform(t));
    for (int i = 0; i < 6; ++i) { out.dbl(t[i]); }
    for (int b = 1; b <= nb; ++b) {
        GDALRasterBand* band = d->GetRasterBand(b);
        out.str(band->GetDescription());
        int has = 0;
        const double v = band->GetNoDataValue(&has);
        out.num(has); out.dbl(v);
        std::vector<float> row(nx);
        for (int y = 0; y < ny; ++y) {
            if (CE_None != band->RasterIO(GF_Read, 0, y, nx, 1, row.data(), nx, 1, GDT_Float32, 0, 0)) { out.raw("error"); }
            for (int x = 0; x < nx; ++x) { out.dbl(row[x]); }
        }
    }
    GDALClose(d);
}
CMD(G_read) { GeoTiff& g = get(a); std::string f = a.str(); g.read(f.c_str()); out.raw("ok"); }
CMD(G_close) { GeoTiff& g = get(a); g.close(); out.raw("ok"); }
CMD(G_get) {
    GeoTiff& g = get(a);
    size_t r = g.getNumRows(), c = g.getNumCols(), b = g.getNumBands();
    out.num(r); out.num(c); out.num(b);
    out.str(g.getCRS());
    double x0, x1, y0, y1;
    g.getBBox(&x0, &x1, &y0, &y1);
    out.dbl(x0); out.dbl(x1); out.dbl(y0); out.dbl(y1);
    const auto& l = g.getBandLabels();
    out.num(l.size());
    for (const auto& s : l) { out.str(s); }
    float* buf = g.getBands();
    if (!buf) { out.raw("-"); return; }
    for (size_t i = 0; i < r*c*b; ++i) { out.dbl(buf[i]); }
}
// G_ext file rows cols bands crs minx maxx miny maxy type (GDAL name) noptions options... nlabels labels... values...: a raster of another program
CMD(G_ext) {
    std::string f = a.str();
    size_t r = a.num(), c = a.num(), b = a.num();
    std::string crs = a.str();
    double x0 = a.dbl(), x1 = a.dbl(), y0 = a.dbl(), y1 = a.dbl();
    std::string type = a.str();
    std::vector<std::string> options = a.strs(), labels = a.strs();
    std::vector<double> v(r*c*b);
    for (double& x : v) { x = a.dbl(); }
    GDALAllRegister();
    char** opts = nullptr;
    for (const auto& o : options) { opts = CSLAddString(opts, o.c_str()); }
    GDALDataset* d = GetGDALDriverManager()->GetDriverByName("GTiff")->Create(f.c_str(), c, r, b, GDALGetDataTypeByName(type.c_str()), opts);
    CSLDestroy(opts);
    if (!d) { out.raw("failed"); return; }
    double t[6] = { x0, (x1 - x0) / c, 0.0, y1, 0.0, -(y1 - y0) / r };
    bool fine = CE_None == d->SetGeoTransform(t);
    if (!crs.empty()) {
        OGRSpatialReference s;
        fine = fine && (OGRERR_NONE == s.SetFromUserInput(crs.c_str())) && (CE_None == d->SetSpatialRef(&s));
    }
    for (size_t i = 0; i < labels.size() && i < b; ++i) {
        if (!labels[i].empty()) { d->GetRasterBand(i+1)->SetDescription(labels[i].c_str()); }
    }
    fine = fine && CE_None == d->RasterIO(GF_Write, 0, 0, c, r, v.data(), c, r, GDT_Float64, b, nullptr, 0, 0, 0, nullptr);
    GDALClose(d);
    out.raw(fine ? "ok" : "failed");
}
