// C10: horizontal interpolation delivers the value of the source field at the requested place
#include "fx.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"

#include <proj.h>

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
const double INF = std::numeric_limits<double>::infinity();

/// set of acceptable answers at one place
struct Want
{
    VD vals; // empty: undefined only
    bool undefOk = false;
    bool ok(double got, double tol) const
    {
        if (std::isnan(got))
            return undefOk || vals.empty();
        for (double v : vals)
            if (!std::isnan(v) && std::fabs(got - v) <= tol)
                return true;
        return false;
    }
    void add(double v)
    {
        if (std::isnan(v))
            undefOk = true;
        else
            vals.push_back(v);
    }
    string str() const { return fx::str(vals) + (undefOk || vals.empty() ? " or undefined" : ""); }
};

struct Grid
{
    int nx, ny;
    VD v; // nx*ny
    double at(int x, int y) const { return v[y * nx + x]; }
};

const double TIE = 1e-6;

/// candidates of the nearest index, -1: outside
vector<int> nearestIdx(double p, int n)
{
    vector<int> r;
    if (!std::isfinite(p))
        return {-1};
    for (double q : {p - TIE, p + TIE}) {
        const double f = std::floor(q + 0.5);
        r.push_back(f >= 0 && f < n ? int(f) : -1);
    }
    return r;
}

Want refNearest(const Grid& g, double x, double y)
{
    Want w;
    for (int ix : nearestIdx(x, g.nx))
        for (int iy : nearestIdx(y, g.ny)) {
            if (ix < 0 || iy < 0)
                w.undefOk = true;
            else
                w.add(g.at(ix, iy));
        }
    return w;
}

/// linear weights along one axis: alternatives of (i0, i1, f); empty: outside
struct Lin
{
    int i0, i1;
    double f;
};
vector<Lin> linAlt(double p, int n, bool& outside)
{
    vector<Lin> r;
    outside = false;
    if (!std::isfinite(p)) {
        outside = true;
        return r;
    }
    if (p >= -TIE && p <= n - 1 + TIE) {
        const double c = std::min(std::max(p, 0.), double(n - 1));
        const int k = int(std::floor(c));
        const double f = c - k;
        if (f < TIE)
            r.push_back({k, k, 0});
        else if (f > 1 - TIE)
            r.push_back({k + 1, k + 1, 0});
        if (k + 1 < n)
            r.push_back({k, k + 1, f});
        if (f < TIE && k > 0)
            r.push_back({k - 1, k, 1});
        if (f > 1 - TIE && k + 2 < n)
            r.push_back({k + 1, k + 2, 0});
    }
    if (p <= TIE || p >= n - 1 - TIE) // half a cell at the border
        for (int i : nearestIdx(p, n)) {
            if (i < 0)
                outside = true;
            else
                r.push_back({i, i, 0});
        }
    return r;
}

Want refBilinear(const Grid& g, double x, double y)
{
    Want w;
    bool ox, oy;
    const auto lx = linAlt(x, g.nx, ox), ly = linAlt(y, g.ny, oy);
    w.undefOk = ox || oy;
    for (const Lin& a : lx)
        for (const Lin& b : ly)
            w.add((1 - b.f) * ((1 - a.f) * g.at(a.i0, b.i0) + a.f * g.at(a.i1, b.i0)) + b.f * ((1 - a.f) * g.at(a.i0, b.i1) + a.f * g.at(a.i1, b.i1)));
    return w;
}

double cubic(const double p[4], double t)
{
    return 0.5 * (2 * p[1] + (-p[0] + p[2]) * t + (2 * p[0] - 5 * p[1] + 4 * p[2] - p[3]) * t * t + (-p[0] + 3 * p[1] - 3 * p[2] + p[3]) * t * t * t);
}

Want refBicubic(const Grid& g, double x, double y)
{
    Want w;
    if (!std::isfinite(x) || !std::isfinite(y))
        return w;
    bool inside = true;
    for (double dx : {-TIE, TIE})
        for (double dy : {-TIE, TIE}) {
            const double fx0 = std::floor(x + dx), fy0 = std::floor(y + dy);
            if (fx0 < 1 || fx0 + 2 >= g.nx || fy0 < 1 || fy0 + 2 >= g.ny) {
                inside = false;
                continue;
            }
            const int x0 = int(fx0), y0 = int(fy0);
            double col[4];
            for (int j = 0; j < 4; ++j) {
                double row[4];
                for (int i = 0; i < 4; ++i)
                    row[i] = g.at(x0 - 1 + i, y0 - 1 + j);
                col[j] = cubic(row, x - x0);
            }
            w.add(cubic(col, y - y0));
        }
    if (!inside) // within a cell of the border
        w.undefOk = true;
    return w;
}

Want ref(int method, const Grid& g, double x, double y)
{
    switch (method) {
    case MIFI_INTERPOL_BILINEAR: return refBilinear(g, x, y);
    case MIFI_INTERPOL_BICUBIC: return refBicubic(g, x, y);
    default: return refNearest(g, x, y);
    }
}
const vector<std::pair<int, string>> METHODS = {{MIFI_INTERPOL_NEAREST_NEIGHBOR, "nearest"}, {MIFI_INTERPOL_BILINEAR, "bilinear"}, {MIFI_INTERPOL_BICUBIC, "bicubic"}};

VD field(size_t n, int kind)
{
    VD v;
    for (size_t i = 0; i < n; ++i)
        v.push_back(kind == 0 ? 1 + double((i * 7) % 23) : (i * 5) % 7 == 3 ? NaN : 10 + double(i * i % 31));
    return v;
}

double tolOf(const VD& v)
{
    double m = 1;
    for (double x : v)
        if (!std::isnan(x))
            m = std::max(m, std::fabs(x));
    return 1e-5 * m;
}

// ----- C functions
void spaceFunctions(vf::Explorer& ex)
{
    ex.space("interpolation at a grid position: all field sizes, all positions on, between, at the border of and far outside of the grid");
    VD special = {NaN, INF, -INF, -999, -1000, 4294967296., -4294967296., 4294967297.25, 8589934593., 1e10, 1e19, 1e20, -1e19, 1e300, -1e300, 2147483648., -2147483649.};
    for (int nx = 1; nx <= 5; ++nx)
        for (int ny = 1; ny <= 5; ++ny)
            for (const auto& m : METHODS)
                for (int kind = 0; kind < 2; ++kind)
                    ex.run([=] { return m.second + " on a " + std::to_string(nx) + "x" + std::to_string(ny) + " field" + (kind ? " with undefined values" : ""); },
                           [&] {
                               const int nz = 2;
                               const VD all = field(nx * ny * nz, kind);
                               std::vector<float> in(all.begin(), all.end());
                               auto axisPos = [&](int n) {
                                   VD r = special;
                                   for (double p = -2; p <= n + 1; p += 0.25)
                                       r.push_back(p);
                                   for (int i = 0; i < n; ++i)
                                       for (double e : {-0.4, -0.1, 0.1, 0.4, 0.9})
                                           r.push_back(i + e);
                                   return r;
                               };
                               for (double x : axisPos(nx))
                                   for (double y : axisPos(ny)) {
                                       std::vector<float> out(nz + 1, -77777.f);
                                       ex.step();
                                       int rc;
                                       switch (m.first) {
                                       case MIFI_INTERPOL_BILINEAR: rc = mifi_get_values_bilinear_f(&in[0], &out[0], x, y, nx, ny, nz); break;
                                       case MIFI_INTERPOL_BICUBIC: rc = mifi_get_values_bicubic_f(&in[0], &out[0], x, y, nx, ny, nz); break;
                                       default: rc = mifi_get_values_f(&in[0], &out[0], x, y, nx, ny, nz);
                                       }
                                       VF_CHECK(rc == MIFI_OK, "return code " << rc);
                                       VF_CHECK(out[nz] == -77777.f, "wrote behind the end");
                                       for (int z = 0; z < nz; ++z) {
                                           const Grid g = {nx, ny, VD(all.begin() + z * nx * ny, all.begin() + (z + 1) * nx * ny)};
                                           const Want w = ref(m.first, g, x, y);
                                           VF_CHECK(w.ok(out[z], tolOf(g.v)), "position (" << x << "," << y << ") level " << z << ": " << out[z] << ", expected " << w.str());
                                       }
                                   }
                               ex.state(m.second + std::to_string(nx * 10 + ny) + char('0' + kind));
                           });
}

// ----- position on an axis
double refPosPlain(const VD& ax, double p)
{
    if (!std::isfinite(p))
        return NaN;
    const int n = ax.size();
    if (n == 1)
        return p == ax[0] ? 0 : NaN;
    const bool asc = ax[0] < ax[n - 1];
    int k = 0; // segment
    while (k < n - 2 && (asc ? p > ax[k + 1] : p < ax[k + 1]))
        ++k;
    return k + (p - ax[k]) / (ax[k + 1] - ax[k]);
}

bool isGlobal(const VD& ax)
{
    const int n = ax.size();
    if (n < 2)
        return false;
    return std::fabs(ax[n - 1] - ax[0]) + 1.005 * std::fabs(ax[1] - ax[0]) >= 360;
}

/// all acceptable positions of a longitude (any multiple of a full circle)
VD refPosLon(const VD& ax, double p)
{
    const int n = ax.size();
    VD r;
    if (!std::isfinite(p))
        return {NaN};
    for (int k = -3; k <= 3; ++k) {
        double q = refPosPlain(ax, p + 360 * k);
        if (q > -0.5 - TIE && q < n - 0.5 + TIE)
            r.push_back(q);
    }
    if (r.empty())
        r.push_back(NaN);
    return r;
}

void spacePositions(vf::Explorer& ex)
{
    ex.space("position of coordinates on an axis: ascending, descending, irregular, one-element, longitude axes of every notation");
    const vector<VD> axes = {{0, 10, 20, 30}, {30, 20, 10, 0}, {-3, 1, 2, 10}, {10, 2, 1, -3}, {0, 1}, {1, 0}, {5}, {0, 1e-3, 2e-3}, {1e6, 2e6, 4e6}, {-7, -5, -4}};
    VD pts = {NaN, INF, -INF};
    for (const VD& a : axes)
        ex.run([=] { return "axis " + str(a); },
               [&] {
                   VD p = pts;
                   const double d = a.size() > 1 ? a[1] - a[0] : 1, e = a.size() > 1 ? a[a.size() - 1] - a[a.size() - 2] : 1;
                   for (size_t i = 0; i < a.size(); ++i) {
                       p.push_back(a[i]);
                       if (i + 1 < a.size())
                           for (double f : {0.001, 0.25, 0.5, 0.75, 0.999})
                               p.push_back(a[i] + f * (a[i + 1] - a[i]));
                   }
                   for (double f : {0.001, 0.4, 0.6, 1., 3., 1000.}) {
                       p.push_back(a.front() - f * d);
                       p.push_back(a.back() + f * e);
                   }
                   for (int type : {MIFI_PROJ_AXIS, MIFI_LATITUDE}) {
                       VD got = p;
                       ex.step();
                       VF_CHECK(mifi_points2position(&got[0], got.size(), &a[0], a.size(), type) == MIFI_OK, "return code");
                       for (size_t i = 0; i < p.size(); ++i) {
                           const double w = refPosPlain(a, p[i]);
                           if (std::isnan(w))
                               VF_CHECK(got[i] < -0.5 || got[i] > a.size() - 0.5, "coordinate " << p[i] << " at position " << got[i]);
                           else
                               VF_CHECK(std::fabs(got[i] - w) <= 1e-9 * (1 + std::fabs(w)), "coordinate " << p[i] << " at position " << got[i] << " instead of " << w);
                       }
                   }
                   ex.state(str(a));
               });
    vector<VD> lonAxes = {{0, 10, 20, 30}, {30, 20, 10, 0}, {-10, 0, 10}, {0, 90, 180, 270}, {270, 180, 90, 0}, {-180, -90, 0, 90}, {-180, -90, 0, 90, 180}, {0, 90, 180, 270, 360}, {170, 180, 190, 200},
                          {350, 360, 370}, {-190, -180, -170}, {0, 5, 20, 30}, {-20, 70, 160, 250}, {-90, 0, 90, 180}, {45, 135, 225, 315}, {-200, -100}, {175, 185}, {185, 175}, {12}, {190}, {-120}, {359, 360}, {0, 120, 240}, {-10, 100, 200}, {200, 100, -10}};
    for (const VD& a : lonAxes)
        ex.run([=] { return "longitude axis " + str(a); },
               [&] {
                   VD p = {NaN, INF, -INF};
                   for (double q = -360; q <= 540; q += 2.5)
                       p.push_back(q);
                   for (double x : a)
                       for (int k = -1; k <= 1; ++k)
                           p.push_back(x + 360 * k);
                   VD got = p;
                   ex.step();
                   VF_CHECK(mifi_points2position(&got[0], got.size(), &a[0], a.size(), MIFI_LONGITUDE) == MIFI_OK, "return code");
                   const double n = a.size();
                   for (size_t i = 0; i < p.size(); ++i) {
                       const VD w = refPosLon(a, p[i]);
                       bool ok = false;
                       for (double q : w) {
                           if (std::isnan(q))
                               ok |= !(got[i] > -0.5 && got[i] < n - 0.5);
                           else {
                               ok |= std::fabs(got[i] - q) < 1e-9 * 1000;
                               if (std::fabs(q + 0.5) < TIE || std::fabs(q - n + 0.5) < TIE) // half a cell away from the border: may be outside
                                   ok |= !(got[i] > -0.5 && got[i] < n - 0.5);
                           }
                       }
                       VF_CHECK(ok, "longitude " << p[i] << " at position " << got[i] << ", expected " << str(w));
                   }
                   ex.state("lon" + str(a));
               });
}

// ----- whole reader
const string LL = "+proj=latlong +R=6371000 +no_defs";

struct Src
{
    TestReader_p r;
    VD x, y; // axes, in the unit of the projection
    string proj;
    bool degree;
    VD v4;
    size_t nz = 2, nt = 2;
};

/// dataset with a 4-d float, a packed 2-d, a 3-d double and a variable without horizontal dimensions
Src makeSource(const string& proj, bool degree, const VD& x, const VD& y, SliceMode mode, int kind, bool km = false, const string& xn = "x", const string& yn = "y")
{
    Src s;
    s.x = x;
    s.y = y;
    s.proj = proj;
    s.degree = degree;
    s.r = std::make_shared<TestReader>(mode);
    s.r->att("", "Conventions", "CF-1.6");
    VD ax = x, ay = y;
    if (km) {
        for (double& d : ax)
            d /= 1000;
        for (double& d : ay)
            d /= 1000;
    }
    const bool ll = proj.find("latlong") != string::npos;
    const string u = km ? "km" : "m";
    axis(*s.r, xn, ax, ll ? "degrees_east" : degree ? "degrees" : u, ll ? "longitude" : degree ? "grid_longitude" : "projection_x_coordinate");
    axis(*s.r, yn, ay, ll ? "degrees_north" : degree ? "degrees" : u, ll ? "latitude" : degree ? "grid_latitude" : "projection_y_coordinate");
    s.r->dim("z", s.nz);
    axis(*s.r, "time", {0, 1}, "hours since 2000-01-01 00:00:00", "time", CDM_DOUBLE, true);
    const size_t nxy = x.size() * y.size();
    s.v4 = field(nxy * s.nz * s.nt, kind);
    VD raw = s.v4;
    for (double& d : raw)
        if (std::isnan(d))
            d = -99;
    s.r->var("v4", CDM_FLOAT, {xn, yn, "z", "time"}, raw);
    s.r->att("v4", "_FillValue", CDM_FLOAT, {-99});
    s.r->att("v4", "units", "m");
    VD pk(raw.begin(), raw.begin() + nxy);
    s.r->var("pk", CDM_SHORT, {xn, yn}, pk);
    s.r->att("pk", "_FillValue", CDM_SHORT, {-99});
    s.r->att("pk", "scale_factor", CDM_DOUBLE, {0.5});
    s.r->att("pk", "add_offset", CDM_DOUBLE, {100});
    s.r->att("pk", "units", "K");
    s.r->var("v3", CDM_DOUBLE, {xn, yn, "time"}, VD(s.v4.begin(), s.v4.begin() + nxy * s.nt));
    s.r->att("v3", "units", "m");
    // the same, kept in memory
    s.r->varMem("mem", CDM_DOUBLE, {xn, yn, "time"}, mk(CDM_DOUBLE, VD(s.v4.begin(), s.v4.begin() + nxy * s.nt)));
    s.r->att("mem", "units", "m");
    s.r->varMem("memc", CDM_DOUBLE, {"z"}, mk(CDM_DOUBLE, {5, 6}));
    s.r->var("zt", CDM_INT, {"z", "time"}, {1, 2, 3, 4});
    if (!ll) {
        s.r->var("mapping", CDM_INT, {}, {0});
        for (const auto& att : Projection::createByProj4(proj)->getParameters())
            s.r->attData("mapping", att.getName(), att.getData());
        for (const char* n : {"v4", "pk", "v3", "mem"})
            s.r->att(n, "grid_mapping", "mapping");
    }
    return s;
}

/// coordinates in the projection of the source, by the projection library itself
void transform(const string& from, const string& to, VD& x, VD& y)
{
    PJ_CONTEXT* ctx = proj_context_create();
    PJ* p = proj_create_crs_to_crs(ctx, from.c_str(), to.c_str(), nullptr);
    VF_CHECK(p, "cannot create transformation " << from << " to " << to);
    for (size_t i = 0; i < x.size(); ++i) {
        PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(x[i], y[i], 0, 0));
        x[i] = c.xy.x;
        y[i] = c.xy.y;
        if (!std::isfinite(x[i]) || !std::isfinite(y[i]))
            x[i] = y[i] = NaN;
    }
    proj_destroy(p);
    proj_context_destroy(ctx);
}

vector<Want> wantLayer(const Src& s, int method, const VD& layer, const VD& px, const VD& py)
{
    const Grid g = {int(s.x.size()), int(s.y.size()), layer};
    vector<Want> r;
    const bool lon = s.degree;
    for (size_t i = 0; i < px.size(); ++i) {
        Want w;
        const VD qs = lon ? refPosLon(s.x, px[i]) : VD(1, refPosPlain(s.x, px[i]));
        const double qy = refPosPlain(s.y, py[i]);
        bool first = true;
        for (double qx : qs) {
            Want o = ref(method, g, qx, qy);
            if (first)
                w = o;
            else {
                if (o.vals.empty())
                    w.undefOk = true;
                if (w.vals.empty())
                    w.undefOk = true;
                w.undefOk |= o.undefOk;
                w.vals.insert(w.vals.end(), o.vals.begin(), o.vals.end());
            }
            first = false;
        }
        r.push_back(w);
    }
    return r;
}

void expectLayer(const vector<Want>& w, const VD& got, size_t off, double tol, const string& what, const VD& ox, const VD& oy)
{
    for (size_t i = 0; i < w.size(); ++i)
        VF_CHECK(w[i].ok(got.at(off + i), tol), what << " at output (" << ox[i % ox.size()] << "," << oy[(i / ox.size()) % oy.size()] << "): " << got[off + i] << ", expected " << w[i].str());
}

/// interpolate everything to the output axes and compare
void checkInterpolated(vf::Explorer& ex, const Src& s, CDMInterpolator& ip, int method, const VD& ox, const VD& oy, const VD& px, const VD& py, bool slices, const string& xn = "x", const string& yn = "y")
{
    const size_t nxy = s.x.size() * s.y.size(), nout = ox.size() * oy.size();
    const CDM& cdm = ip.getCDM();
    VF_CHECK(cdm.getDimension(xn).getLength() == ox.size() && cdm.getDimension(yn).getLength() == oy.size(), "dimension lengths");
    const double tol = 4 * tolOf(s.v4);
    auto layer = [&](size_t k) { return VD(s.v4.begin() + k * nxy, s.v4.begin() + (k + 1) * nxy); };
    ex.step(4);
    VD g4 = values(ip.getScaledData("v4"));
    VF_CHECK(g4.size() == nout * s.nz * s.nt, "size of v4: " << g4.size());
    for (size_t k = 0; k < s.nz * s.nt; ++k)
        expectLayer(wantLayer(s, method, layer(k), px, py), g4, k * nout, tol, "v4 layer " + std::to_string(k), ox, oy);
    VD g3 = values(ip.getScaledData("v3"));
    VF_CHECK(g3.size() == nout * s.nt, "size of v3: " << g3.size());
    for (size_t k = 0; k < s.nt; ++k)
        expectLayer(wantLayer(s, method, layer(k), px, py), g3, k * nout, tol, "v3 layer " + std::to_string(k), ox, oy);
    expectClose(ip.getScaledData("mem"), g3, "variable kept in memory");
    for (size_t t = 0; t < s.nt; ++t)
        expectClose(ip.getScaledDataSlice("mem", t), VD(g3.begin() + t * nout, g3.begin() + (t + 1) * nout), "time position of a variable kept in memory");
    expectValues(ip.getData("memc"), {5, 6}, "variable kept in memory without horizontal dimensions");
    VD gp = values(ip.getScaledData("pk"));
    VF_CHECK(gp.size() == nout, "size of pk: " << gp.size());
    VD lp = layer(0);
    for (double& d : lp)
        d = 0.5 * d + 100;
    expectLayer(wantLayer(s, method, lp, px, py), gp, 0, 0.2500001 + tol, "packed variable", ox, oy); // half a packing step
    expectValues(ip.getData("zt"), {1, 2, 3, 4}, "variable without horizontal dimensions");
    if (slices) {
        for (size_t x0 = 0; x0 < ox.size(); ++x0)
            for (size_t xs = 1; x0 + xs <= ox.size(); ++xs)
                for (size_t y0 = 0; y0 < oy.size(); ++y0)
                    for (size_t ys = 1; y0 + ys <= oy.size(); ++ys)
                        for (size_t z0 = 0; z0 < s.nz; ++z0)
                            for (size_t zs = 1; z0 + zs <= s.nz; ++zs)
                                for (size_t t0 = 0; t0 < s.nt; ++t0)
                                    for (size_t ts = 1; t0 + ts <= s.nt; ++ts) {
                                        SliceBuilder sb(cdm, "v4");
                                        sb.setStartAndSize(xn, x0, xs);
                                        sb.setStartAndSize(yn, y0, ys);
                                        sb.setStartAndSize("z", z0, zs);
                                        sb.setStartAndSize("time", t0, ts);
                                        ex.step();
                                        VD got = values(ip.getScaledDataSlice("v4", sb));
                                        VD want = refSlice(g4, {ox.size(), oy.size(), s.nz, s.nt}, {x0, y0, z0, t0}, {xs, ys, zs, ts});
                                        expectClose(got, want, "slice of v4 at x" + std::to_string(x0) + "+" + std::to_string(xs) + " y" + std::to_string(y0) + "+" + std::to_string(ys) + " z" + std::to_string(z0) + " t" + std::to_string(t0));
                                    }
        for (size_t t = 0; t < s.nt; ++t)
            expectClose(values(ip.getScaledDataSlice("v3", t)), VD(g3.begin() + t * nout, g3.begin() + (t + 1) * nout), "time position " + std::to_string(t) + " of v3");
    }
}

void cross(const VD& ox, const VD& oy, VD& px, VD& py)
{
    px.clear();
    py.clear();
    for (double y : oy)
        for (double x : ox) {
            px.push_back(x);
            py.push_back(y);
        }
}

VD around(const VD& a, double lo, double hi)
{
    VD r;
    const double d = a.size() > 1 ? a[1] - a[0] : 10, e = a.size() > 1 ? a[a.size() - 1] - a[a.size() - 2] : 10;
    for (double f : {3.3, 0.7, 0.3})
        r.push_back(a.front() - f * d);
    for (size_t i = 0; i < a.size(); ++i) {
        r.push_back(a[i]);
        if (i + 1 < a.size())
            for (double f : {0.2, 0.6})
                r.push_back(a[i] + f * (a[i + 1] - a[i]));
    }
    for (double f : {0.3, 0.7, 3.3})
        r.push_back(a.back() + f * e);
    VD o;
    for (double x : r)
        if (x >= lo && x <= hi)
            o.push_back(x);
    return o;
}

void spaceLatLon(vf::Explorer& ex)
{
    ex.space("geographic grids: axis notations x methods x read modes; output on, between, at the border of and outside of the grid, and a full circle away");
    const vector<VD> lons = {{0, 10, 20, 30}, {30, 20, 10, 0}, {-10, 0, 10, 20}, {0, 90, 180, 270}, {-180, -90, 0, 90}, {0, 60, 120, 180, 240, 300}, {170, 180, 190, 200}, {350, 360, 370}, {-190, -180, -170}, {0, 5, 20, 30}, {0, 10}, {-10, 100, 200}, {7}};
    const vector<VD> lats = {{50, 60, 70, 80}, {80, 70, 60, 50}, {-80, -40, 0, 40, 80}, {0, 10}, {-10, 0, 5, 25}, {33}};
    for (const VD& lo : lons)
        for (const VD& la : lats)
            for (const auto& m : METHODS)
                for (int kind = 0; kind < 2; ++kind)
                    ex.run([=] { return m.second + ", longitudes " + str(lo) + ", latitudes " + str(la) + (kind ? ", with undefined values" : ""); },
                           [&] {
                               Src s = makeSource(LL, true, lo, la, kind ? BY_UNLIMITED : BY_BUILDER, kind);
                               const string before = dump(s.r);
                               CDMInterpolator ip(s.r);
                               for (double circle : {0., 360., -360.}) {
                                   VD ox = around(lo, -1e9, 1e9), oy = around(la, -90, 90);
                                   for (double& x : ox)
                                       x += circle;
                                   ip.changeProjection(m.first, LL, ox, oy, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                                   expectClose(ip.getData("x"), ox, "output x axis");
                                   expectClose(ip.getData("y"), oy, "output y axis");
                                   VD px, py;
                                   cross(ox, oy, px, py);
                                   checkInterpolated(ex, s, ip, m.first, ox, oy, px, py, false);
                               }
                               VF_CHECK(dump(s.r) == before, "the source was modified");
                               ex.state(m.second + str(lo) + str(la));
                           });
    ex.space("all output windows inside a larger grid, all slices of the result");
    VD lo, la;
    for (int i = 0; i < 9; ++i)
        lo.push_back(10 + 2 * i);
    for (int i = 0; i < 8; ++i)
        la.push_back(70 - 3 * i);
    for (const auto& m : METHODS)
        for (int x0 = 0; x0 < 9; ++x0)
            for (int x1 = x0; x1 < 9; ++x1)
                ex.run([=] { return m.second + ", window of a 9x8 grid, columns " + std::to_string(x0) + ".." + std::to_string(x1); },
                       [&] {
                           Src s = makeSource(LL, true, lo, la, BY_BUILDER, x0 % 2);
                           CDMInterpolator ip(s.r);
                           for (int y0 = 0; y0 < 8; ++y0)
                               for (int y1 = y0; y1 < 8; ++y1)
                               for (int onx = 0; onx < 2; ++onx)
                               for (int ony = 0; ony < 2; ++ony) {
                                   if ((x1 - x0 > 1 || y1 - y0 > 1) && (onx || ony) && (onx != ony || (x0 + y0) % 2))
                                       continue;
                                   // between the cells or on the cells
                                   VD ox, oy, px, py;
                                   for (int i = x0; i <= x1; ++i)
                                       ox.push_back(lo[i] + (onx ? 0 : 0.6));
                                   for (int i = y0; i <= y1; ++i)
                                       oy.push_back(la[i] - (ony ? 0 : 0.9));
                                   cross(ox, oy, px, py);
                                   ip.changeProjection(m.first, LL, ox, oy, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                                   checkInterpolated(ex, s, ip, m.first, ox, oy, px, py, !onx && !ony && x1 - x0 <= 2 && y1 - y0 <= 1 && y0 % 3 == 0);
                               }
                           ex.state(m.second + std::to_string(x0 * 10 + x1));
                       });
}

struct PGrid
{
    string name, proj;
    bool degree;
    VD x, y;
};

const vector<PGrid>& pgrids()
{
    static const vector<PGrid> g = {
        {"stereographic", "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +no_defs", false, {-400000, -300000, -200000, -100000, 0}, {-3400000, -3300000, -3200000, -3100000}},
        {"stereographic rotated", "+proj=stere +lat_0=90 +lon_0=-32 +lat_ts=60 +R=6371000 +no_defs", false, {1500000, 1650000, 1800000, 1950000}, {-2800000, -2650000, -2500000, -2350000}},
        {"lambert", "+proj=lcc +lat_0=63 +lon_0=15 +lat_1=63 +lat_2=63 +R=6371000 +no_defs", false, {-300000, -150000, 0, 150000, 300000}, {400000, 200000, 0, -200000}},
        {"mercator", "+proj=merc +lat_ts=0 +lon_0=0 +R=6371000 +no_defs", false, {0, 200000, 400000, 600000}, {8000000, 8200000, 8400000, 8600000}},
        {"rotated pole", "+proj=ob_tran +o_proj=longlat +lon_0=-40 +o_lat_p=22 +R=6371000 +no_defs", true, {10, 12, 14, 16, 18}, {-10, -8, -6, -4}},
        {"equal area", "+proj=laea +lat_0=60 +lon_0=10 +R=6371000 +no_defs", false, {-200000, 0, 200000, 400000}, {-100000, 0, 100000, 200000}},
        {"transverse mercator", "+proj=tmerc +lat_0=0 +lon_0=9 +k_0=0.9995 +x_0=500000 +y_0=0 +R=6371000 +no_defs", false, {400000, 500000, 600000, 700000}, {6600000, 6700000, 6800000, 6900000}},
    };
    return g;
}

void spaceProjected(vf::Explorer& ex)
{
    ex.space("projected grids: every source projection to every target projection and to geographic coordinates, every method");
    for (const PGrid& g : pgrids())
        for (size_t ti = 0; ti <= pgrids().size(); ++ti)
            for (const auto& m : METHODS)
                for (int km = 0; km < (g.degree ? 1 : 2); ++km)
                    ex.run([&, ti, km] { return m.second + ", " + g.name + (km ? " (km)" : "") + " to " + (ti < pgrids().size() ? pgrids()[ti].name : string("geographic")); },
                           [&] {
                               Src s = makeSource(g.proj, g.degree, g.x, g.y, BY_BUILDER, 0, km);
                               const string before = dump(s.r);
                               CDMInterpolator ip(s.r);
                               const bool ll = ti == pgrids().size();
                               const string tproj = ll ? LL : pgrids()[ti].proj;
                               const bool tdeg = ll || pgrids()[ti].degree;
                               // output grid around the centre of the source, in the target projection
                               VD cx = {g.x[0], g.x.back()}, cy = {g.y[0], g.y.back()};
                               VD kx = {g.x[0], g.x.back(), g.x[0], g.x.back()}, ky = {g.y[0], g.y[0], g.y.back(), g.y.back()};
                               transform(g.proj, tproj, kx, ky);
                               const double x0 = *std::min_element(kx.begin(), kx.end()), x1 = *std::max_element(kx.begin(), kx.end());
                               const double y0 = *std::min_element(ky.begin(), ky.end()), y1 = *std::max_element(ky.begin(), ky.end());
                               VD ox, oy, px, py;
                               for (int i = -1; i <= 6; ++i) {
                                   ox.push_back(x0 + (x1 - x0) * i / 5);
                                   oy.push_back(y0 + (y1 - y0) * i / 5);
                               }
                               cross(ox, oy, px, py);
                               transform(tproj, g.proj, px, py);
                               ex.step();
                               if (km && !tdeg) { // target axes in km
                                   VD kox, koy;
                                   for (double v : ox)
                                       kox.push_back(v / 1000);
                                   for (double v : oy)
                                       koy.push_back(v / 1000);
                                   ip.changeProjection(m.first, tproj, kox, koy, "km", "km", CDM_DOUBLE, CDM_DOUBLE);
                               } else {
                                   ip.changeProjection(m.first, tproj, ox, oy, ll ? "degrees_east" : tdeg ? "degrees" : "m", ll ? "degrees_north" : tdeg ? "degrees" : "m", CDM_DOUBLE, CDM_DOUBLE);
                               }
                               checkInterpolated(ex, s, ip, m.first, ox, oy, px, py, false);
                               // the generated geographic coordinates of the output grid
                               if (!ll) {
                                   VD lx, ly;
                                   cross(ox, oy, lx, ly);
                                   transform(tproj, LL, lx, ly);
                                   string lat, lon;
                                   VF_CHECK(ip.getCDM().getLatitudeLongitude("v4", lat, lon), "no longitude/latitude for v4");
                                   expectClose(ip.getScaledData(lon), lx, "longitudes", 1e-5, 1e-4);
                                   expectClose(ip.getScaledData(lat), ly, "latitudes", 1e-5, 1e-4);
                                   Projection_cp p = ip.getCDM().getProjectionOf("v4");
                                   VF_CHECK(p, "no projection for v4");
                                   VD ax = {ox[1]}, ay = {oy[1]}, bx = ax, by = ay;
                                   transform(tproj, LL, bx, by);
                                   vector<double> qx = ax, qy = ay;
                                   p->convertToLonLat(qx, qy);
                                   VF_CHECK(closeD(qx[0], bx[0], 1e-5, 1e-4) && closeD(qy[0], by[0], 1e-5, 1e-4), "projection of the result maps (" << ax[0] << "," << ay[0] << ") to (" << qx[0] << "," << qy[0] << ") instead of (" << bx[0] << "," << by[0] << ")");
                               }
                               VF_CHECK(dump(s.r) == before, "the source was modified");
                               ex.state(m.second + g.name + std::to_string(ti) + char('0' + km));
                           });
    ex.space("lists of places: every method, places on, between and outside of the grid, repeated changes");
    vector<PGrid> grids = pgrids();
    grids.push_back({"geographic", LL, true, {3, 4, 5, 6}, {58, 59, 60, 61, 62}});
    grids.push_back({"geographic descending", LL, true, {200, 190, 180, 170}, {62, 61, 60, 59}});
    for (const PGrid& g : grids)
        for (const auto& m : METHODS)
            for (const auto& nm : vector<std::pair<string, string>>{{"x", "y"}, {"lon", "lat"}, {"longitude", "latitude"}, {"xc", "yc"}})
            for (int rep = 0; rep < 2; ++rep)
                ex.run([&, rep] { return m.second + ", " + g.name + " (" + nm.first + "," + nm.second + ") to places" + (rep ? ", twice" : ""); },
                       [&] {
                           Src s = makeSource(g.proj, g.degree, g.x, g.y, BY_BUILDER, 0, false, nm.first, nm.second);
                           CDMInterpolator ip(s.r);
                           VD gx, gy;
                           for (double fy : {-0.3, 0., 0.4, 1.5, 2., 2.7, 3.2, 9.})
                               for (double fx : {-0.3, 0., 0.4, 1.6, 2., 2.7, 3.2, 9.}) {
                                   gx.push_back(g.x[0] + fx * (g.x[1] - g.x[0]));
                                   gy.push_back(g.y[0] + fy * (g.y[1] - g.y[0]));
                               }
                           VD lon = gx, lat = gy;
                           transform(g.proj, LL, lon, lat);
                           if (rep)
                               ip.changeProjection(m.first, vector<double>{lon[3], lon[9]}, vector<double>{lat[3], lat[9]});
                           ex.step();
                           ip.changeProjection(m.first, lon, lat);
                           VD one = {0}, idx;
                           for (size_t i = 0; i < lon.size(); ++i)
                               idx.push_back(i);
                           VD px = lon, py = lat;
                           transform(LL, g.proj, px, py);
                           checkInterpolated(ex, s, ip, m.first, idx, one, px, py, false);
                           string la, lo;
                           VF_CHECK(ip.getCDM().getLatitudeLongitude("v4", la, lo), "no longitude/latitude for v4");
                           expectClose(ip.getScaledData(lo), lon, "longitudes");
                           expectClose(ip.getScaledData(la), lat, "latitudes");
                           VF_CHECK(throws([&] { ip.changeProjection(MIFI_INTERPOL_FORWARD_SUM, lon, lat); }), "forward interpolation to places accepted");
                           ex.state("pts" + m.second + g.name + nm.first + char('0' + rep));
                       });
}

void spaceTemplates(vf::Explorer& ex)
{
    ex.space("target grids taken from a template dataset: regular, curvilinear and projected templates, every source, every method");
    vector<PGrid> grids = pgrids();
    grids.push_back({"geographic", LL, true, {3, 4, 5, 6}, {58, 59, 60, 61, 62}});
    const vector<std::pair<string, string>> names = {{"x", "y"}, {"lon", "lat"}, {"xc", "yc"}};
    for (const PGrid& g : grids)
        for (const auto& m : METHODS)
            for (int kind = 0; kind < 4; ++kind)
                for (const auto& sn : names)
                    for (const auto& tn : names) {
                        if (m.first == MIFI_INTERPOL_COORD_NN || m.first == MIFI_INTERPOL_COORD_NN_KD)
                            continue;
                        if (&sn != &tn && kind % 2)
                            continue;
                        ex.run([&, kind] { return m.second + ", " + g.name + " (" + sn.first + ") to template (" + tn.first + ") of kind " + std::to_string(kind); },
                               [&] {
                                   Src s = makeSource(g.proj, g.degree, g.x, g.y, BY_BUILDER, 0, false, sn.first, sn.second);
                                   // geographic area of the source
                                   VD lon, lat;
                                   const double gx = g.x[1] - g.x[0], gy = g.y[1] - g.y[0];
                                   VD ox, oy;
                                   auto tr = std::make_shared<TestReader>();
                                   tr->att("", "Conventions", "CF-1.6");
                                   if (kind < 2) { // regular
                                       VD cx = {g.x[1] + 0.3 * gx}, cy = {g.y[1] + 0.4 * gy};
                                       transform(g.proj, LL, cx, cy);
                                       for (double d : {-0.7, 0., 0.4, 1.1})
                                           ox.push_back(cx[0] + (kind ? -d : d));
                                       for (double d : {-0.3, 0.1, 0.6})
                                           oy.push_back(cy[0] + d);
                                       axis(*tr, tn.first, ox, "degrees_east", "longitude", CDM_DOUBLE);
                                       axis(*tr, tn.second, oy, "degrees_north", "latitude", CDM_DOUBLE);
                                       cross(ox, oy, lon, lat);
                                   } else { // curvilinear, along the source grid or turned
                                       ox = {10, 20, 30, 40};
                                       oy = {1, 2, 3};
                                       axis(*tr, tn.first, ox, "m", "projection_x_coordinate", CDM_DOUBLE);
                                       axis(*tr, tn.second, oy, "m", "projection_y_coordinate", CDM_DOUBLE);
                                       for (int j = 0; j < 3; ++j)
                                           for (int i = 0; i < 4; ++i) {
                                               const double a = kind == 2 ? 0.7 * i : 2.6 - j, b = kind == 2 ? 1.1 * j : 0.4 + 0.6 * i;
                                               lon.push_back(g.x[0] + a * gx);
                                               lat.push_back(g.y[0] + b * gy);
                                           }
                                       transform(g.proj, LL, lon, lat);
                                       tr->var("tlon", CDM_DOUBLE, {tn.first, tn.second}, lon);
                                       tr->att("tlon", "units", "degrees_east");
                                       tr->att("tlon", "standard_name", "longitude");
                                       tr->var("tlat", CDM_DOUBLE, {tn.first, tn.second}, lat);
                                       tr->att("tlat", "units", "degrees_north");
                                       tr->att("tlat", "standard_name", "latitude");
                                   }
                                   tr->var("ref", CDM_FLOAT, {tn.first, tn.second}, VD(12, 1));
                                   if (kind >= 2)
                                       tr->att("ref", "coordinates", "tlon tlat");
                                   CDMInterpolator ip(s.r);
                                   ex.step();
                                   ip.changeProjection(m.first, tr, "ref");
                                   VD px = lon, py = lat;
                                   transform(LL, g.proj, px, py);
                                   checkInterpolated(ex, s, ip, m.first, ox, oy, px, py, false);
                                   string la, lo;
                                   VF_CHECK(ip.getCDM().getLatitudeLongitude("v4", la, lo), "no longitude/latitude for v4");
                                   expectClose(ip.getScaledData(lo), lon, "longitudes");
                                   expectClose(ip.getScaledData(la), lat, "latitudes");
                                   ex.state("tmpl" + m.second + g.name + sn.first + tn.first + char('0' + kind));
                               });
                    }
}

// ----- by coordinates
struct Curvi
{
    string name;
    int nx, ny;
    VD lon, lat;
};

double arc(double lon0, double lat0, double lon1, double lat1)
{
    const double r = M_PI / 180;
    const double x = std::cos(lat0 * r) * std::cos(lon0 * r) - std::cos(lat1 * r) * std::cos(lon1 * r), y = std::cos(lat0 * r) * std::sin(lon0 * r) - std::cos(lat1 * r) * std::sin(lon1 * r),
                 z = std::sin(lat0 * r) - std::sin(lat1 * r);
    return 2 * std::asin(std::min(1., std::sqrt(x * x + y * y + z * z) / 2));
}

void spaceCoordinates(vf::Explorer& ex)
{
    ex.space("nearest neighbour by coordinates: curvilinear grids, undefined coordinates, date line and poles, all output places, distance limits");
    vector<Curvi> grids;
    for (int nx = 2; nx <= 4; ++nx)
        for (int ny = 2; ny <= 3; ++ny) {
            Curvi c = {"skewed " + std::to_string(nx) + "x" + std::to_string(ny), nx, ny, {}, {}};
            for (int j = 0; j < ny; ++j)
                for (int i = 0; i < nx; ++i) {
                    c.lon.push_back(10 + 2 * i + 0.7 * j);
                    c.lat.push_back(60 + 1.5 * j - 0.4 * i);
                }
            grids.push_back(c);
            Curvi d = c;
            d.name = "date line " + d.name;
            for (double& l : d.lon) {
                l += 167;
                if (l > 180)
                    l -= 360;
            }
            grids.push_back(d);
            Curvi p = c;
            p.name = "polar " + p.name;
            for (int j = 0; j < ny; ++j)
                for (int i = 0; i < nx; ++i) {
                    p.lon[j * nx + i] = i * 360. / nx - 170;
                    p.lat[j * nx + i] = 89 - 3 * j;
                }
            grids.push_back(p);
            Curvi u = c;
            u.name = "undefined " + u.name;
            u.lon[1] = NaN;
            u.lat[u.lat.size() - 1] = NaN;
            grids.push_back(u);
        }
    for (size_t gi = 0; gi < grids.size(); ++gi)
        for (int method : {MIFI_INTERPOL_COORD_NN, MIFI_INTERPOL_COORD_NN_KD})
            for (double dist : {-1., 30000., 120000., 2e6}) {
                if (method == MIFI_INTERPOL_COORD_NN && dist > 0)
                    continue;
                for (int metric = 0; metric < 2; ++metric)
                ex.run([=, &grids] { return string(method == MIFI_INTERPOL_COORD_NN ? "coordinates" : "tree") + ", " + grids[gi].name + ", distance limit " + std::to_string(dist) + (metric ? ", output in metres" : ""); },
                       [&] {
                           const Curvi& c = grids[gi];
                           const size_t n = c.nx * c.ny;
                           auto r = std::make_shared<TestReader>();
                           r->att("", "Conventions", "CF-1.6");
                           r->dim("i", c.nx);
                           r->dim("j", c.ny);
                           r->dim("z", 2);
                           r->var("lon", CDM_DOUBLE, {"i", "j"}, c.lon);
                           r->att("lon", "units", "degrees_east");
                           r->att("lon", "standard_name", "longitude");
                           r->var("lat", CDM_DOUBLE, {"i", "j"}, c.lat);
                           r->att("lat", "units", "degrees_north");
                           r->att("lat", "standard_name", "latitude");
                           VD v = iota(2 * n, 5);
                           r->var("v", CDM_FLOAT, {"i", "j", "z"}, v);
                           r->att("v", "coordinates", "lon lat");
                           r->att("v", "_FillValue", CDM_FLOAT, {-99});
                           CDMInterpolator ip(r);
                           if (dist > 0)
                               ip.setDistanceOfInterest(dist);
                           VD ox, oy, px, py;
                           string proj = LL;
                           if (metric) {
                               proj = "+proj=stere +lat_0=75 +lon_0=" + std::to_string(std::isnan(c.lon[0]) ? 0 : c.lon[0]) + " +R=6371000 +no_defs";
                               for (int k = -9; k <= 9; ++k) {
                                   ox.push_back(60000 * k);
                                   oy.push_back(-1500000 + 110000 * (k + 9));
                               }
                               cross(ox, oy, px, py);
                               transform(proj, LL, px, py);
                           } else {
                               for (size_t k = 0; k < n; ++k)
                                   if (!std::isnan(c.lon[k]) && !std::isnan(c.lat[k]))
                                       for (double d : {0., 0.31, -0.9}) {
                                           ox.push_back(c.lon[k] + d);
                                           oy.push_back(std::min(90., c.lat[k] + 0.6 * d));
                                       }
                               ox.push_back(-60.3);
                               oy.push_back(-33.1);
                               cross(ox, oy, px, py);
                           }
                           ex.step();
                           ip.changeProjection(method, proj, ox, oy, metric ? "m" : "degrees_east", metric ? "m" : "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                           VD got = values(ip.getScaledData("v"));
                           VF_CHECK(got.size() == px.size() * 2, "size " << got.size());
                           const double R = 6371000;
                           for (size_t k = 0; k < px.size(); ++k) {
                               double best = 1e9;
                               for (size_t q = 0; q < n; ++q)
                                   if (!std::isnan(c.lon[q]) && !std::isnan(c.lat[q]))
                                       best = std::min(best, arc(px[k], py[k], c.lon[q], c.lat[q]));
                               Want w, w2;
                               for (size_t q = 0; q < n; ++q)
                                   if (!std::isnan(c.lon[q]) && !std::isnan(c.lat[q]) && arc(px[k], py[k], c.lon[q], c.lat[q]) < best + 1e-7) {
                                       w.add(v[q]);
                                       w2.add(v[n + q]);
                                   }
                               double limit = dist;
                               if (dist < 0) { // largest distance of neighbours in the output
                                   limit = 0;
                                   for (const VD* a : {&ox, &oy})
                                       for (size_t q = 1; q < a->size(); ++q)
                                           limit = std::max(limit, std::fabs((*a)[q] - (*a)[q - 1]));
                                   if (!metric)
                                       limit *= M_PI / 180 * R;
                               }
                               if (method == MIFI_INTERPOL_COORD_NN) {
                                   if (best > 1e-6)
                                       w.undefOk = w2.undefOk = true; // the region of influence of a cell is not specified
                               } else if (2 * std::sin(best / 2) * R > limit * 1.02)
                                   w = w2 = Want();
                               else if (best * R > limit * 0.98)
                                   w.undefOk = w2.undefOk = true;
                               VF_CHECK(w.ok(got[k], 1e-4) && w2.ok(got[px.size() + k], 1e-4), "place (" << px[k] << "," << py[k] << "), nearest cell at " << best * R << " m: " << got[k] << " and " << got[px.size() + k] << ", expected " << w.str() << " and " << w2.str());
                           }
                           ex.state(c.name + std::to_string(method) + std::to_string(dist));
                       });
            }
}

// ----- histories of changes
struct Change
{
    string name;
    bool valid;
    std::function<void(CDMInterpolator&)> op;
};

void spaceHistories(vf::Explorer& ex)
{
    const string ST = "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +no_defs";
    const vector<Change> ops = {
        {"degrees", true, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, LL, VD{1, 2, 3}, VD{59, 60}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE); }},
        {"stereographic", true, [=](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, ST, VD{0, 100000}, VD{-3400000, -3300000, -3200000}, "m", "m", CDM_FLOAT, CDM_INT); }},
        {"axis text", true, [=](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, ST, "0,100000", "-3400000,-3300000,...,-3200000", "m", "m", "float", "int"); }},
        {"tree", true, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_COORD_NN_KD, LL, VD{1, 2, 3, 4}, VD{59, 60, 61}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE); }},
        {"forward", true, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_FORWARD_MEAN, LL, VD{1, 3}, VD{59, 61}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE); }},
        {"places", true, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, VD{1, 2.5, 3}, VD{59, 60, 60.5}); }},
        {"places nearest", true, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, VD{3.5, 2, 1, 1}, VD{60, 60, 60.5, 59}); }},
        {"template", true, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, makeSource(LL, true, {1.5, 2.5}, {59, 59.5, 60}, BY_BUILDER, 0).r, "v3"); }},
        {"template without the variable", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, makeSource(LL, true, {1.5, 2.5}, {59, 59.5, 60}, BY_BUILDER, 0).r, "nosuch"); }},
        {"no places", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, VD{}, VD{}); }},
        {"different numbers of longitudes and latitudes", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, VD{1, 2, 3}, VD{59, 60}); }},
        {"empty axis", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, LL, VD{1}, VD{}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE); }},
        {"unknown method", false, [](CDMInterpolator& ip) { ip.changeProjection(-7, LL, VD{1, 2}, VD{59, 60}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE); }},
        {"unknown method for places", false, [](CDMInterpolator& ip) { ip.changeProjection(-7, VD{1, 2}, VD{59, 60}); }},
        {"unknown projection", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, "+proj=nosuchprojection +R=6371000", VD{1, 2}, VD{59, 60}, "m", "m", CDM_DOUBLE, CDM_DOUBLE); }},
        {"no projection", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, "", VD{1, 2}, VD{59, 60}, "m", "m", CDM_DOUBLE, CDM_DOUBLE); }},
        {"undefined axis type", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, LL, VD{1, 2}, VD{59, 60}, "degrees_east", "degrees_north", CDM_NAT, CDM_DOUBLE); }},
        {"malformed axis text", false, [](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_BILINEAR, LL, "1,2,abc", "59,60", "degrees_east", "degrees_north", "double", "double"); }},
    };
    const vector<string> xn = {"x", "x", "lon", "longitude", "xc"}, yn = {"y", "y", "lat", "latitude", "yc"};
    for (size_t src = 0; src < xn.size(); ++src) {
        ex.space("sequences of changes of the target grid: the last valid one counts, " + string(src == 1 || src == 4 ? "projected" : "geographic") + " source with axes " + xn[src] + "," + yn[src]);
        auto make = [&, src] {
            Src s = src == 1 || src == 4 ? makeSource("+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +no_defs", false, {0, 100000, 200000, 300000}, {-3500000, -3400000, -3300000, -3200000, -3100000}, BY_BUILDER, 1, false, xn[src], yn[src])
                       : makeSource(LL, true, {0, 1, 2, 3, 4}, {58, 59, 60, 61}, BY_BUILDER, 1, false, xn[src], yn[src]);
            // a vector along the grid axes
            const size_t nxy = s.x.size() * s.y.size();
            for (int v = 0; v < 2; ++v) {
                const string n = v ? "wy" : "wx";
                s.r->var(n, CDM_FLOAT, {xn[src], yn[src], "time"}, iota(nxy * s.nt, v ? -7 : 3));
                s.r->att(n, "standard_name", v ? "y_wind" : "x_wind");
                s.r->att(n, "units", "m/s");
                if (!s.degree)
                    s.r->att(n, "grid_mapping", "mapping");
            }
            return s;
        };
        vector<vector<int>> seqs;
        const int n = ops.size(), depth = ex.bound(2, 3);
        for (int i = 0; i < n; ++i) {
            seqs.push_back({i});
            for (int j = 0; j < n; ++j) {
                seqs.push_back({i, j});
                if (depth > 2)
                    for (int k = 0; k < n; ++k)
                        seqs.push_back({i, j, k});
            }
        }
        for (const auto& q : seqs)
            ex.run(
                [&] {
                    string d;
                    for (int i : q)
                        d += (d.empty() ? "" : ", ") + ops[i].name;
                    return d;
                },
                [&] {
                    Src s = make();
                    const string before = dump(s.r);
                    CDMInterpolator ip(s.r);
                    for (int i : q) {
                        ex.step();
                        const bool threw = throws([&] { ops[i].op(ip); });
                        string err;
                        if (threw)
                            throws([&] { ops[i].op(ip); }, &err);
                        VF_CHECK(threw == !ops[i].valid, ops[i].name << (threw ? " rejected: " : " accepted") << err);
                    }
                    const Change& last = ops[q.back()];
                    if (last.valid) {
                        Src s2 = make();
                        auto fresh = std::make_shared<CDMInterpolator>(s2.r);
                        last.op(*fresh);
                        const string a = dump(std::shared_ptr<CDMReader>(&ip, [](CDMReader*) {})), b = dump(fresh);
                        VF_CHECK(a == b, "result differs from a single change:\n" << a << "\ninstead of\n" << b);
                    }
                    // longitude and latitude may be added to a projected source
                    std::istringstream lines(before);
                    const string after = "\n" + dump(s.r);
                    for (string l; std::getline(lines, l);)
                        VF_CHECK(l.substr(0, 2) == "V " || after.find("\n" + l + "\n") != string::npos, "the source was modified: no longer " << l);
                    ex.state(std::to_string(src) + ops[q.back()].name);
                });
    }
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceFunctions(ex);
    spacePositions(ex);
    spaceLatLon(ex);
    spaceProjected(ex);
    spaceTemplates(ex);
    spaceCoordinates(ex);
    spaceHistories(ex);
}
