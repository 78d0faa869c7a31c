// C13: vectors and directions are turned with the grid, and never scaled
#include "fx.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMProcessor.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"
#include "fimex/reproject.h"

#include <proj.h>

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
const string LL = "+proj=latlong +R=6371000 +no_defs";
const double D2R = M_PI / 180;

struct PGrid
{
    string name, proj;
    bool degree;
    VD x, y;
    bool conformal = true;
};

const vector<PGrid>& pgrids()
{
    static const vector<PGrid> g = {
        {"stereographic", "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +no_defs", false, {-400000, -300000, -200000, -100000, 0}, {-3400000, -3300000, -3200000, -3100000}},
        {"stereographic turned", "+proj=stere +lat_0=90 +lon_0=-172 +lat_ts=60 +R=6371000 +no_defs", false, {-1000000, -850000, -700000, -550000}, {2950000, 2800000, 2650000, 2500000}},
        {"lambert", "+proj=lcc +lat_0=63 +lon_0=15 +lat_1=63 +lat_2=63 +R=6371000 +no_defs", false, {-300000, -150000, 0, 150000, 300000}, {400000, 200000, 0, -200000}},
        {"mercator", "+proj=merc +lat_ts=0 +lon_0=0 +R=6371000 +no_defs", false, {1600000, 1400000, 1200000, 1000000}, {8000000, 8200000, 8400000, 8600000}},
        {"rotated pole", "+proj=ob_tran +o_proj=longlat +lon_0=-40 +o_lat_p=22 +R=6371000 +no_defs", true, {10, 12, 14, 16, 18}, {-10, -8, -6, -4}},
        {"equal area", "+proj=laea +lat_0=60 +lon_0=10 +R=6371000 +no_defs", false, {-200000, 0, 200000, 400000}, {-100000, 0, 100000, 200000}, false},
        {"transverse mercator", "+proj=tmerc +lat_0=0 +lon_0=9 +k_0=0.9995 +x_0=500000 +y_0=0 +R=6371000 +no_defs", false, {400000, 500000, 600000, 700000}, {6600000, 6700000, 6800000, 6900000}},
        {"across the pole", "+proj=stere +lat_0=90 +lon_0=30 +lat_ts=60 +R=6371000 +no_defs", false, {-250000, -150000, -50000, 50000, 150000}, {-350000, -150000, 50000, 250000}},
        {"southern stereographic", "+proj=stere +lat_0=-90 +lon_0=0 +lat_ts=-70 +R=6371000 +no_defs", false, {-600000, -400000, -200000, 0}, {900000, 1100000, 1300000, 1500000}},
        {"geographic", LL, true, {3, 4, 5, 6}, {58, 59, 60, 61, 62}},
        {"geographic descending", LL, true, {12, 10, 8, 6}, {62, 61, 60, 59}},
    };
    return g;
}

struct PJT
{
    PJ_CONTEXT* ctx;
    PJ* p;
    PJT(const string& from, const string& to)
    {
        ctx = proj_context_create();
        p = proj_create_crs_to_crs(ctx, from.c_str(), to.c_str(), nullptr);
        VF_CHECK(p, "cannot create transformation " << from << " to " << to);
    }
    ~PJT()
    {
        proj_destroy(p);
        proj_context_destroy(ctx);
    }
    bool operator()(double& x, double& y) const
    {
        PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(x, y, 0, 0));
        x = c.xy.x;
        y = c.xy.y;
        if (std::isfinite(x) && std::isfinite(y))
            return true;
        x = y = NaN;
        return false;
    }
};

/// angle (radian, mathematically positive) from the grid's y-axis to true north and from its x-axis to true east, at a geographic place
struct North
{
    double byNorth = NaN, byEast = NaN;
};

North northAt(const PJT& fromLL, bool degree, double lon, double lat)
{
    North n;
    const double h = 1e-4;
    double x0 = lon, y0 = lat - h, x1 = lon, y1 = lat + h;
    if (!fromLL(x0, y0) || !fromLL(x1, y1))
        return n;
    auto dlon = [&](double d) { return degree ? std::remainder(d, 360.) : d; };
    const double cy = degree ? std::cos((y0 + y1) / 2 * D2R) : 1;
    double dx = dlon(x1 - x0) * cy, dy = y1 - y0;
    n.byNorth = std::atan2(-dx, dy);
    const double k = h / std::max(1e-3, std::cos(lat * D2R));
    x0 = lon - k, y0 = lat, x1 = lon + k, y1 = lat;
    if (!fromLL(x0, y0) || !fromLL(x1, y1)) {
        n.byNorth = NaN;
        return n;
    }
    const double cx = degree ? std::cos((y0 + y1) / 2 * D2R) : 1;
    n.byEast = std::atan2(y1 - y0, dlon(x1 - x0) * cx);
    return n;
}

double angDiff(double a, double b)
{
    return std::remainder(a - b, 2 * M_PI);
}

/// the turn of a vector between two grids: from the angles at the place; spread: disagreement of non-conformal projections
struct Turn
{
    double phi = NaN, spread = 0;
};

/// is the point of the projection plane the image of a place?
bool onPlane(const PJT& toLL, const PJT& fromLL, double x, double y, bool degree)
{
    double p = x, q = y;
    if (!toLL(p, q) || !fromLL(p, q))
        return false;
    return std::fabs(p - x) + std::fabs(q - y) < (degree ? 1e-6 : 0.1);
}

Turn turnAt(const PGrid& from, const PGrid& to, const PJT& fromF, const PJT& fromT, double lon, double lat)
{
    Turn t;
    const North a = northAt(fromF, from.degree, lon, lat), b = northAt(fromT, to.degree, lon, lat);
    if (std::isnan(a.byNorth) || std::isnan(b.byNorth))
        return t;
    const double p = b.byNorth - a.byNorth, q = b.byEast - a.byEast;
    t.spread = std::fabs(angDiff(p, q)) + std::fabs(angDiff(a.byNorth, a.byEast)) + std::fabs(angDiff(b.byNorth, b.byEast));
    t.phi = std::atan2(std::sin(p) + std::sin(q), std::cos(p) + std::cos(q));
    return t;
}

void expectTurned(double gu, double gv, double u, double v, const Turn& t, double tol, const string& what)
{
    if (std::isnan(u) || std::isnan(v)) {
        VF_CHECK(std::isnan(gu) && std::isnan(gv), what << ": (" << gu << "," << gv << ") although (" << u << "," << v << ") is undefined");
        return;
    }
    const double m = std::hypot(u, v), gm = std::hypot(gu, gv);
    VF_CHECK(std::fabs(m - gm) <= 1e-4 * m + tol, what << ": length " << gm << " of (" << gu << "," << gv << ") instead of " << m);
    const double wu = u * std::cos(t.phi) - v * std::sin(t.phi), wv = u * std::sin(t.phi) + v * std::cos(t.phi);
    const double allow = m * (2e-3 + t.spread) + tol;
    VF_CHECK(std::hypot(gu - wu, gv - wv) <= allow, what << ": (" << u << "," << v << ") turned to (" << gu << "," << gv << ") instead of (" << wu << "," << wv << "), by " << std::atan2(gv, gu) / D2R - std::atan2(v, u) / D2R << " instead of " << t.phi / D2R << " degrees");
}

const vector<std::pair<double, double>> VEC = {{1, 0}, {0, 1}, {-3, 4}, {0.25, -0.25}, {0, 0}, {-7, -2}};

/// output grids around a source grid, in the target projection: number of cells and order
struct Shape
{
    int nx, ny;
    bool dx, dy; // descending
};

VD span(double lo, double hi, int n, bool desc)
{
    VD r;
    for (int i = 0; i < n; ++i)
        r.push_back(n == 1 ? (lo + hi) / 2 + (hi - lo) / 20 : lo + (hi - lo) * (i + 0.5) / n);
    if (desc)
        std::reverse(r.begin(), r.end());
    return r;
}

/// bounding box of the source grid in the target projection; false: not projectable
bool box(const PGrid& g, const PGrid& t, double b[4])
{
    PJT tr(g.proj, t.proj);
    b[0] = b[2] = 1e300;
    b[1] = b[3] = -1e300;
    for (double x : g.x)
        for (double y : g.y) {
            double p = x, q = y;
            if (!tr(p, q))
                return false;
            b[0] = std::min(b[0], p);
            b[1] = std::max(b[1], p);
            b[2] = std::min(b[2], q);
            b[3] = std::max(b[3], q);
        }
    if (b[1] - b[0] > 2e7 || b[3] - b[2] > 2e7)
        return false; // far outside of the area the projection is made for
    return true;
}

void matrixTurn(const reproject::Matrix_cp& m, size_t i, const Turn& t, const string& what)
{
    const double* p = m->mtx() + reproject::Matrix::stride * i;
    VF_CHECK(std::fabs(std::hypot(p[0], p[1]) - 1) < 1e-9, what << ": not a rotation");
    VF_CHECK(std::fabs(angDiff(std::atan2(p[1], p[0]), t.phi)) <= 2e-3 + t.spread, what << ": turn by " << std::atan2(p[1], p[0]) / D2R << " instead of " << t.phi / D2R);
    VF_CHECK(std::fabs(angDiff(p[2] * D2R, t.phi)) <= 2e-3 + t.spread, what << ": directions turn by " << p[2] << " instead of " << t.phi / D2R);
}

// ----- turning on grids in all projection pairs
void spaceMatrix(vf::Explorer& ex)
{
    ex.space("rotation between every pair of projections: output grids of every small shape and orientation, vectors and directions, layers");
    vector<Shape> shapes;
    const int N = ex.bound(3, 5);
    for (int nx = 1; nx <= N; ++nx)
        for (int ny = 1; ny <= N; ++ny)
            for (int o = 0; o < 4; ++o)
                if ((nx > 1 || !(o & 1)) && (ny > 1 || !(o & 2)))
                    shapes.push_back({nx, ny, bool(o & 1), bool(o & 2)});
    for (size_t gi = 0; gi < pgrids().size(); ++gi)
        for (size_t ti = 0; ti < pgrids().size(); ++ti)
            for (const Shape& s : shapes)
                ex.run([&, gi, ti] { return pgrids()[gi].name + " to " + pgrids()[ti].name + ", output " + std::to_string(s.nx) + (s.dx ? "-" : "+") + "x" + std::to_string(s.ny) + (s.dy ? "-" : "+"); },
                       [&] {
                           const PGrid &g = pgrids()[gi], &t = pgrids()[ti];
                           double b[4];
                           if (!box(g, t, b))
                               return;
                           const VD ox = span(b[0], b[1], s.nx, s.dx), oy = span(b[2], b[3], s.ny, s.dy);
                           const size_t n = ox.size() * oy.size();
                           PJT toLL(t.proj, LL), fromG(LL, g.proj), fromT(LL, t.proj), back(t.proj, g.proj);
                           vector<Turn> turns;
                           VD px, py, qx, qy;
                           for (double y : oy)
                               for (double x : ox) {
                                   double lon = x, lat = y;
                                   bool ok = toLL(lon, lat) && onPlane(toLL, fromT, x, y, t.degree);
                                   turns.push_back(ok && std::fabs(lat) < 89.7 ? turnAt(g, t, fromG, fromT, lon, lat) : Turn());
                                   px.push_back(x);
                                   py.push_back(y);
                                   double cx = x, cy = y;
                                   back(cx, cy);
                                   qx.push_back(cx);
                                   qy.push_back(cy);
                               }
                           const int tx = t.degree ? MIFI_LONGITUDE : MIFI_PROJ_AXIS, ty = t.degree ? MIFI_LATITUDE : MIFI_PROJ_AXIS;
                           ex.step();
                           auto m1 = reproject::get_vector_reproject_matrix(g.proj, t.proj, &ox[0], &oy[0], tx, ty, ox.size(), oy.size());
                           auto m2 = reproject::get_vector_reproject_matrix_points(g.proj, t.proj, g.degree ? 0 : 1, &px[0], &py[0], n, 1);
                           auto m3 = reproject::get_vector_reproject_matrix_field(g.proj, t.proj, &qx[0], &qy[0], ox.size(), oy.size());
                           auto r = reproject::get_vector_reproject_matrix_points(t.proj, g.proj, t.degree ? 0 : 1, &qx[0], &qy[0], ox.size(), oy.size());
                           for (size_t i = 0; i < n; ++i) {
                               if (std::isnan(turns[i].phi))
                                   continue;
                               const string at = " at output (" + std::to_string(px[i]) + "," + std::to_string(py[i]) + ")";
                               matrixTurn(m1, i, turns[i], "grid" + at);
                               matrixTurn(m2, i, turns[i], "list of points" + at);
                               matrixTurn(m3, i, turns[i], "field" + at);
                               Turn inv = turns[i];
                               inv.phi = -inv.phi;
                               matrixTurn(r, i, inv, "reverse" + at);
                           }
                           // values, all layers
                           const size_t nz = VEC.size();
                           vector<float> u(n * nz), v(n * nz), a;
                           for (size_t z = 0; z < nz; ++z)
                               for (size_t i = 0; i < n; ++i) {
                                   u[z * n + i] = VEC[z].first;
                                   v[z * n + i] = VEC[z].second;
                               }
                           reproject::vector_reproject_values_f(g.proj, t.proj, &u[0], &v[0], &ox[0], &oy[0], tx, ty, ox.size(), oy.size(), nz);
                           const vector<float> dirs = {0, 45, 90, 179.5f, 180, 270, 359.9f, 360};
                           for (float d : dirs)
                               a.insert(a.end(), n, d);
                           reproject::vector_reproject_direction_by_matrix_f(m1, &a[0], dirs.size());
                           for (size_t i = 0; i < n; ++i) {
                               if (std::isnan(turns[i].phi))
                                   continue;
                               for (size_t z = 0; z < nz; ++z)
                                   expectTurned(u[z * n + i], v[z * n + i], VEC[z].first, VEC[z].second, turns[i], 1e-5, "layer " + std::to_string(z));
                               for (size_t d = 0; d < dirs.size(); ++d) {
                                   const double got = a[d * n + i];
                                   VF_CHECK(got >= 0 && got <= 360, "direction " << dirs[d] << " turned to " << got);
                                   VF_CHECK(std::fabs(angDiff(got * D2R, dirs[d] * D2R - turns[i].phi)) <= 2e-3 + turns[i].spread, "direction " << dirs[d] << " turned to " << got << " instead of " << dirs[d] - turns[i].phi / D2R);
                               }
                           }
                           ex.state("m" + std::to_string(gi * 100 + ti) + std::to_string(s.nx) + std::to_string(s.ny) + (s.dx ? "d" : "a") + (s.dy ? "d" : "a"));
                       });
}

// ----- through readers
struct Names
{
    string sx, sy; // standard names
    bool xy;       // along the grid axes
};
const vector<Names> NAMES = {{"x_wind", "y_wind", true},
                             {"grid_eastward_wind", "grid_northward_wind", true},
                             {"sea_water_x_velocity", "sea_water_y_velocity", true},
                             {"sea_ice_x_velocity", "sea_ice_y_velocity", true},
                             {"eastward_wind", "northward_wind", false},
                             {"surface_downward_eastward_stress", "surface_downward_northward_stress", false},
                             {"air_temperature", "air_pressure", false}};

/// components linear in the index, so that bilinear interpolation is exact
double compU(double i, double j, size_t l) { return 2 + 0.5 * i - 0.25 * j + 3 * l; }
double compV(double i, double j, size_t l) { return -1 + 0.75 * i + 0.5 * j - 2. * l; }

struct Src
{
    TestReader_p r;
    size_t nz = 2, nt = 2;
};

Src makeSource(const PGrid& g, const Names& n, CDMDataType type, bool hole, SliceMode mode, bool swapped = false)
{
    Src s;
    s.r = std::make_shared<TestReader>(mode);
    s.r->att("", "Conventions", "CF-1.6");
    const bool ll = g.proj.find("latlong") != string::npos;
    axis(*s.r, "x", g.x, ll ? "degrees_east" : g.degree ? "degrees" : "m", ll ? "longitude" : g.degree ? "grid_longitude" : "projection_x_coordinate");
    axis(*s.r, "y", g.y, ll ? "degrees_north" : g.degree ? "degrees" : "m", ll ? "latitude" : g.degree ? "grid_latitude" : "projection_y_coordinate");
    s.r->dim("z", s.nz);
    axis(*s.r, "time", {0, 1}, "hours since 2000-01-01 00:00:00", "time", CDM_DOUBLE, true);
    VD u, v, d;
    for (size_t l = 0; l < s.nz * s.nt; ++l)
        for (size_t j = 0; j < g.y.size(); ++j)
            for (size_t i = 0; i < g.x.size(); ++i) {
                u.push_back(compU(i, j, l));
                v.push_back(compV(i, j, l));
                d.push_back(5 + 40. * l + 17 * i + 11 * j);
            }
    const double su = type == CDM_SHORT ? 0.001 : 1;
    for (double& x : u)
        x /= su;
    for (double& x : v)
        x /= su;
    if (hole) {
        u[g.x.size() + 1] = -999;
        v.back() = -888;
    }
    auto add = [&](const string& nm, const VD& vals, double fill, const string& sn) {
        s.r->var(nm, type, {"x", "y", "z", "time"}, vals);
        s.r->att(nm, "_FillValue", type, {fill});
        s.r->att(nm, "units", "m/s");
        s.r->att(nm, "standard_name", sn);
        if (type == CDM_SHORT)
            s.r->att(nm, "scale_factor", CDM_DOUBLE, {su});
    };
    if (swapped) {
        add("v", v, -888, n.sy);
        add("u", u, -999, n.sx);
    } else {
        add("u", u, -999, n.sx);
        add("v", v, -888, n.sy);
    }
    add("other", u, -999, "air_temperature");
    s.r->var("dir", CDM_DOUBLE, {"x", "y", "z", "time"}, d);
    s.r->att("dir", "units", "degree");
    s.r->att("dir", "standard_name", "wind_from_direction");
    s.r->var("pdir", CDM_SHORT, {"x", "y", "z", "time"}, [&] {
        VD p;
        for (double x : d)
            p.push_back(10 * x);
        return p;
    }());
    s.r->att("pdir", "units", "degree");
    s.r->att("pdir", "scale_factor", CDM_DOUBLE, {0.1});
    s.r->att("pdir", "_FillValue", CDM_SHORT, {-1});
    if (!ll) {
        s.r->var("mapping", CDM_INT, {}, {0});
        for (const auto& att : Projection::createByProj4(g.proj)->getParameters())
            s.r->attData("mapping", att.getName(), att.getData());
        for (const char* nm : {"u", "v", "other", "dir", "pdir"})
            s.r->att(nm, "grid_mapping", "mapping");
    }
    return s;
}

double posIn(const VD& ax, double p)
{
    return (p - ax[0]) / (ax[1] - ax[0]);
}

void checkVectors(const PGrid& g, const PGrid& t, const Names& names, bool hole, CDMDataType type, CDMInterpolator& ip, const VD& px, const VD& py, const VD& lon, const VD& lat, Src& s)
{
    PJT fromG(LL, g.proj), fromT(LL, t.proj);
    const size_t n = px.size();
    const VD u = values(ip.getScaledData("u")), v = values(ip.getScaledData("v")), o = values(ip.getScaledData("other"));
    VF_CHECK(u.size() == n * s.nz * s.nt && v.size() == u.size(), "size " << u.size());
    const double tol = type == CDM_SHORT ? 2e-3 : 1e-4;
    size_t defined = 0;
    for (size_t i = 0; i < n; ++i) {
        const double fx = posIn(g.x, px[i]), fy = posIn(g.y, py[i]);
        const bool in = fx > 1e-6 && fy > 1e-6 && fx < g.x.size() - 1 - 1e-6 && fy < g.y.size() - 1 - 1e-6;
        const bool out = !(fx > -1e-6 && fy > -1e-6 && fx < g.x.size() - 1 + 1e-6 && fy < g.y.size() - 1 + 1e-6);
        for (size_t l = 0; l < s.nz * s.nt; ++l) {
            const size_t k = l * n + i;
            const string what = names.sx + " at output cell " + std::to_string(i) + " layer " + std::to_string(l);
            VF_CHECK(std::isnan(u[k]) == std::isnan(v[k]) || !names.xy, what << ": only one component is defined");
            if (out && (fx < -0.501 || fy < -0.501 || fx > g.x.size() - 0.499 || fy > g.y.size() - 0.499)) {
                VF_CHECK(std::isnan(u[k]) && std::isnan(v[k]), what << ": defined outside of the grid");
                continue;
            }
            if (!in)
                continue;
            double wu = compU(fx, fy, l), wv = compV(fx, fy, l);
            bool hu = false, hv = false;
            if (hole && (std::fabs(fx - std::round(fx)) < 1e-6 || std::fabs(fy - std::round(fy)) < 1e-6))
                continue; // undefined neighbours without weight
            if (hole && l == 0 && fx <= 2 && fy <= 2)
                hu = true;
            if (hole && l == s.nz * s.nt - 1 && fx >= g.x.size() - 2 && fy >= g.y.size() - 2)
                hv = true;
            if (hu || hv) {
                if (names.xy) {
                    VF_CHECK(std::isnan(u[k]) && std::isnan(v[k]), what << ": defined although a component is undefined");
                } else {
                    VF_CHECK(std::isnan(u[k]) == hu && std::isnan(v[k]) == hv, what << ": undefined values do not stay");
                }
                continue;
            }
            VF_CHECK(closeD(o[k], wu, 1e-4, tol), what << ": scalar " << o[k] << " instead of " << wu);
            if (!names.xy) {
                VF_CHECK(closeD(u[k], wu, 1e-4, tol) && closeD(v[k], wv, 1e-4, tol), what << ": not along the grid, but changed from (" << wu << "," << wv << ") to (" << u[k] << "," << v[k] << ")");
                continue;
            }
            if (std::fabs(lat[i]) > 89.7)
                continue;
            const Turn tr = turnAt(g, t, fromG, fromT, lon[i], lat[i]);
            if (std::isnan(tr.phi))
                continue;
            expectTurned(u[k], v[k], wu, wv, tr, tol, what);
            ++defined;
        }
    }
    VF_CHECK(!names.xy || defined > 0, "nothing compared");
    // every slice agrees with the whole
    for (size_t z = 0; z < s.nz; ++z)
        for (size_t tt = 0; tt < s.nt; ++tt)
            for (const char* nm : {"u", "v"}) {
                SliceBuilder sb(ip.getCDM(), nm);
                sb.setStartAndSize("z", z, 1);
                sb.setStartAndSize("time", tt, 1);
                const VD& all = nm[0] == 'u' ? u : v;
                expectClose(ip.getScaledDataSlice(nm, sb), VD(all.begin() + (tt * s.nz + z) * n, all.begin() + (tt * s.nz + z + 1) * n), string("slice of ") + nm, 1e-6, tol);
            }
}

void spaceReader(vf::Explorer& ex)
{
    ex.space("interpolated datasets: every projection pair, vector names along the grid and along geographic axes, undefined components, types, order of the components");
    for (size_t gi = 0; gi < pgrids().size(); ++gi)
        for (size_t ti = 0; ti < pgrids().size(); ++ti)
            for (size_t ni = 0; ni < NAMES.size(); ++ni)
                for (int var = 0; var < (ni == 0 || ni == 4 ? 4 : ex.bound(1, 4)); ++var)
                    for (int place = 0; place < (ti ? 1 : 2); ++place)
                        ex.run([&, gi, ti, ni, var, place] { return NAMES[ni].sx + " from " + pgrids()[gi].name + " to " + (place ? string("places") : pgrids()[ti].name) + ", variant " + std::to_string(var); },
                               [&] {
                                   const PGrid& g = pgrids()[gi];
                                   PGrid t = pgrids()[ti];
                                   if (place)
                                       t = PGrid{"places", LL, true, {}, {}};
                                   double b[4];
                                   if (!box(g, t, b))
                                       return;
                                   const CDMDataType type = var == 2 ? CDM_SHORT : var == 3 ? CDM_DOUBLE : CDM_FLOAT;
                                   Src s = makeSource(g, NAMES[ni], type, var == 1, var == 3 ? BY_UNLIMITED : BY_BUILDER, var & 1);
                                   CDMInterpolator ip(s.r);
                                   PJT toLL(t.proj, LL), toG(t.proj, g.proj), fromT(LL, t.proj);
                                   VD px, py, lon, lat;
                                   ex.step();
                                   if (place) {
                                       for (double fy : {0.3, 1.4, 1.9, 2.6, -3.})
                                           for (double fx : {0.2, 1.6, 2.5, 2.95}) {
                                               double x = g.x[0] + fx * (g.x[1] - g.x[0]), y = g.y[0] + fy * (g.y[1] - g.y[0]);
                                               PJT gl(g.proj, LL);
                                               gl(x, y);
                                               lon.push_back(x);
                                               lat.push_back(y);
                                               toG(x, y);
                                               px.push_back(x);
                                               py.push_back(y);
                                           }
                                       ip.changeProjection(MIFI_INTERPOL_BILINEAR, lon, lat);
                                   } else {
                                       const VD ox = span(b[0], b[1], 4, var & 1), oy = span(b[2], b[3], var == 2 ? 2 : 5, var & 2);
                                       for (double y : oy)
                                           for (double x : ox) {
                                               double p = x, q = y;
                                               toG(p, q);
                                               px.push_back(p);
                                               py.push_back(q);
                                               p = x, q = y;
                                               toLL(p, q);
                                               if (!onPlane(toLL, fromT, x, y, t.degree))
                                                   q = 90; // not compared
                                               lon.push_back(p);
                                               lat.push_back(q);
                                           }
                                       const bool ll = t.proj == LL;
                                       ip.changeProjection(MIFI_INTERPOL_BILINEAR, t.proj, ox, oy, ll ? "degrees_east" : t.degree ? "degrees" : "m", ll ? "degrees_north" : t.degree ? "degrees" : "m", CDM_DOUBLE, CDM_DOUBLE);
                                   }
                                   checkVectors(g, t, NAMES[ni], var == 1, type, ip, px, py, lon, lat, s);
                                   ex.state("r" + std::to_string(gi * 1000 + ti * 10 + ni) + char('0' + var) + char('0' + place));
                               });
}

// ----- filled before or after
void spaceFilled(vf::Explorer& ex)
{
    ex.space("vectors with undefined components filled before the interpolation or after it, every projection pair");
    for (size_t gi = 0; gi < pgrids().size(); ++gi)
        for (size_t ti = 0; ti < pgrids().size(); ++ti)
            for (int post = 0; post < 2; ++post)
                for (int var = 0; var < 2; ++var)
                    ex.run([&, gi, ti, post, var] { return pgrids()[gi].name + " to " + pgrids()[ti].name + (post ? ", filled after" : ", filled before") + " variant " + std::to_string(var); },
                           [&] {
                               const PGrid &g = pgrids()[gi], &t = pgrids()[ti];
                               double b[4];
                               if (!box(g, t, b))
                                   return;
                               Src s = makeSource(g, NAMES[0], CDM_FLOAT, true, BY_BUILDER, var);
                               Src f = makeSource(g, NAMES[0], CDM_FLOAT, true, BY_BUILDER, var);
                               const VD ox = span(b[0], b[1], 4, false), oy = span(b[2], b[3], 5, false);
                               const bool ll = t.proj == LL;
                               auto change = [&](CDMInterpolator& ip) { ip.changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, t.proj, ox, oy, ll ? "degrees_east" : t.degree ? "degrees" : "m", ll ? "degrees_north" : t.degree ? "degrees" : "m", CDM_DOUBLE, CDM_DOUBLE); };
                               // filling by hand
                               auto fill = [&](VD v, size_t nx, size_t ny) {
                                   for (size_t off = 0; off < v.size(); off += nx * ny) {
                                       vector<float> l(v.begin() + off, v.begin() + off + nx * ny);
                                       size_t changed = 0;
                                       mifi_creepfillval2d_f(nx, ny, &l[0], 6.5f, 3, 2, &changed);
                                       std::copy(l.begin(), l.end(), v.begin() + off);
                                   }
                                   return v;
                               };
                               CDMInterpolator ip(s.r), ref(f.r);
                               auto proc = std::make_shared<InterpolatorCreepFillVal2d>(3, 2, 6.5f);
                               ex.step();
                               if (post)
                                   ip.addPostprocess(proc);
                               else
                                   ip.addPreprocess(proc);
                               change(ip);
                               VD want[2];
                               if (!post)
                                   for (const char* n : {"u", "v"})
                                       f.r->full[n] = mk(CDM_FLOAT, fill(values(f.r->getScaledData(n)), g.x.size(), g.y.size()));
                               change(ref);
                               for (int k = 0; k < 2; ++k) {
                                   const string n = k ? "v" : "u";
                                   want[k] = values(ref.getScaledData(n));
                                   if (post)
                                       want[k] = fill(want[k], ox.size(), oy.size());
                                   expectClose(ip.getScaledData(n), want[k], "component " + n, 1e-4, 1e-4);
                               }
                               ex.state("f" + std::to_string(gi * 100 + ti) + char('0' + post) + char('0' + var));
                           });
}

// ----- turned without a change of the grid
void spaceTurnOnly(vf::Explorer& ex)
{
    ex.space("turned on the same grid: every projection, to geographic directions, from geographic directions, there and back, both kinds in one dataset");
    enum Op { TO, FROM, TO_ALL, BACK, BOTH, NOPS };
    const char* opn[] = {"to geographic", "from geographic", "all to geographic", "there and back", "both kinds"};
    for (size_t gi = 0; gi < pgrids().size(); ++gi)
        for (int op = 0; op < NOPS; ++op)
            for (int var = 0; var < 4; ++var)
                ex.run([&, gi, op, var] { return pgrids()[gi].name + ", " + opn[op] + ", variant " + std::to_string(var); },
                       [&] {
                           const PGrid& g = pgrids()[gi];
                           if (g.proj == LL)
                               return; // nothing to turn, no projection to turn from
                           const PGrid L{"geographic", LL, true, {}, {}};
                           const CDMDataType type = var == 2 ? CDM_SHORT : var == 3 ? CDM_DOUBLE : CDM_FLOAT;
                           const Names nm = op == FROM ? NAMES[4] : NAMES[0];
                           Src s = makeSource(g, nm, type, var == 1, var == 3 ? BY_UNLIMITED : BY_BUILDER, var & 1);
                           PJT gl(g.proj, LL), fromG(LL, g.proj), fromL(LL, LL);
                           auto p = std::make_shared<CDMProcessor>(s.r);
                           CDMReader_p r = p;
                           ex.step();
                           int sign = 0, dsign = 0;
                           switch (op) {
                           case TO:
                               p->rotateVectorToLatLon(true, {"u"}, {"v"}, {"eastward_wind"}, {"northward_wind"});
                               p->rotateDirectionToLatLon(true, {"dir", "pdir"});
                               sign = dsign = 1;
                               break;
                           case FROM:
                               p->rotateVectorToLatLon(false, {"u"}, {"v"});
                               p->rotateDirectionToLatLon(false, {"dir", "pdir"});
                               sign = dsign = -1;
                               break;
                           case TO_ALL:
                               p->rotateAllVectorsToLatLon(true);
                               sign = 1;
                               break;
                           case BACK: {
                               p->rotateVectorToLatLon(true, {"u"}, {"v"});
                               p->rotateDirectionToLatLon(true, {"dir", "pdir"});
                               auto q = std::make_shared<CDMProcessor>(p);
                               q->rotateVectorToLatLon(false, {"u"}, {"v"});
                               q->rotateDirectionToLatLon(false, {"dir", "pdir"});
                               r = q;
                               break;
                           }
                           case BOTH:
                               p->rotateVectorToLatLon(true, {"u"}, {"v"});
                               p->rotateDirectionToLatLon(false, {"dir", "pdir"});
                               sign = 1;
                               dsign = -1;
                               break;
                           }
                           if (op == TO) {
                               VF_CHECK(r->getCDM().getAttribute("u", "standard_name").getStringValue() == "eastward_wind", "standard name of u");
                               VF_CHECK(r->getCDM().getAttribute("v", "standard_name").getStringValue() == "northward_wind", "standard name of v");
                           }
                           const size_t n = g.x.size() * g.y.size();
                           const VD u0 = values(s.r->getScaledData("u")), v0 = values(s.r->getScaledData("v"));
                           const VD d0 = values(s.r->getScaledData("dir"));
                           const VD u = values(r->getScaledData("u")), v = values(r->getScaledData("v"));
                           const VD d = values(r->getScaledData("dir")), pd = values(r->getScaledData("pdir"));
                           const double tol = type == CDM_SHORT ? 2e-3 : 1e-4;
                           VF_CHECK(u.size() == u0.size() && v.size() == v0.size() && d.size() == d0.size(), "sizes");
                           for (size_t k = 0; k < u0.size(); ++k) {
                               const size_t i = k % n;
                               double lon = g.x[i % g.x.size()], lat = g.y[i / g.x.size()];
                               gl(lon, lat);
                               if (std::fabs(lat) > 89.7)
                                   continue;
                               const Turn tr = turnAt(g, L, fromG, fromL, lon, lat);
                               Turn tv = tr;
                               tv.phi = sign * tr.phi;
                               const string what = "cell " + std::to_string(i) + " layer " + std::to_string(k / n);
                               if (!sign)
                                   tv.spread = 0;
                               expectTurned(u[k], v[k], u0[k], v0[k], tv, 2 * tol, what);
                               for (double got : {d[k], pd[k]}) {
                                   VF_CHECK(got >= -0.1 && got <= 360.1 , what << ": direction " << got);
                                   const double want = d0[k] * D2R - dsign * tr.phi;
                                   VF_CHECK(std::fabs(angDiff(got * D2R, want)) <= 4e-3 + (dsign ? tr.spread : 0), what << ": direction " << d0[k] << " turned to " << got << " instead of " << want / D2R);
                               }
                           }
                           expectValues(r->getData("other"), values(s.r->getData("other")), "scalar variable");
                           for (size_t z = 0; z < s.nz; ++z)
                               for (const char* nm2 : {"u", "v", "dir"}) {
                                   SliceBuilder sb(r->getCDM(), nm2);
                                   sb.setStartAndSize("z", z, 1);
                                   sb.setStartAndSize("time", 1, 1);
                                   const VD& all = nm2[0] == 'u' ? u : nm2[0] == 'v' ? v : d;
                                   expectClose(r->getScaledDataSlice(nm2, sb), VD(all.begin() + (s.nz + z) * n, all.begin() + (s.nz + z + 1) * n), string("slice of ") + nm2, 1e-6, tol);
                               }
                           ex.state("t" + std::to_string(gi) + char('0' + op) + char('0' + var));
                       });
}

} // namespace

void vf::explore(Explorer& ex)
{
    spaceMatrix(ex);
    spaceReader(ex);
    spaceFilled(ex);
    spaceTurnOnly(ex);
}
