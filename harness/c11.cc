// C11: forward interpolation puts every source cell into its target cell and aggregates
#include "fx.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"

#include <proj.h>

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
const string LL = "+proj=latlong +R=6371000 +no_defs";

struct Method
{
    int id;
    string name;
    string kind;
    bool undef;
};
const vector<Method> METHODS = {
    {MIFI_INTERPOL_FORWARD_SUM, "forward_sum", "sum", false},
    {MIFI_INTERPOL_FORWARD_MEAN, "forward_mean", "mean", false},
    {MIFI_INTERPOL_FORWARD_MEDIAN, "forward_median", "median", false},
    {MIFI_INTERPOL_FORWARD_MAX, "forward_max", "max", false},
    {MIFI_INTERPOL_FORWARD_MIN, "forward_min", "min", false},
    {MIFI_INTERPOL_FORWARD_UNDEF_SUM, "forward_undef_sum", "sum", true},
    {MIFI_INTERPOL_FORWARD_UNDEF_MEAN, "forward_undef_mean", "mean", true},
    {MIFI_INTERPOL_FORWARD_UNDEF_MEDIAN, "forward_undef_median", "median", true},
    {MIFI_INTERPOL_FORWARD_UNDEF_MAX, "forward_undef_max", "max", true},
    {MIFI_INTERPOL_FORWARD_UNDEF_MIN, "forward_undef_min", "min", true},
};

/// check one aggregated value
bool aggOk(const Method& m, VD vals, double got, string& want)
{
    VD def;
    bool hasNan = false;
    for (double v : vals) {
        if (std::isnan(v))
            hasNan = true;
        else
            def.push_back(v);
    }
    if (def.empty() || (m.undef && hasNan)) {
        want = "undefined";
        return std::isnan(got);
    }
    std::sort(def.begin(), def.end());
    double sum = 0;
    for (double v : def)
        sum += v;
    double lo, hi;
    if (m.kind == "sum")
        lo = hi = sum;
    else if (m.kind == "mean")
        lo = hi = sum / def.size();
    else if (m.kind == "max")
        lo = hi = def.back();
    else if (m.kind == "min")
        lo = hi = def.front();
    else {
        lo = def[(def.size() - 1) / 2];
        hi = def[def.size() / 2];
    }
    want = std::to_string(lo) + ".." + std::to_string(hi);
    return got >= lo - 1e-4 * (1 + std::fabs(lo)) && got <= hi + 1e-4 * (1 + std::fabs(hi));
}

void spaceNames(vf::Explorer& ex)
{
    ex.space("method names");
    vector<std::pair<string, int>> names = {{"bilinear", MIFI_INTERPOL_BILINEAR}, {"nearestneighbor", MIFI_INTERPOL_NEAREST_NEIGHBOR}, {"bicubic", MIFI_INTERPOL_BICUBIC},
                                            {"coord_nearestneighbor", MIFI_INTERPOL_COORD_NN}, {"coord_kdtree", MIFI_INTERPOL_COORD_NN_KD}};
    for (const Method& m : METHODS)
        names.push_back({m.name, m.id});
    for (const char* n : {"", "linear", "BILINEAR", "forward", "forward_", "forward_undef", "bilinear ", "forward_summ", "forward_su", "nearestneighbou"})
        names.push_back({n, MIFI_INTERPOL_UNKNOWN});
    for (const auto& n : names)
        ex.run([=] { return "method '" + n.first + "'"; },
               [&] {
                   ex.step();
                   const int got = mifi_string_to_interpolation_method(n.first.c_str());
                   VF_CHECK(got == n.second, "method number " << got << " instead of " << n.second);
                   ex.state(n.first);
               });
}

// ----- every assignment of source cells to target cells
void spaceAssignments(vf::Explorer& ex)
{
    ex.space("all assignments of four source cells to four target cells or outside, all patterns of undefined values, all methods");
    const VD ox = {10, 20}, oy = {50, 60};
    const double jx[4] = {0, 3, -4, 1}, jy[4] = {-4, 0, 2, 4};
    for (int a = 0; a < 625; ++a)
        ex.run([=] { return "assignment " + std::to_string(a); },
               [&] {
                   int cell[4], q = a;
                   VD lon, lat;
                   for (int i = 0; i < 4; ++i) {
                       cell[i] = q % 5 - 1;
                       q /= 5;
                       if (cell[i] < 0) {
                           const double out[4][2] = {{100, 55}, {15, 80}, {10, 40}, {NaN, NaN}};
                           lon.push_back(out[i][0]);
                           lat.push_back(out[i][1]);
                       } else {
                           lon.push_back(ox[cell[i] % 2] + jx[i]);
                           lat.push_back(oy[cell[i] / 2] + jy[i]);
                       }
                   }
                   auto r = std::make_shared<TestReader>();
                   r->att("", "Conventions", "CF-1.6");
                   r->dim("i", 2);
                   r->dim("j", 2);
                   r->dim("z", 16);
                   r->var("lon", CDM_DOUBLE, {"i", "j"}, lon);
                   r->att("lon", "units", "degrees_east");
                   r->att("lon", "standard_name", "longitude");
                   r->var("lat", CDM_DOUBLE, {"i", "j"}, lat);
                   r->att("lat", "units", "degrees_north");
                   r->att("lat", "standard_name", "latitude");
                   VD v;
                   const double base[4] = {3, -7, 12, 5};
                   for (int mask = 0; mask < 16; ++mask)
                       for (int i = 0; i < 4; ++i)
                           v.push_back(mask & (1 << i) ? -99 : base[i] + mask * (i == 2 ? 2 : -1));
                   r->var("v", CDM_FLOAT, {"i", "j", "z"}, v);
                   r->att("v", "coordinates", "lon lat");
                   r->att("v", "_FillValue", CDM_FLOAT, {-99});
                   for (const Method& m : METHODS) {
                       CDMInterpolator ip(r);
                       ex.step();
                       ip.changeProjection(m.id, LL, ox, oy, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                       const VD got = values(ip.getScaledData("v"));
                       VF_CHECK(got.size() == 64, "size " << got.size());
                       for (int mask = 0; mask < 16; ++mask)
                           for (int o = 0; o < 4; ++o) {
                               VD in;
                               for (int i = 0; i < 4; ++i)
                                   if (cell[i] == o)
                                       in.push_back(mask & (1 << i) ? NaN : v[mask * 4 + i]);
                               string want;
                               VF_CHECK(aggOk(m, in, got[mask * 4 + o], want), m.name << ", layer " << mask << ", target cell " << o << " of source values " << str(in) << ": " << got[mask * 4 + o] << " instead of " << want);
                           }
                   }
                   ex.state(std::to_string(a));
               });
}

// ----- grids
void transform(const string& from, const string& to, VD& x, VD& y)
{
    PJ_CONTEXT* ctx = proj_context_create();
    PJ* p = proj_create_crs_to_crs(ctx, from.c_str(), to.c_str(), nullptr);
    VF_CHECK(p, "cannot create transformation " << from << " to " << to);
    for (size_t i = 0; i < x.size(); ++i) {
        PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(x[i], y[i], 0, 0));
        x[i] = c.xy.x;
        y[i] = c.xy.y;
        if (!std::isfinite(x[i]) || !std::isfinite(y[i]))
            x[i] = y[i] = NaN;
    }
    proj_destroy(p);
    proj_context_destroy(ctx);
}

struct SrcGrid
{
    string name, proj;
    bool degree;
    VD x, y;
};
struct Target
{
    string name, proj;
    bool degree;
    VD x, y;
};

VD range(double a, double d, int n)
{
    VD r;
    for (int i = 0; i < n; ++i)
        r.push_back(a + d * i);
    return r;
}

/// cell of the axis; -1: outside, -2: on a border
int cellOf(const VD& ax, double p, bool lon)
{
    const int n = ax.size();
    if (std::isnan(p))
        return -1;
    for (int k = lon ? -2 : 0; k <= (lon ? 2 : 0); ++k) {
        const double q = p + 360 * k;
        for (int i = 0; i < n; ++i) {
            const double lo = i > 0 ? (ax[i] + ax[i - 1]) / 2 : ax[0] - (ax[1] - ax[0]) / 2;
            const double hi = i + 1 < n ? (ax[i] + ax[i + 1]) / 2 : ax[n - 1] + (ax[n - 1] - ax[n - 2]) / 2;
            const double w = std::fabs(hi - lo);
            if (std::fabs(q - lo) < 1e-6 * w || std::fabs(q - hi) < 1e-6 * w)
                return -2;
            if (q > std::min(lo, hi) && q < std::max(lo, hi))
                return i;
        }
    }
    return -1;
}

void spaceGrids(vf::Explorer& ex)
{
    ex.space("grids: every source grid to every target grid, all methods, full reads and all slices");
    const string ST = "+proj=stere +lat_0=90 +lon_0=0 +lat_ts=60 +R=6371000 +no_defs", LC = "+proj=lcc +lat_0=63 +lon_0=15 +lat_1=63 +lat_2=63 +R=6371000 +no_defs",
                 RP = "+proj=ob_tran +o_proj=longlat +lon_0=-40 +o_lat_p=22 +R=6371000 +no_defs";
    const vector<SrcGrid> src = {
        {"geographic", LL, true, range(0.1, 1, 9), range(56.07, 1, 8)},
        {"geographic descending", LL, true, range(8.1, -1, 9), range(63.07, -1, 8)},
        {"geographic 0..360", LL, true, range(0.13, 30, 12), range(-80.1, 20, 9)},
        {"geographic date line", LL, true, range(175.13, 1.3, 9), range(56.07, 1, 8)},
        {"stereographic", ST, false, range(10003, 70001, 9), range(-3600007, 70003, 8)},
        {"rotated pole", RP, true, range(10.03, 1.01, 9), range(-10.07, 1.02, 8)},
        {"wide", LL, true, range(-20.1, 2, 30), range(40.07, 2, 25)},
    };
    const vector<Target> tgt = {
        {"geographic coarse", LL, true, range(1, 3, 3), range(57, 3, 2)},
        {"geographic fine", LL, true, range(1, 0.4, 7), range(57, 0.4, 6)},
        {"geographic descending", LL, true, range(7, -2, 4), range(62, -2, 3)},
        {"geographic global", LL, true, range(-180, 60, 6), range(-75, 30, 6)},
        {"geographic 0..360", LL, true, range(0, 90, 4), range(75, -30, 6)},
        {"stereographic", ST, false, range(0, 150000, 4), range(-3600000, 200000, 3)},
        {"lambert", LC, false, range(-700000, 130000, 4), range(-500000, 150000, 4)},
        {"rotated pole", RP, true, range(10, 2, 3), range(-9, 2, 3)},
        {"far away", LL, true, range(-100, 1, 3), range(-50, 1, 2)},
    };
    for (const SrcGrid& s : src)
        for (const Target& t : tgt)
            for (const Method& m : METHODS)
                ex.run([&] { return m.name + ", " + s.name + " to " + t.name; },
                       [&] {
                           const size_t nx = s.x.size(), ny = s.y.size(), nz = 2, nt = 2, nxy = nx * ny, mx = t.x.size(), my = t.y.size(), nout = mx * my;
                           auto r = std::make_shared<TestReader>(BY_BUILDER);
                           r->att("", "Conventions", "CF-1.6");
                           const bool ll = s.proj == LL;
                           axis(*r, "x", s.x, ll ? "degrees_east" : s.degree ? "degrees" : "m", ll ? "longitude" : s.degree ? "grid_longitude" : "projection_x_coordinate");
                           axis(*r, "y", s.y, ll ? "degrees_north" : s.degree ? "degrees" : "m", ll ? "latitude" : s.degree ? "grid_latitude" : "projection_y_coordinate");
                           r->dim("z", nz);
                           axis(*r, "time", {0, 1}, "hours since 2000-01-01 00:00:00", "time", CDM_DOUBLE, true);
                           VD v, raw;
                           for (size_t i = 0; i < nxy * nz * nt; ++i) {
                               v.push_back(i % 11 == 4 ? NaN : double((i * 13) % 101) - 20);
                               raw.push_back(std::isnan(v.back()) ? -99 : v.back());
                           }
                           r->var("v", CDM_FLOAT, {"x", "y", "z", "time"}, raw);
                           r->att("v", "_FillValue", CDM_FLOAT, {-99});
                           if (!ll) {
                               r->var("mapping", CDM_INT, {}, {0});
                               for (const auto& att : Projection::createByProj4(s.proj)->getParameters())
                                   r->attData("mapping", att.getName(), att.getData());
                               r->att("v", "grid_mapping", "mapping");
                           }
                           const bool tll = t.proj == LL;
                           CDMInterpolator ip(r);
                           ex.step(2);
                           ip.changeProjection(m.id, t.proj, t.x, t.y, tll ? "degrees_east" : t.degree ? "degrees" : "m", tll ? "degrees_north" : t.degree ? "degrees" : "m", CDM_DOUBLE, CDM_DOUBLE);
                           const VD got = values(ip.getScaledData("v"));
                           VF_CHECK(got.size() == nout * nz * nt, "size " << got.size());
                           // where the source cells go
                           VD px, py;
                           for (double y : s.y)
                               for (double x : s.x) {
                                   px.push_back(x);
                                   py.push_back(y);
                               }
                           if (!ll)
                               transform(s.proj, LL, px, py);
                           if (!tll)
                               transform(LL, t.proj, px, py);
                           vector<vector<size_t>> in(nout);
                           for (size_t i = 0; i < nxy; ++i) {
                               const int cx = cellOf(t.x, px[i], t.degree), cy = cellOf(t.y, py[i], false);
                               VF_CHECK(cx != -2 && cy != -2, "harness: source cell " << i << " at the border of a target cell: " << px[i] << "," << py[i]);
                               if (cx >= 0 && cy >= 0)
                                   in[cy * mx + cx].push_back(i);
                           }
                           for (size_t k = 0; k < nz * nt; ++k)
                               for (size_t o = 0; o < nout; ++o) {
                                   VD vals;
                                   for (size_t i : in[o])
                                       vals.push_back(v[k * nxy + i]);
                                   string want;
                                   VF_CHECK(aggOk(m, vals, got[k * nout + o], want), "layer " << k << ", target cell (" << t.x[o % mx] << "," << t.y[o / mx] << ") of source values " << str(vals) << ": " << got[k * nout + o] << " instead of " << want);
                               }
                           // slices
                           const VS dims = {mx, my, nz, nt};
                           for (size_t u = 0; u < nt; ++u)
                               expectValues(ip.getScaledDataSlice("v", u), refSlice(got, dims, {0, 0, 0, u}, {mx, my, nz, 1}), "unlimited position " + std::to_string(u));
                           if (m.id == MIFI_INTERPOL_FORWARD_SUM || m.id == MIFI_INTERPOL_FORWARD_UNDEF_MAX)
                               for (size_t x0 = 0; x0 < mx; ++x0)
                                   for (size_t y0 = 0; y0 < my; ++y0)
                                       for (size_t z0 = 0; z0 < nz; ++z0) {
                                           SliceBuilder sb(ip.getCDM(), "v");
                                           sb.setStartAndSize("x", x0, mx - x0);
                                           sb.setStartAndSize("y", y0, 1);
                                           sb.setStartAndSize("z", z0, 1);
                                           sb.setStartAndSize("time", 1, 1);
                                           ex.step();
                                           expectValues(ip.getScaledDataSlice("v", sb), refSlice(got, dims, {x0, y0, z0, 1}, {mx - x0, 1, 1, 1}), "slice");
                                       }
                           ex.state(m.name + s.name + t.name);
                       });
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceNames(ex);
    spaceAssignments(ex);
    spaceGrids(ex);
}
