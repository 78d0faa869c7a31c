// datasets with vertical coordinates of every kind, and the coordinates by the CF formulas
#pragma once
#include "fx.h"
#include "fimex/mifi_constants.h"

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();
const double G = 9.80665, RGAS = 8.31432, MDRY = 0.0289644;

typedef std::function<double(size_t, size_t, size_t, size_t)> Coord; // x,y,k,t

enum Kind {
    PRESSURE_HPA,
    PRESSURE_PA,
    HEIGHT_M,
    HEIGHT_KM,
    ALTITUDE,
    DEPTH,
    SIGMA,
    HYBRID_A,
    HYBRID_AP,
    LNP,
    OCEAN_G1,
    OCEAN_G2,
    OCEAN_G2_NOETA,
    HYBRID_HEIGHT,
    P_GEOPOT,
    HYBRID_PVAR,
    HYBRID_INTEGRATE,
    HYBRID_INTEGRATE_HUM,
    NKINDS
};
const char* kindName[] = {"pressure in hPa",     "pressure in Pa",        "height",          "height in km",   "altitude",
                          "depth",               "sigma",                 "hybrid a,p0",     "hybrid ap",      "ln pressure",
                          "ocean s g1",          "ocean s g2",            "ocean s g2, no eta", "hybrid height", "pressure with geopotential height",
                          "hybrid with pressure variable", "hybrid with temperature", "hybrid with temperature and humidity"};

enum Target { T_PRESSURE, T_HEIGHT, T_ALTITUDE, T_DEPTH };
const char* targetName[] = {"pressure", "height", "altitude", "depth"};
const int targetVint[] = {MIFI_VINT_PRESSURE, MIFI_VINT_HEIGHT, MIFI_VINT_ALTITUDE, MIFI_VINT_DEPTH};

enum TimeMode { UNLIM2, FIXED2, UNLIM1, UNLIM3 };
const char* timeName[] = {"2 times, unlimited", "2 times, fixed", "1 time, unlimited", "3 times, unlimited"};

enum Topo { NO_TOPO, TOPO_ALT, TOPO_GEOPOT, TOPO_TIME };

struct DS
{
    TestReader_p r;
    size_t nx = 3, ny = 2, nt = 2;
    bool unlimited = true;
    bool packedTerms = false;
    Topo topo = NO_TOPO;
    bool hasTopo = false;

    size_t ntime() const { return nt; }
    double topoAt(size_t x, size_t y, size_t t) const { return topo == NO_TOPO ? NaN : 20. + 15. * x + 40. * y + (topo == TOPO_TIME ? 5. * t : 0.); }
};

struct ZA ///< a vertical axis of a dataset
{
    string dim;
    size_t nz = 0;
    bool exact = false;             ///< coordinates are exact in float
    Coord at[4];                    ///< per target
    std::function<double(size_t, size_t, size_t)> vmin, vmax; ///< x,y,t
    vector<string> vars;            ///< helper variables
};

void horizontal(DS& ds)
{
    TestReader& r = *ds.r;
    r.att("", "Conventions", "CF-1.4");
    VD lon, lat, tim;
    for (size_t i = 0; i < ds.nx; ++i)
        lon.push_back(5 + 0.5 * i);
    for (size_t i = 0; i < ds.ny; ++i)
        lat.push_back(60 + 0.25 * i);
    for (size_t i = 0; i < ds.nt; ++i)
        tim.push_back(100 + 6. * i);
    axis(r, "lon", lon, "degrees_east", "longitude");
    axis(r, "lat", lat, "degrees_north", "latitude");
    axis(r, "time", tim, "hours since 2020-01-01 00:00:00", "time", CDM_DOUBLE, ds.unlimited);
}

typedef std::function<double(size_t, size_t, size_t, size_t)> F4;

/// variable over (lon,lat[,z][,time]) with a function
void field(DS& ds, const string& name, CDMDataType type, const vector<string>& shape, const string& zdim, size_t nz, const F4& f)
{
    VD v;
    bool hx = false, hy = false, hz = false, ht = false;
    for (const string& d : shape) {
        hx |= d == "lon";
        hy |= d == "lat";
        hz |= d == zdim;
        ht |= d == "time";
    }
    for (size_t t = 0; t < (ht ? ds.nt : 1); ++t)
        for (size_t k = 0; k < (hz ? nz : 1); ++k)
            for (size_t y = 0; y < (hy ? ds.ny : 1); ++y)
                for (size_t x = 0; x < (hx ? ds.nx : 1); ++x)
                    v.push_back(f(x, y, k, t));
    ds.r->var(name, type, shape, v);
}

/// surface-like term, optionally packed
double term(DS& ds, const string& name, const string& unit, const vector<string>& shape, double scale, const F4& f)
{
    if (ds.packedTerms) {
        field(ds, name, CDM_INT, shape, "", 0, [&](size_t x, size_t y, size_t k, size_t t) { return std::round((f(x, y, k, t) * scale - 7 * scale) / (0.25 * scale)); });
        ds.r->att(name, "scale_factor", CDM_DOUBLE, {0.25 * scale});
        ds.r->att(name, "add_offset", CDM_DOUBLE, {7 * scale});
    } else {
        field(ds, name, CDM_DOUBLE, shape, "", 0, [&](size_t x, size_t y, size_t k, size_t t) { return f(x, y, k, t) * scale; });
    }
    ds.r->att(name, "units", unit);
    return 0;
}

void topography(DS& ds)
{
    if (ds.topo == NO_TOPO || ds.hasTopo)
        return;
    ds.hasTopo = true;
    const bool geo = ds.topo == TOPO_GEOPOT;
    vector<string> shape = {"lon", "lat"};
    if (ds.topo == TOPO_TIME)
        shape.push_back("time");
    DS* d = &ds;
    field(ds, "topo", CDM_DOUBLE, shape, "", 0, [=](size_t x, size_t y, size_t, size_t t) { return d->topoAt(x, y, t) * (geo ? G : 1); });
    ds.r->att("topo", "units", geo ? "m^2/s^2" : "m");
    ds.r->att("topo", "standard_name", geo ? "surface_geopotential" : "surface_altitude");
}

/// temperature of the levels
double airT(size_t x, size_t y, size_t k, size_t t)
{
    return 260 + 3. * k + x + 2. * y + 0.5 * t;
}
double specHum(size_t x, size_t, size_t k, size_t)
{
    return 0.001 * (k + 1) + 0.0005 * x;
}

/** add a vertical axis of the kind; pre: prefix of all its names */
ZA addAxis(DS& ds, Kind kind, bool reverse, size_t nz, const string& pre, bool surfaceTime = true)
{
    TestReader& r = *ds.r;
    ZA z;
    z.dim = pre + "lev";
    z.nz = nz;
    auto order = [&](VD v) {
        v.resize(nz);
        if (reverse)
            std::reverse(v.begin(), v.end());
        return v;
    };
    auto ps = [=](size_t x, size_t y, size_t, size_t t) { return 1000 + 4. * x - 6. * y + (surfaceTime ? 2. * t : 0); };
    vector<string> sshape = {"lon", "lat"};
    if (surfaceTime)
        sshape.push_back("time");
    const double hPa = 100;
    const DS dsc = ds;
    auto topo = [dsc](size_t x, size_t y, size_t t) { return dsc.topoAt(x, y, t); };
    auto zt = [&](const VD& v, const string& unit, const string& std, const string& positive, const string& terms) {
        axis(r, z.dim, v, unit, std);
        if (!positive.empty())
            r.att(z.dim, "positive", positive);
        if (!terms.empty())
            r.att(z.dim, "formula_terms", terms);
        r.att(z.dim, "axis", "Z");
    };
    auto kvar = [&](const string& name, const VD& v, const string& unit) {
        r.var(name, CDM_DOUBLE, {z.dim}, v);
        if (!unit.empty())
            r.att(name, "units", unit);
        z.vars.push_back(name);
    };
    auto scalar = [&](const string& name, double v, const string& unit) {
        r.var(name, CDM_DOUBLE, {}, {v});
        if (!unit.empty())
            r.att(name, "units", unit);
        z.vars.push_back(name);
    };
    auto standardAltitude = [&]() {
        const Coord p = z.at[T_PRESSURE];
        z.at[T_ALTITUDE] = [p](size_t x, size_t y, size_t k, size_t t) { return -RGAS / (G * MDRY) * 288.15 * std::log(p(x, y, k, t) / 1013.25); };
    };
    auto heightByTopo = [&]() {
        if (ds.topo == NO_TOPO || !z.at[T_ALTITUDE])
            return;
        const Coord a = z.at[T_ALTITUDE];
        z.at[T_HEIGHT] = [a, topo](size_t x, size_t y, size_t k, size_t t) { return a(x, y, k, t) - topo(x, y, t); };
    };

    switch (kind) {
    case PRESSURE_HPA:
    case PRESSURE_PA:
    case P_GEOPOT: {
        const VD v = order({200, 500, 850, 1000});
        const double f = kind == PRESSURE_PA ? hPa : 1;
        VD w = v;
        for (double& x : w)
            x *= f;
        zt(w, kind == PRESSURE_PA ? "Pa" : "hPa", "air_pressure", "down", "");
        z.exact = true;
        z.at[T_PRESSURE] = [v](size_t, size_t, size_t k, size_t) { return v[k]; };
        if (kind == P_GEOPOT) {
            auto gh = [v](size_t x, size_t y, size_t k, size_t t) { return 16. * (1100 - v[k]) + 3. * x + 11. * y + 2. * t; };
            field(ds, pre + "gh", CDM_FLOAT, {"lon", "lat", z.dim, "time"}, z.dim, nz, gh);
            r.att(pre + "gh", "units", "m");
            r.att(pre + "gh", "standard_name", "geopotential_height");
            z.vars.push_back(pre + "gh");
            z.at[T_ALTITUDE] = gh;
        } else {
            standardAltitude();
        }
        heightByTopo();
        break;
    }
    case HEIGHT_M:
    case HEIGHT_KM: {
        const VD v = order({2, 10, 100, 500});
        const double f = kind == HEIGHT_KM ? 0.001 : 1;
        VD w = v;
        for (double& x : w)
            x *= f;
        zt(w, kind == HEIGHT_KM ? "km" : "m", "height", "up", "");
        z.exact = kind == HEIGHT_M;
        z.at[T_HEIGHT] = [v](size_t, size_t, size_t k, size_t) { return v[k]; };
        if (ds.topo != NO_TOPO)
            z.at[T_ALTITUDE] = [v, topo](size_t x, size_t y, size_t k, size_t t) { return v[k] + topo(x, y, t); };
        break;
    }
    case ALTITUDE: {
        const VD v = order({100, 300, 700, 1500});
        zt(v, "m", "altitude", "up", "");
        z.exact = true;
        z.at[T_ALTITUDE] = [v](size_t, size_t, size_t k, size_t) { return v[k]; };
        heightByTopo();
        break;
    }
    case DEPTH: {
        const VD v = order({0, 5, 20, 100});
        zt(v, "m", "depth", "down", "");
        z.exact = true;
        z.at[T_DEPTH] = [v](size_t, size_t, size_t k, size_t) { return v[k]; };
        break;
    }
    case SIGMA: {
        const VD v = order({0.125, 0.5, 0.75, 1});
        zt(v, "1", "atmosphere_sigma_coordinate", "down", "sigma: " + z.dim + " ps: " + pre + "ps ptop: " + pre + "ptop");
        scalar(pre + "ptop", 10, "hPa");
        term(ds, pre + "ps", "Pa", sshape, hPa, ps);
        z.at[T_PRESSURE] = [v, ps](size_t x, size_t y, size_t k, size_t t) { return 10 + v[k] * (ps(x, y, k, t) - 10); };
        standardAltitude();
        heightByTopo();
        break;
    }
    case HYBRID_A:
    case HYBRID_AP:
    case HYBRID_PVAR:
    case HYBRID_INTEGRATE:
    case HYBRID_INTEGRATE_HUM: {
        const VD a = order({0.125, 0.25, 0.0625, 0}), b = order({0, 0.25, 0.75, 0.99});
        VD lev, ap;
        const double p0 = 800;
        for (size_t k = 0; k < nz; ++k) {
            lev.push_back(a[k] + b[k]);
            ap.push_back(a[k] * p0 * hPa);
        }
        const bool useA = kind == HYBRID_A;
        zt(lev, "1", "atmosphere_hybrid_sigma_pressure_coordinate", "down",
           useA ? "a: " + pre + "a b: " + pre + "b ps: " + pre + "ps p0: " + pre + "p0" : "ap: " + pre + "ap b: " + pre + "b ps: " + pre + "ps");
        if (useA) {
            kvar(pre + "a", a, "1");
            scalar(pre + "p0", p0 * hPa, "Pa");
        } else {
            kvar(pre + "ap", ap, "Pa");
        }
        kvar(pre + "b", b, "1");
        term(ds, pre + "ps", "Pa", sshape, hPa, ps);
        r.att(pre + "ps", "standard_name", "surface_air_pressure");
        z.at[T_PRESSURE] = [=](size_t x, size_t y, size_t k, size_t t) { return a[k] * p0 + b[k] * ps(x, y, k, t); };
        if (kind == HYBRID_PVAR) {
            // the dataset knows the pressure itself, and it is not what the formula says
            const Coord f = z.at[T_PRESSURE];
            z.at[T_PRESSURE] = [f](size_t x, size_t y, size_t k, size_t t) { return f(x, y, k, t) + 12 + x; };
            field(ds, pre + "air_p", CDM_DOUBLE, {"lon", "lat", z.dim, "time"}, z.dim, nz, [&](size_t x, size_t y, size_t k, size_t t) { return 100 * z.at[T_PRESSURE](x, y, k, t); });
            r.att(pre + "air_p", "units", "Pa");
            r.att(pre + "air_p", "standard_name", "air_pressure");
            z.vars.push_back(pre + "air_p");
        }
        if (kind == HYBRID_INTEGRATE || kind == HYBRID_INTEGRATE_HUM) {
            field(ds, pre + "ta", CDM_DOUBLE, {"lon", "lat", z.dim, "time"}, z.dim, nz, [&](size_t x, size_t y, size_t k, size_t t) { return airT(x, y, k, t) - 273.15; });
            r.att(pre + "ta", "units", "degC");
            r.att(pre + "ta", "standard_name", "air_temperature");
            z.vars.push_back(pre + "ta");
            const bool hum = kind == HYBRID_INTEGRATE_HUM;
            if (hum) {
                field(ds, pre + "hus", CDM_DOUBLE, {"lon", "lat", z.dim, "time"}, z.dim, nz, specHum);
                r.att(pre + "hus", "units", "1");
                r.att(pre + "hus", "standard_name", "specific_humidity");
                z.vars.push_back(pre + "hus");
            }
            ds.topo = TOPO_GEOPOT;
            const DS dst = ds;
            const Coord p = z.at[T_PRESSURE];
            z.at[T_ALTITUDE] = [=](size_t x, size_t y, size_t k, size_t t) {
                // integrate from the surface to the level
                double alt = dst.topoAt(x, y, t), below = ps(x, y, 0, t);
                for (size_t i = 0; i < nz; ++i) {
                    const size_t kk = reverse ? i : nz - 1 - i; // from the ground
                    const double pk = p(x, y, kk, t);
                    const double T = airT(x, y, kk, t) * (hum ? 1 + 0.60771704180064308681 * specHum(x, y, kk, t) : 1);
                    alt += std::log(below / pk) * T * RGAS / (G * MDRY);
                    if (kk == k)
                        return alt;
                    below = pk;
                }
                return NaN;
            };
            auto tp = [dst](size_t x, size_t y, size_t t) { return dst.topoAt(x, y, t); };
            const Coord al = z.at[T_ALTITUDE];
            z.at[T_HEIGHT] = [al, tp](size_t x, size_t y, size_t k, size_t t) { return al(x, y, k, t) - tp(x, y, t); };
        } else {
            standardAltitude();
            heightByTopo();
        }
        break;
    }
    case LNP: {
        const VD v = order({1.5, 0.75, 0.25, 0.125});
        zt(v, "1", "atmosphere_ln_pressure_coordinate", "down", "p0: " + pre + "p0 lev: " + z.dim);
        scalar(pre + "p0", 1000 * hPa, "Pa");
        z.at[T_PRESSURE] = [v](size_t, size_t, size_t k, size_t) { return 1000 * std::exp(-v[k]); };
        standardAltitude();
        heightByTopo();
        break;
    }
    case OCEAN_G1:
    case OCEAN_G2:
    case OCEAN_G2_NOETA: {
        const VD s = order({-0.95, -0.6, -0.25, -0.05}), C = order({-0.9, -0.4, -0.1, -0.01});
        const bool g1 = kind == OCEAN_G1, hasEta = kind != OCEAN_G2_NOETA;
        zt(s, "1", g1 ? "ocean_s_coordinate_g1" : "ocean_s_coordinate_g2", "up",
           "s: " + z.dim + " C: " + pre + "C depth: " + pre + "depth depth_c: " + pre + "hc" + (hasEta ? " eta: " + pre + "eta" : ""));
        kvar(pre + "C", C, "1");
        scalar(pre + "hc", 10, "m");
        auto depth = [](size_t x, size_t y, size_t, size_t) { return 40. + 60 * x + 25 * y; };
        auto eta = [=](size_t x, size_t y, size_t, size_t t) { return hasEta ? 0.5 * x - 0.75 * y + (surfaceTime ? 0.25 * t : 0) : 0.; };
        term(ds, pre + "depth", "m", {"lon", "lat"}, 1, depth);
        if (hasEta)
            term(ds, pre + "eta", "m", sshape, 1, eta);
        z.at[T_DEPTH] = [=](size_t x, size_t y, size_t k, size_t t) {
            const double d = depth(x, y, 0, t), e = eta(x, y, 0, t), hc = 10;
            if (g1) {
                const double S = hc * s[k] + (d - hc) * C[k];
                return -(S + e * (1 + S / d));
            } else {
                const double S = (hc * s[k] + d * C[k]) / (hc + d);
                return -(e + (e + d) * S);
            }
        };
        if (hasEta)
            z.vmin = [=](size_t x, size_t y, size_t t) { return -eta(x, y, 0, t); };
        z.vmax = [=](size_t x, size_t y, size_t t) { return depth(x, y, 0, t); };
        break;
    }
    case HYBRID_HEIGHT: {
        const VD a = order({1500, 700, 200, 20}), b = order({0, 0.25, 0.75, 1});
        zt(order({4, 3, 2, 1}), "1", "atmosphere_hybrid_height_coordinate", "up", "a: " + pre + "a b: " + pre + "b orog: " + pre + "orog");
        kvar(pre + "a", a, "m");
        kvar(pre + "b", b, "1");
        auto orog = [](size_t x, size_t y, size_t, size_t) { return 30. + 100 * x + 50 * y; };
        term(ds, pre + "orog", "m", {"lon", "lat"}, 1, orog);
        r.att(pre + "orog", "standard_name", "surface_altitude");
        z.at[T_ALTITUDE] = [=](size_t x, size_t y, size_t k, size_t t) { return a[k] + b[k] * orog(x, y, k, t); };
        z.at[T_HEIGHT] = [=](size_t x, size_t y, size_t k, size_t t) { return a[k] + b[k] * orog(x, y, k, t) - orog(x, y, k, t); };
        break;
    }
    default: VF_FAIL("kind");
    }
    return z;
}

DS mkDS(TimeMode tm, SliceMode sm, Topo topo, bool packed)
{
    DS ds;
    ds.r = std::make_shared<TestReader>(sm);
    ds.nt = tm == UNLIM1 ? 1 : tm == UNLIM3 ? 3 : 2;
    ds.unlimited = tm != FIXED2;
    ds.topo = topo;
    ds.packedTerms = packed;
    horizontal(ds);
    return ds;
}
} // namespace
