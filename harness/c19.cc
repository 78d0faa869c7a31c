// C19: processing along time and model levels: accumulation, deaccumulation, geopotential height, vertical velocity
#include "fx.h"
#include "vert.h"
#include "fimex/CDMProcessor.h"
#include "fimex/Type2String.h"

namespace {
vf::Explorer* EX = nullptr;
enum Op { NONE, ACC, DEACC };
const char* opName[] = {"unchanged", "accumulated", "deaccumulated"};

struct St
{
    const char* name;
    CDMDataType type;
    double scale, offset;
};
const St sts[] = {{"float", CDM_FLOAT, 1, 0},         {"double", CDM_DOUBLE, 1, 0},     {"int", CDM_INT, 1, 0},
                  {"short scaled", CDM_SHORT, 0.5, 0}, {"double scaled", CDM_DOUBLE, 0.25, 0}, {"short with offset", CDM_SHORT, 0.5, 20},
                  {"float with offset", CDM_FLOAT, 2, -8}};
const int NST = 7;

struct Src
{
    TestReader_p r;
    size_t n;       ///< elements per time
    size_t nt;
    VD a, b;        ///< physical values, time slowest
    vector<string> shape;
};

/// layout 0: (x,y,time), 1: (time), 2: (x,time)
Src source(int layout, int st, SliceMode mode, bool mem, size_t nt, const VD& nan, bool fixedTime = false)
{
    Src s;
    s.r = std::make_shared<TestReader>(mode);
    TestReader& r = *s.r;
    r.att("", "Conventions", "CF-1.4");
    axis(r, "x", {5, 6}, "degrees_east", "longitude");
    axis(r, "y", {60, 61}, "degrees_north", "latitude");
    VD tv;
    for (size_t t = 0; t < nt; ++t)
        tv.push_back(6. * t);
    axis(r, "time", tv, "hours since 2020-01-01 00:00:00", "time", CDM_DOUBLE, !fixedTime);
    s.nt = nt;
    s.n = layout == 0 ? 4 : layout == 1 ? 1 : 2;
    s.shape = layout == 0 ? vector<string>{"x", "y", "time"} : layout == 1 ? vector<string>{"time"} : vector<string>{"x", "time"};
    static const double w[] = {3, 7, 2, 11, 5, 1, 13, 4, 6, 17, 9, 8, 2, 19, 10, 12};
    for (size_t i = 0; i < s.n * nt; ++i) {
        const bool u = i < nan.size() && std::isnan(nan[i]);
        s.a.push_back(u ? NaN : w[i % 16]);
        s.b.push_back(100 - 2 * w[(i + 5) % 16]);
    }
    auto put = [&](const string& name, const VD& v) {
        VD raw;
        for (double x : v)
            raw.push_back(std::isnan(x) ? NaN : (x - sts[st].offset) / sts[st].scale);
        if (mem)
            r.varMem(name, sts[st].type, s.shape, mk(sts[st].type, raw));
        else
            r.var(name, sts[st].type, s.shape, raw);
        if (sts[st].scale != 1)
            r.att(name, "scale_factor", CDM_DOUBLE, {sts[st].scale});
        if (sts[st].offset != 0)
            r.att(name, "add_offset", CDM_DOUBLE, {sts[st].offset});
        r.att(name, "units", "kg m-2");
    };
    put("a", s.a);
    put("b", s.b);
    r.var("fix", CDM_FLOAT, {"x", "y"}, {1, 2, 3, 4});
    r.var("other", CDM_SHORT, {"x", "time"}, VD(2 * nt, 7));
    return s;
}

/// what the operation makes of the physical values
VD want(const VD& v, size_t n, size_t nt, Op op)
{
    VD out = v;
    for (size_t e = 0; e < n; ++e) {
        double sum = 0;
        for (size_t t = 0; t < nt; ++t) {
            const double cur = v[e + n * t];
            if (op == ACC) {
                if (t > 0)
                    out[e + n * t] = sum + cur;
                sum = t == 0 && std::isnan(cur) ? 0 : sum + cur;
            } else if (op == DEACC && t > 0) {
                double prev = v[e + n * (t - 1)];
                if (t == 1 && std::isnan(prev))
                    prev = 0;
                out[e + n * t] = cur - prev;
            }
        }
    }
    return out;
}

VD part(const VD& v, size_t n, size_t t, size_t cnt = 1)
{
    return VD(v.begin() + n * t, v.begin() + n * (t + cnt));
}

std::shared_ptr<CDMProcessor> processed(const Src& s, Op a, Op b)
{
    auto p = std::make_shared<CDMProcessor>(s.r);
    auto f = [&](const string& n, Op o) {
        if (o == ACC)
            p->accumulate(n);
        else if (o == DEACC)
            p->deAccumulate(n);
    };
    f("a", a);
    f("b", b);
    return p;
}

VD scaled(DataPtr d, const CDMReader& r, const string& v)
{
    VD o = values(d);
    const double sc = r.getCDM().getScaleFactor(v), of = r.getCDM().getAddOffset(v);
    for (double& x : o)
        x = x * sc + of;
    return o;
}

void all(CDMReader_p p, const Src& s, const string& name, const VD& w)
{
    for (size_t t = 0; t < s.nt; ++t) {
        expectClose(scaled(p->getDataSlice(name, t), *p, name), part(w, s.n, t), name + " at " + std::to_string(t));
        expectClose(p->getScaledDataSlice(name, t), part(w, s.n, t), name + " scaled at " + std::to_string(t));
    }
    expectClose(scaled(p->getData(name), *p, name), w, name);
    expectClose(p->getScaledDataInUnit(name, "g m-2"), [&] { VD g = w; for (double& x : g) x *= 1000; return g; }(), name + " in g");
    for (size_t b = 0; b < s.nt; ++b)
        for (size_t c = 1; b + c <= s.nt; ++c) {
            SliceBuilder sb(p->getCDM(), name);
            sb.setStartAndSize("time", b, c);
            expectClose(scaled(p->getDataSlice(name, sb), *p, name), part(w, s.n, b, c), name + " slice " + std::to_string(b) + "+" + std::to_string(c));
        }
    EX->step(s.nt * s.nt);
}

void accumulation(int layout, int st, SliceMode mode, bool mem, Op a, Op b, size_t nt, const VD& nan)
{
    const Src s = source(layout, st, mode, mem, nt, nan);
    const string before = dump(s.r);
    auto p = processed(s, a, b);
    all(p, s, "a", want(s.a, s.n, nt, a));
    all(p, s, "b", want(s.b, s.n, nt, b));
    expectValues(p->getData("fix"), {1, 2, 3, 4}, "fix");
    expectValues(p->getDataSlice("other", nt - 1), {7, 7}, "other");
    expectValues(p->getDataSlice("time", nt - 1), {6. * (nt - 1)}, "time");
    VF_CHECK(dumpCDM(p->getCDM()) == dumpCDM(s.r->getCDM()), "description changed");
    VF_CHECK(dump(s.r) == before, "source changed");
    VF_CHECK(throws([&] { p->accumulate("none"); }) && throws([&] { p->deAccumulate("none"); }), "unknown variable accepted");
}

/// acc followed by deacc and the other way round, in a chain of processors
void chain(int layout, int st, bool accFirst, const VD& nan)
{
    const Src s = source(layout, st, BY_BUILDER, false, 4, nan);
    auto p = processed(s, accFirst ? ACC : DEACC, accFirst ? ACC : DEACC);
    auto q = std::make_shared<CDMProcessor>(p);
    for (const char* n : {"a", "b"}) {
        if (accFirst)
            q->deAccumulate(n);
        else
            q->accumulate(n);
    }
    all(q, s, "b", s.b);
    const VD w = want(want(s.a, s.n, 4, accFirst ? ACC : DEACC), s.n, 4, accFirst ? DEACC : ACC);
    all(q, s, "a", w);
}

/// a history of reads; every read gets the right values whatever was read before, also when callers change what they got
void history(Op a, Op b, int st, const vector<int>& ops)
{
    const size_t nt = 4;
    // elements by time
    const VD nans[] = {{NaN, 0, 0, 0, 0, NaN}, {0, 0, 0, NaN, NaN, 0}, {NaN, NaN, 0, 0, NaN, 0}};
    const Src s = source(2, st, BY_BUILDER, false, nt, st == 0 ? nans[ops.size() % 3] : st == 1 ? nans[ops[0] % 3] : st == 4 ? nans[2] : VD(), false);
    auto p = processed(s, a, b);
    string key;
    for (int o : ops) {
        const bool isA = o < 6;
        const int what = o % 6;
        const string n = isA ? "a" : "b";
        const VD w = want(isA ? s.a : s.b, s.n, nt, isA ? a : b);
        if (what < 4) {
            DataPtr d = p->getDataSlice(n, what);
            expectClose(scaled(d, *p, n), part(w, s.n, what), n + " at " + std::to_string(what));
            for (size_t i = 0; i < d->size(); ++i)
                d->setValue(i, 77);
        } else if (what == 4) {
            SliceBuilder sb(p->getCDM(), n);
            sb.setStartAndSize("time", 1, 2);
            sb.setStartAndSize("x", 1, 1);
            expectClose(scaled(p->getDataSlice(n, sb), *p, n), {w[1 + s.n], w[1 + 2 * s.n]}, n + " slice");
        } else {
            expectClose(p->getScaledData(n), w, n);
        }
        key += std::to_string(o) + ",";
        EX->step();
    }
    EX->state(string(opName[a]) + opName[b] + std::to_string(st) + key);
}

//---------------------------------------------------------------- model levels

void geopotential(Kind kind, bool reverse, size_t nz, int tmode, bool named, int exists)
{
    DS ds;
    ds.r = std::make_shared<TestReader>(BY_BUILDER);
    ds.unlimited = tmode != FIXED2;
    ds.nt = tmode == UNLIM1 ? 1 : tmode == UNLIM3 ? 3 : 2;
    ds.topo = TOPO_GEOPOT;
    horizontal(ds);
    const string pre = named ? "air_temperature_" : "";
    ZA z = addAxis(ds, kind, reverse, nz, pre);
    topography(ds);
    const bool integrate = kind == HYBRID_INTEGRATE || kind == HYBRID_INTEGRATE_HUM;
    if (!integrate) {
        field(ds, pre + "ta", CDM_DOUBLE, {"lon", "lat", z.dim, "time"}, z.dim, nz, airT);
        ds.r->att(pre + "ta", "units", "K");
        ds.r->att(pre + "ta", "standard_name", "air_temperature");
    }
    if (exists == 1) { // has one already
        ds.r->var("gh", CDM_FLOAT, {"lon", "lat"}, VD(ds.nx * ds.ny, 5));
        ds.r->att("gh", "standard_name", "geopotential_height");
        ds.r->att("gh", "units", "m");
    } else if (exists == 2 && !named) { // the name is taken
        ds.r->var("geopotential_height", CDM_FLOAT, {"lon", "lat"}, VD(ds.nx * ds.ny, 5));
    }
    const string before = dump(ds.r);
    auto p = std::make_shared<CDMProcessor>(ds.r);
    p->addGeopotentialHeight();
    const vector<string> gh = p->getCDM().findVariables("standard_name", "geopotential_height");
    VF_CHECK(gh.size() == 1, gh.size() << " geopotential heights");
    if (exists == 1) {
        VF_CHECK(gh[0] == "gh" && dumpCDM(p->getCDM()) == dumpCDM(ds.r->getCDM()), "changed although there is one");
        return;
    }
    const string name = gh[0];
    const CDM& cdm = p->getCDM();
    VF_CHECK(named ? name == "geopotential_height_ta" : name == (exists == 2 ? "geopotential_height_0" : "geopotential_height"), "name " << name);
    VF_CHECK(cdm.getUnits(name) == "m" && cdm.getVariable(name).getDataType() == CDM_FLOAT, "unit or type");
    const vector<string> shape = cdm.getVariable(name).getShape();
    const Coord& f = z.at[T_ALTITUDE];
    // the value at a place of the variable's own dimensions; it must not depend on others
    const VS n = {ds.nx, ds.ny, nz, ds.nt};
    const vector<string> dims = {"lon", "lat", z.dim, "time"};
    VS pos, len;
    bool hasTime = false;
    for (const string& d : shape) {
        const size_t i = std::find(dims.begin(), dims.end(), d) - dims.begin();
        VF_CHECK(i < 4, "dimension " << d);
        pos.push_back(i);
        len.push_back(n[i]);
        hasTime |= i == 3;
    }
    VF_CHECK(std::find(shape.begin(), shape.end(), z.dim) != shape.end(), "no level dimension");
    auto at = [&](const VS& start, const VS& size) {
        VD w;
        VS q(size.size(), 0);
        for (size_t c = 0; c < prod(size); ++c) {
            size_t p[4] = {0, 0, 0, 0};
            for (size_t i = 0; i < q.size(); ++i)
                p[pos[i]] = start[i] + q[i];
            w.push_back(f(p[0], p[1], p[2], p[3]));
            for (size_t i = 0; i < q.size(); ++i) {
                if (++q[i] < size[i])
                    break;
                q[i] = 0;
            }
        }
        return w;
    };
    for (size_t x = 0; x < ds.nx; ++x)
        for (size_t y = 0; y < ds.ny; ++y)
            for (size_t k = 0; k < nz; ++k)
                for (size_t t = 0; t < ds.nt; ++t) {
                    size_t p[4] = {0, 0, 0, 0}, g[4] = {x, y, k, t};
                    for (size_t i : pos)
                        p[i] = g[i];
                    VF_CHECK(f(x, y, k, t) == f(p[0], p[1], p[2], p[3]), name << " does not have all dimensions it depends on");
                }
    const VS zero(len.size(), 0);
    if (ds.unlimited && hasTime)
        for (size_t t = 0; t < ds.nt; ++t) {
            VS st = zero, si = len;
            for (size_t i = 0; i < pos.size(); ++i)
                if (pos[i] == 3) {
                    st[i] = t;
                    si[i] = 1;
                }
            expectClose(p->getDataSlice(name, t), at(st, si), name + " at " + std::to_string(t), 1e-5, 0.05);
        }
    else
        expectClose(p->getDataSlice(name, 0), at(zero, len), name, 1e-5, 0.05);
    expectClose(p->getData(name), at(zero, len), name, 1e-5, 0.05);
    SliceBuilder sb(cdm, name);
    VS st = zero, si = len;
    for (size_t i = 0; i < pos.size(); ++i)
        if (pos[i] != 1) {
            st[i] = n[pos[i]] - 1;
            si[i] = 1;
            sb.setStartAndSize(shape[i], st[i], 1);
        }
    expectClose(p->getDataSlice(name, sb), at(st, si), name + " slice", 1e-5, 0.05);
    for (const auto& v : ds.r->getCDM().getVariables())
        VF_CHECK(values(p->getData(v.getName())) == values(ds.r->getData(v.getName())), v.getName() << " changed");
    VF_CHECK(dump(ds.r) == before, "source changed");
    p->addGeopotentialHeight();
    VF_CHECK(p->getCDM().findVariables("standard_name", "geopotential_height").size() == 1, "added twice");
    EX->step(prod(len));
}

struct Vv
{
    size_t nx = 3, ny = 3, nz = 3, nt = 2;
    bool rest = false;     ///< no wind
    bool flat = false;     ///< no slope: constant surface and temperature
    int terrain = 0;       ///< 0 surface_geopotential, 1 surface_altitude, 2 with time
    int grid = 0;          ///< 0 longlat, 1 stereographic in m, 2 in km
    int units = 0;         ///< other units and packing
};

double vvU(const Vv& c, size_t i, size_t j, size_t k, size_t t) { return c.rest ? 0 : 5. + 2. * ((i * 3 + j + k) % 4) - t; }
double vvV(const Vv& c, size_t i, size_t j, size_t k, size_t t) { return c.rest ? 0 : -3. + 1.5 * ((i + 2 * j + 3 * k) % 5) + t; }
double vvT(const Vv& c, size_t i, size_t j, size_t k, size_t t) { return 230. + 20. * k + (c.flat ? 0 : 1.5 * ((i * i + j) % 3)) + t; }
double vvP(const Vv& c, size_t i, size_t j, size_t t) { return 100000. + (c.flat ? 0 : 200. * ((i + j * j) % 4)) + 10. * t; }
double vvZ(const Vv& c, size_t i, size_t j) { return c.flat ? 10 : 20. + 8. * ((2 * i + j) % 5); }

const double R_EARTH = MIFI_EARTH_RADIUS_M;
double greatCircle(double lon0, double lat0, double lon1, double lat1)
{
    const double d = M_PI / 180, dl = (lat1 - lat0) * d, dn = (lon1 - lon0) * d;
    const double h = std::sin(dl / 2) * std::sin(dl / 2) + std::cos(lat0 * d) * std::cos(lat1 * d) * std::sin(dn / 2) * std::sin(dn / 2);
    return 2 * R_EARTH * std::asin(std::sqrt(h));
}

void velocity(const Vv& c, bool wantNone = false)
{
    auto rp = std::make_shared<TestReader>(BY_BUILDER);
    TestReader& r = *rp;
    r.att("", "Conventions", "CF-1.4");
    VD lon(c.nx * c.ny), lat(c.nx * c.ny);
    if (c.grid == 0) {
        VD x, y;
        for (size_t i = 0; i < c.nx; ++i)
            x.push_back(5 + 0.1 * i);
        for (size_t j = 0; j < c.ny; ++j)
            y.push_back(60 + 0.05 * j);
        axis(r, "x", x, "degrees_east", "longitude");
        axis(r, "y", y, "degrees_north", "latitude");
        for (size_t j = 0; j < c.ny; ++j)
            for (size_t i = 0; i < c.nx; ++i) {
                lon[i + c.nx * j] = x[i];
                lat[i + c.nx * j] = y[j];
            }
    } else {
        const double u = c.grid == 1 ? 1 : 0.001;
        VD x, y;
        for (size_t i = 0; i < c.nx; ++i)
            x.push_back(4000. * u * (i + 1));
        for (size_t j = 0; j < c.ny; ++j)
            y.push_back(-6000. * u * (j + 1));
        axis(r, "x", x, c.grid == 1 ? "m" : "km", "projection_x_coordinate");
        axis(r, "y", y, c.grid == 1 ? "m" : "km", "projection_y_coordinate");
        r.var("projection_0", CDM_INT, {}, {0});
        r.att("projection_0", "grid_mapping_name", "polar_stereographic");
        r.att("projection_0", "latitude_of_projection_origin", CDM_DOUBLE, {90});
        r.att("projection_0", "straight_vertical_longitude_from_pole", CDM_DOUBLE, {0});
        r.att("projection_0", "standard_parallel", CDM_DOUBLE, {60});
        r.att("projection_0", "earth_radius", CDM_DOUBLE, {6371000});
        for (size_t j = 0; j < c.ny; ++j)
            for (size_t i = 0; i < c.nx; ++i) { // close to the pole
                const double X = x[i] / u, Y = y[j] / u, rho = std::hypot(X, Y), k0 = (1 + std::sin(M_PI / 3)) / 2;
                lat[i + c.nx * j] = 90 - 2 * std::atan(rho / (2 * 6371000 * k0)) * 180 / M_PI;
                lon[i + c.nx * j] = std::atan2(X, -Y) * 180 / M_PI;
            }
        r.var("lon", CDM_DOUBLE, {"x", "y"}, lon);
        r.att("lon", "units", "degrees_east");
        r.att("lon", "standard_name", "longitude");
        r.var("lat", CDM_DOUBLE, {"x", "y"}, lat);
        r.att("lat", "units", "degrees_north");
        r.att("lat", "standard_name", "latitude");
    }
    VD ap, b, lev, tv;
    for (size_t k = 0; k < c.nz; ++k) {
        // full levels as means of half levels from the top (0,0) to the ground (0,1)
        const double x0 = double(k) / c.nz, x1 = double(k + 1) / c.nz;
        auto hb = [](double x) { return x * x; };
        auto ha = [](double x) { return 40000 * x * x * (1 - x); };
        ap.push_back((ha(x0) + ha(x1)) / 2);
        b.push_back((hb(x0) + hb(x1)) / 2);
        lev.push_back(b.back() + ap.back() / 101325);
    }
    for (size_t t = 0; t < c.nt; ++t)
        tv.push_back(t);
    axis(r, "lev", lev, "1", "atmosphere_hybrid_sigma_pressure_coordinate");
    r.att("lev", "positive", "down");
    r.att("lev", "axis", "Z");
    r.att("lev", "formula_terms", "ap: ap b: b ps: ps");
    axis(r, "time", tv, "hours since 2020-01-01 00:00:00", "time", CDM_DOUBLE, true);
    VD apu = ap;
    if (c.units)
        for (double& v : apu)
            v /= 100;
    r.var("ap", CDM_DOUBLE, {"lev"}, apu);
    r.att("ap", "units", c.units ? "hPa" : "Pa");
    r.var("b", CDM_DOUBLE, {"lev"}, b);
    r.att("b", "units", "1");
    auto put = [&](const string& n, const string& std, const string& unit, bool hz, bool ht, const std::function<double(size_t, size_t, size_t, size_t)>& f) {
        VD v;
        for (size_t t = 0; t < (ht ? c.nt : 1); ++t)
            for (size_t k = 0; k < (hz ? c.nz : 1); ++k)
                for (size_t j = 0; j < c.ny; ++j)
                    for (size_t i = 0; i < c.nx; ++i)
                        v.push_back(f(i, j, k, t));
        vector<string> sh = {"x", "y"};
        if (hz)
            sh.push_back("lev");
        if (ht)
            sh.push_back("time");
        r.var(n, CDM_DOUBLE, sh, v);
        r.att(n, "standard_name", std);
        r.att(n, "units", unit);
        if (c.grid) {
            r.att(n, "grid_mapping", "projection_0");
            r.att(n, "coordinates", "lon lat");
        }
    };
    const bool U = c.units;
    put("ps", "surface_air_pressure", U ? "hPa" : "Pa", false, true, [&](size_t i, size_t j, size_t, size_t t) { return vvP(c, i, j, t) / (U ? 100 : 1); });
    put("u", "x_wind", U ? "km/h" : "m/s", true, true, [&](size_t i, size_t j, size_t k, size_t t) { return vvU(c, i, j, k, t) * (U ? 3.6 : 1); });
    put("v", "y_wind", "m/s", true, true, [&](size_t i, size_t j, size_t k, size_t t) { return vvV(c, i, j, k, t); });
    put("ta", "air_temperature", U ? "degC" : "K", true, true, [&](size_t i, size_t j, size_t k, size_t t) { return vvT(c, i, j, k, t) - (U ? 273.15 : 0); });
    if (c.terrain == 0)
        put("topo", "surface_geopotential", "m^2/s^2", false, false, [&](size_t i, size_t j, size_t, size_t) { return vvZ(c, i, j) * 9.81; });
    else
        put("topo", "surface_altitude", U ? "km" : "m", false, c.terrain == 2, [&](size_t i, size_t j, size_t, size_t) { return vvZ(c, i, j) / (U ? 1000 : 1); });
    const string before = dump(rp);
    auto p = std::make_shared<CDMProcessor>(rp);
    p->addVerticalVelocity();
    const string name = "upward_air_velocity_ml";
    VF_CHECK(p->getCDM().hasVariable(name) == !wantNone, (wantNone ? "vertical velocity on a too small grid" : "no vertical velocity"));
    if (wantNone)
        return;
    VF_CHECK(p->getCDM().getUnits(name) == "m/s" && p->getCDM().getVariable(name).getShape() == p->getCDM().getVariable("u").getShape(), "unit or shape");

    // half levels, distances
    const size_t nx = c.nx, ny = c.ny, nz = c.nz;
    VD ah(nz + 1, 0), bh(nz + 1, 0);
    bh[nz] = 1;
    for (size_t k = nz - 1; k > 0; --k) {
        ah[k] = 2 * ap[k] - ah[k + 1];
        bh[k] = 2 * b[k] - bh[k + 1];
    }
    VD gx(nx * ny), gy(nx * ny);
    for (size_t j = 0; j < ny; ++j)
        for (size_t i = 0; i < nx; ++i) {
            const size_t q = i + nx * j, qx = std::min(i, nx - 2) + nx * j, qy = i + nx * std::min(j, ny - 2);
            gx[q] = greatCircle(lon[qx], lat[qx], lon[qx + 1], lat[qx + 1]);
            gy[q] = greatCircle(lon[qy], lat[qy], lon[qy + nx], lat[qy + nx]);
        }
    const double Rd = RGAS / MDRY, g = G;
    for (size_t t = 0; t < c.nt; ++t) {
        auto pres = [&](size_t h, size_t q) { return ah[h] + bh[h] * vvP(c, q % nx, q / nx, t); };
        auto dp = [&](size_t k, size_t q) { return pres(k + 1, q) - pres(k, q); };
        auto dl = [&](size_t k, size_t q) { return k == 0 ? 0. : std::log(pres(k + 1, q) / pres(k, q)); };
        auto al = [&](size_t k, size_t q) { return k == 0 ? std::log(2.) : 1 - pres(k, q) * dl(k, q) / dp(k, q); };
        auto T = [&](size_t k, size_t q) { return vvT(c, q % nx, q / nx, k, t); };
        auto phi = [&](size_t k, size_t q) {
            double s = vvZ(c, q % nx, q / nx) * g;
            for (size_t l = nz - 1; l > k; --l)
                s += Rd * T(l, q) * dl(l, q);
            return s + Rd * T(k, q) * al(k, q);
        };
        auto div = [&](size_t k, size_t q) {
            auto fu = [&](size_t m) { return gy[m] * vvU(c, m % nx, m / nx, k, t) * dp(k, m); };
            auto fv = [&](size_t m) { return gx[m] * vvV(c, m % nx, m / nx, k, t) * dp(k, m); };
            return (fu(q + 1) - fu(q - 1) + fv(q + nx) - fv(q - nx)) / (2 * gx[q] * gy[q]);
        };
        VD w(nx * ny * nz, 0);
        for (size_t k = 1; k < nz; ++k)
            for (size_t j = 0; j < ny; ++j)
                for (size_t i = 0; i < nx; ++i) {
                    const size_t q = std::min(std::max<size_t>(i, 1), nx - 2) + nx * std::min(std::max<size_t>(j, 1), ny - 2);
                    double above = 0;
                    for (size_t l = 1; l < k; ++l)
                        above += div(l, q);
                    const double w1 = Rd * T(k, q) * (dl(k, q) * above + al(k, q) * div(k, q)) / dp(k, q);
                    const double w2 = vvU(c, q % nx, q / nx, k, t) * (phi(k, q + 1) - phi(k, q - 1)) / (2 * gx[q]) +
                                      vvV(c, q % nx, q / nx, k, t) * (phi(k, q + nx) - phi(k, q - nx)) / (2 * gy[q]);
                    w[i + nx * j + nx * ny * k] = (w1 + w2) / g;
                }
        expectClose(p->getDataSlice(name, t), w, "vertical velocity at " + std::to_string(t), 5e-3, 1e-2);
        EX->step(w.size());
    }
    VF_CHECK(dump(rp) == before, "source changed");
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool TH = ex.thorough();

    ex.space("accumulation");
    for (int layout = 0; layout < 3; ++layout)
        for (int st = 0; st < NST; ++st)
            for (int mode = 0; mode < 2; ++mode)
                for (int mem = 0; mem < 2; ++mem)
                    for (int a = 0; a < 3; ++a)
                        for (int b = 0; b < 3; ++b)
                            for (size_t nt = 1; nt <= (TH ? 5 : 4); nt += (TH ? 1 : 3))
                                ex.run([=] { return string("layout ") + std::to_string(layout) + " " + sts[st].name + " mode " + std::to_string(mode) + (mem ? " memory" : "") + " a " + opName[a] + " b " + opName[b] + " times " + std::to_string(nt); },
                                       [=] { accumulation(layout, st, SliceMode(mode), mem, Op(a), Op(b), nt, {}); });
    ex.space("undefined values");
    for (int st : {0, 1, 4, 6})
        for (unsigned m = 0; m < (TH ? 1024u : 256u); ++m)
            for (int a = 1; a < 3; ++a) {
                if (!TH && (m + st) % 2)
                    continue;
                ex.run([=] { return string(sts[st].name) + " " + opName[a] + " pattern " + std::to_string(m); }, [=] {
                    VD nan;
                    for (size_t i = 0; i < 10; ++i)
                        nan.push_back(m >> i & 1 ? NaN : 0);
                    accumulation(2, st, BY_BUILDER, false, Op(a), NONE, TH ? 5 : 4, nan);
                    chain(2, st, a == 1, nan);
                });
            }
    ex.space("chains");
    for (int layout = 0; layout < 3; ++layout)
        for (int st = 0; st < NST; ++st)
            for (int acc = 0; acc < 2; ++acc)
                ex.run([=] { return string("layout ") + std::to_string(layout) + " " + sts[st].name + (acc ? " accumulate first" : " deaccumulate first"); }, [=] { chain(layout, st, acc, {}); });
    ex.space("not along time");
    for (int a = 1; a < 3; ++a)
        ex.run([=] { return string(opName[a]); }, [=] {
            const Src s = source(2, 0, BY_BUILDER, false, 3, {}, true);
            auto p = processed(s, Op(a), Op(a));
            if (a == ACC)
                p->accumulate("fix");
            else
                p->deAccumulate("fix");
            VF_CHECK(dump(p) == dump(s.r), "changed without unlimited dimension");
        });
    ex.space("histories of reads");
    for (int a = 0; a < 3; ++a)
        for (int b = 1; b < 3; ++b)
            for (int st : {0, 1, 4, 5})
                for (size_t len = 1; len <= (TH ? 4u : 3u); ++len)
                    product(len, 0, 11, [&](const vector<int>& v) {
                        if (!TH && (a == DEACC && b == DEACC))
                            return;
                        string d;
                        for (int x : v)
                            d += std::to_string(x) + " ";
                        ex.run([=] { return string("a ") + opName[a] + " b " + opName[b] + " " + sts[st].name + " reads " + d; }, [=] { history(Op(a), Op(b), st, v); });
                    });
    ex.space("geopotential height");
    for (int kind : {SIGMA, LNP, PRESSURE_HPA, PRESSURE_PA, HYBRID_INTEGRATE, HYBRID_INTEGRATE_HUM, HYBRID_HEIGHT, ALTITUDE})
        for (int rev = 0; rev < 2; ++rev)
            for (size_t nz = 2; nz <= 4; ++nz)
                for (int tm = 0; tm < 4; ++tm)
                    for (int named = 0; named < 2; ++named)
                        for (int e = 0; e < 3; ++e) {
                            if (e && tm)
                                continue;
                            ex.run([=] { return string(kindName[kind]) + (rev ? " reversed" : "") + " levels " + std::to_string(nz) + " " + timeName[tm] + (named ? " named" : "") + " existing " + std::to_string(e); },
                                   [=] { geopotential(Kind(kind), rev, nz, tm, named, e); });
                        }
    ex.space("vertical velocity");
    for (size_t nx = 3; nx <= (TH ? 6 : 5); ++nx)
        for (size_t ny = 3; ny <= (TH ? 6 : 5); ++ny)
            for (size_t nz = 1; nz <= 4; ++nz)
                for (int rest = 0; rest < 2; ++rest)
                    for (int flat = 0; flat < 2; ++flat)
                        for (int grid = 0; grid < 3; ++grid)
                            for (int terrain = 0; terrain < 3; ++terrain)
                                for (int units = 0; units < 2; ++units) {
                                    if (!TH && (nx + ny + nz + rest + flat + grid + terrain + units) % 3)
                                        continue;
                                    Vv c;
                                    c.nx = nx;
                                    c.ny = ny;
                                    c.nz = nz;
                                    c.rest = rest;
                                    c.flat = flat;
                                    c.grid = grid;
                                    c.terrain = terrain;
                                    c.units = units;
                                    ex.run([=] { return std::to_string(nx) + "x" + std::to_string(ny) + "x" + std::to_string(nz) + (rest ? " at rest" : "") + (flat ? " flat" : "") + " grid " + std::to_string(grid) + " terrain " + std::to_string(terrain) + " units " + std::to_string(units); }, [=] { velocity(c); });
                                }
    for (size_t nx = 1; nx <= 3; ++nx)
        for (size_t ny = 1; ny <= 3; ++ny)
            if (nx < 3 || ny < 3)
                ex.run([=] { return "too small " + std::to_string(nx) + "x" + std::to_string(ny); }, [=] {
                    Vv c;
                    c.nx = nx;
                    c.ny = ny;
                    c.nt = 1;
                    velocity(c, true);
                });
}
