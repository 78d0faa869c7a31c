// C14: vertical interpolation and vertical coordinates
#include "fx.h"
#include "vert.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/verticalTransform/VerticalConverter.h"
#include "fimex/coordSys/verticalTransform/VerticalTransformation.h"

namespace {
vf::Explorer* EX = nullptr;

// ---------------------------------------------------------------------------------------------- interpolation oracle

enum Method { LIN, LIN_WEAK, LIN_NO, LIN_CONST, LOG, LOGLOG, NN, NMETHODS };
const char* methodName[] = {"linear", "linear_weak_extra", "linear_no_extra", "linear_const_extra", "log", "loglog", "nearestneighbor"};

double lin(double vA, double vB, double f)
{
    return f == 0 ? vA : f == 1 ? vB : vA + f * (vB - vA);
}

/// value at x of a column with coordinates c and values v; scale: size of the terms involved, for the tolerance
double interpolate(Method m, const VD& c, const VD& v, double x, double& scale)
{
    // levels around x, or the two closest if there is none on one side
    int lo = -1, hi = -1;
    for (size_t i = 0; i < c.size(); ++i) {
        if (c[i] <= x && (lo < 0 || c[i] > c[lo]))
            lo = i;
        if (c[i] > x && (hi < 0 || c[i] < c[hi]))
            hi = i;
    }
    if (lo < 0 || hi < 0) {
        vector<size_t> o;
        for (size_t i = 0; i < c.size(); ++i)
            o.push_back(i);
        std::stable_sort(o.begin(), o.end(), [&](size_t i, size_t j) { return std::fabs(c[i] - x) < std::fabs(c[j] - x); });
        lo = o[0];
        size_t j = 1;
        while (j < o.size() && c[o[j]] == c[lo])
            ++j;
        if (j == o.size())
            return NaN;
        hi = o[j];
    }
    double a = c[lo], b = c[hi], vA = v[lo], vB = v[hi];
    double f = (x - a) / (b - a);
    scale = ((std::isnan(vA) ? 0 : std::fabs(vA)) + (std::isnan(vB) ? 0 : std::fabs(vB))) * (1 + std::fabs(f));
    switch (m) {
    case LIN: return lin(vA, vB, f);
    case LIN_WEAK: return f >= -1 && f <= 2 ? lin(vA, vB, f) : NaN;
    case LIN_NO: return f >= 0 && f <= 1 ? lin(vA, vB, f) : NaN;
    case LIN_CONST: return f <= 0 ? vA : f >= 1 ? vB : lin(vA, vB, f);
    case NN: return std::fabs(x - a) <= std::fabs(x - b) ? vA : vB;
    case LOG:
    case LOGLOG:
        if (a <= 0 || b <= 0 || x <= 0)
            return NaN;
        if (m == LOG)
            f = (std::log(x) - std::log(a)) / (std::log(b) - std::log(a));
        else {
            auto ll = [](double q) { return std::log(std::log(q + M_E)); };
            f = (ll(x) - ll(a)) / (ll(b) - ll(a));
        }
        scale = ((std::isnan(vA) ? 0 : std::fabs(vA)) + (std::isnan(vB) ? 0 : std::fabs(vB))) * (1 + std::fabs(f));
        return lin(vA, vB, f);
    default: VF_FAIL("method");
    }
}

struct Pack
{
    CDMDataType type = CDM_FLOAT;
    double fill = NaN;   ///< fill value used in the data
    bool attFill = false;
    double vmin = NaN, vmax = NaN;
};

double rawValue(size_t x, size_t y, size_t k, size_t t)
{
    return 10 + 7. * k * k + 3 * k * ((x + t) % 3) + 2. * x + 5 * y + t;
}

bool match(double got, double want, double scale, const Pack& p)
{
    if (!std::isnan(want)) {
        if (!std::isnan(p.vmin) && want < p.vmin)
            want = p.vmin;
        if (!std::isnan(p.vmax) && want > p.vmax)
            want = p.vmax;
    }
    const bool isInt = p.type != CDM_FLOAT && p.type != CDM_DOUBLE;
    if (std::isnan(want)) {
        return std::isnan(p.fill) ? std::isnan(got) : got == p.fill;
    }
    return std::fabs(got - want) <= 2e-4 * (1 + scale) + (isInt ? 0.5 : 0);
}

/// compare the interpolated field of one time step
void checkColumns(const DS& ds, const ZA& z, Target target, Method m, const Pack& p, const std::function<double(size_t, size_t, size_t, size_t)>& levelAt, size_t nlev, bool exact,
                  const std::function<double(size_t, size_t, size_t, size_t)>& val, bool useMin, bool useMax, const VD& got, size_t t, const string& what,
                  const std::function<double(size_t, size_t, size_t)>& vmin, const std::function<double(size_t, size_t, size_t)>& vmax)
{
    EX->step(got.size());
    EX->state(string(reinterpret_cast<const char*>(got.data()), got.size() * sizeof(double)));
    VF_CHECK(got.size() == ds.nx * ds.ny * nlev, what << ": " << got.size() << " values instead of " << ds.nx * ds.ny * nlev);
    for (size_t y = 0; y < ds.ny; ++y)
        for (size_t x = 0; x < ds.nx; ++x) {
            VD c, v;
            double cmax = 0;
            for (size_t k = 0; k < z.nz; ++k) {
                c.push_back(z.at[target](x, y, k, t));
                v.push_back(val(x, y, k, t));
                cmax = std::max(cmax, std::fabs(c.back()));
            }
            for (size_t l = 0; l < nlev; ++l) {
                const double lev = levelAt(x, y, l, t);
                const double g = got[(l * ds.ny + y) * ds.nx + x];
                const double eps = exact ? 0 : 3e-6 * std::max(cmax, std::fabs(lev));
                bool ok = false;
                double want0 = NaN;
                for (double d : {0., -eps, eps}) {
                    double scale = 0, w = interpolate(m, c, v, lev + d, scale);
                    if ((useMin && vmin && lev + d < vmin(x, y, t)) || (useMax && vmax && lev + d > vmax(x, y, t)))
                        w = NaN;
                    if (d == 0)
                        want0 = w;
                    ok |= match(g, w, scale, p);
                    if (eps == 0)
                        break;
                }
                VF_CHECK(ok, what << ": at x=" << x << " y=" << y << " t=" << t << " to level " << lev << " from levels " << str(c) << " with values " << str(v) << ": " << g << " instead of " << want0);
            }
        }
}

VD requests(const ZA& z, Target target)
{
    VD c;
    for (size_t k = 0; k < z.nz; ++k)
        c.push_back(z.at[target](0, 0, k, 0));
    std::sort(c.begin(), c.end());
    const double d = c.back() - c.front();
    VD out = {c[0] - 3 * d, c[0] - 0.25 * (c[1] - c[0]), c[0]};
    for (size_t i = 1; i < c.size(); ++i) {
        out.push_back(c[i - 1] + 0.375 * (c[i] - c[i - 1]));
        out.push_back(c[i - 1] + 0.8125 * (c[i] - c[i - 1]));
        out.push_back(c[i]);
    }
    out.push_back(c.back() + 0.125 * d);
    out.push_back(c.back() + 7 * d);
    out.push_back(0);
    return out;
}

void addV(DS& ds, const ZA& z, const string& name, const Pack& p, const std::function<double(size_t, size_t, size_t, size_t)>& val)
{
    field(ds, name, p.type, {"lon", "lat", z.dim, "time"}, z.dim, z.nz, [&](size_t x, size_t y, size_t k, size_t t) {
        const double v = val(x, y, k, t);
        return std::isnan(v) ? p.fill : v;
    });
    ds.r->att(name, "units", "kg");
    if (p.attFill)
        ds.r->att(name, "_FillValue", p.type, {p.fill});
    if (!std::isnan(p.vmin))
        ds.r->att(name, "valid_min", p.type, {p.vmin});
    if (!std::isnan(p.vmax))
        ds.r->att(name, "valid_max", p.type, {p.vmax});
}

Pack packOf(int i)
{
    Pack p;
    switch (i) {
    case 0: p.fill = 9.9692099683868690e+36f; break;
    case 1:
        p.type = CDM_DOUBLE;
        p.fill = -999;
        p.attFill = true;
        break;
    case 2:
        p.type = CDM_SHORT;
        p.fill = -32767;
        p.attFill = true;
        p.vmin = 12;
        p.vmax = 60;
        break;
    case 3:
        p.type = CDM_FLOAT;
        p.fill = NaN;
        p.attFill = true;
        p.vmin = 0;
        break;
    }
    return p;
}

struct KT
{
    Kind kind;
    Target target;
    Topo topo;
};
vector<KT> kindTargets()
{
    return {
        {PRESSURE_HPA, T_PRESSURE, NO_TOPO}, {PRESSURE_PA, T_PRESSURE, NO_TOPO}, {SIGMA, T_PRESSURE, NO_TOPO},     {HYBRID_A, T_PRESSURE, NO_TOPO},
        {HYBRID_AP, T_PRESSURE, NO_TOPO},    {LNP, T_PRESSURE, NO_TOPO},         {HYBRID_PVAR, T_PRESSURE, NO_TOPO}, {HEIGHT_M, T_HEIGHT, NO_TOPO},
        {HEIGHT_KM, T_HEIGHT, NO_TOPO},      {ALTITUDE, T_HEIGHT, TOPO_ALT},     {ALTITUDE, T_HEIGHT, TOPO_GEOPOT}, {HYBRID_HEIGHT, T_HEIGHT, NO_TOPO},
        {PRESSURE_HPA, T_HEIGHT, TOPO_ALT},  {P_GEOPOT, T_HEIGHT, TOPO_TIME},    {HYBRID_INTEGRATE, T_HEIGHT, TOPO_GEOPOT},
        {ALTITUDE, T_ALTITUDE, NO_TOPO},     {HEIGHT_M, T_ALTITUDE, TOPO_ALT},   {HEIGHT_M, T_ALTITUDE, TOPO_TIME}, {HEIGHT_KM, T_ALTITUDE, TOPO_GEOPOT},
        {HYBRID_HEIGHT, T_ALTITUDE, NO_TOPO},{SIGMA, T_ALTITUDE, NO_TOPO},       {HYBRID_AP, T_ALTITUDE, NO_TOPO},  {P_GEOPOT, T_ALTITUDE, NO_TOPO},
        {HYBRID_INTEGRATE, T_ALTITUDE, TOPO_GEOPOT}, {HYBRID_INTEGRATE_HUM, T_ALTITUDE, TOPO_GEOPOT},
        {DEPTH, T_DEPTH, NO_TOPO},           {OCEAN_G1, T_DEPTH, NO_TOPO},       {OCEAN_G2, T_DEPTH, NO_TOPO},      {OCEAN_G2_NOETA, T_DEPTH, NO_TOPO},
    };
}

string levelAxisName(Target t)
{
    return t == T_PRESSURE ? "pressure" : t == T_HEIGHT ? "height" : t == T_ALTITUDE ? "height_above_msl" : "depth";
}

void toFixed(const KT& kt, Method m, int pk, bool reverse, TimeMode tm, SliceMode sm, bool packed, bool surfaceTime, int ignore, size_t nz)
{
    DS ds = mkDS(tm, sm, kt.topo, packed);
    ZA z = addAxis(ds, kt.kind, reverse, nz, "a_", surfaceTime);
    topography(ds);
    const Pack p = packOf(pk);
    auto val = [&](size_t x, size_t y, size_t k, size_t t) { return pk == 1 && x == 1 && k == 1 ? NaN : rawValue(x, y, k, t); };
    addV(ds, z, "v", p, val);
    field(ds, "flat", CDM_DOUBLE, {"lon", "lat", "time"}, "", 0, [](size_t x, size_t y, size_t, size_t t) { return x + 10. * y + 100 * t; });
    const string before = dump(ds.r);

    const VD req = requests(z, kt.target);
    auto vi = std::make_shared<CDMVerticalInterpolator>(ds.r, targetName[kt.target], methodName[m]);
    vi->ignoreValidityMin(ignore & 1);
    vi->ignoreValidityMax(ignore & 2);
    vi->interpolateToFixed(req);
    const CDM& cdm = vi->getCDM();

    // description
    string lv;
    {
        const vector<string> shape = cdm.getVariable("v").getShape();
        VF_CHECK(shape.size() == 4 && shape[0] == "lon" && shape[1] == "lat" && shape[3] == "time", "shape of v: " << str(shape));
        lv = shape[2];
        VF_CHECK(lv != z.dim && cdm.hasDimension(lv) && cdm.getDimension(lv).getLength() == req.size(), "level dimension " << lv);
        VF_CHECK(cdm.hasVariable(lv), "no axis variable for " << lv);
        expectValues(vi->getData(lv), req, "axis " + lv);
        VF_CHECK(cdm.getAttribute(lv, "units").getStringValue() == (kt.target == T_PRESSURE ? "hPa" : "m"), "units of the axis");
        VF_CHECK(cdm.getVariable("v").getDataType() == p.type, "type of v changed");
        VF_CHECK(!cdm.hasVariable(z.dim), "the replaced axis is still there");
    }
    // other variables
    VF_CHECK(cdm.getVariable("flat").getShape() == ds.r->getCDM().getVariable("flat").getShape(), "shape of flat");
    for (size_t t = 0; t < (ds.unlimited ? ds.nt : 1); ++t)
        expectValues(vi->getDataSlice("flat", t), values(ds.r->getDataSlice("flat", t)), "variable without levels");

    // data
    auto lev = [&](size_t, size_t, size_t l, size_t) { return req[l]; };
    for (size_t t = 0; t < ds.nt; ++t) {
        VD got;
        if (ds.unlimited) {
            DataPtr d = vi->getDataSlice("v", t);
            VF_CHECK(d->getDataType() == p.type, "data type");
            got = values(d);
        } else {
            const VD all = values(vi->getDataSlice("v", 0));
            VF_CHECK(all.size() == ds.nx * ds.ny * req.size() * ds.nt, "all.size " << all.size());
            const size_t n = all.size() / ds.nt;
            got.assign(all.begin() + t * n, all.begin() + (t + 1) * n);
        }
        checkColumns(ds, z, kt.target, m, p, lev, req.size(), z.exact && kt.target != T_HEIGHT ? true : (z.exact && !(kt.topo)), val, !(ignore & 1), !(ignore & 2), got, t, "v", z.vmin, z.vmax);
        // one slice of it
        SliceBuilder sb(cdm, "v");
        sb.setStartAndSize("time", t, 1);
        sb.setStartAndSize("lon", 1, ds.nx - 1);
        sb.setStartAndSize(lv, 2, 3);
        expectValues(vi->getDataSlice("v", sb), refSlice(got, {ds.nx, ds.ny, req.size()}, {1, 0, 2}, {ds.nx - 1, ds.ny, 3}), "slice of v");
    }
    VF_CHECK(dump(ds.r) == before, "the source changed");
}

/// interpolation to the levels of another variable's axis
void toOther(Kind from, Kind to, Target target, Method m, bool rev1, bool rev2, bool byTemplate, TimeMode tm, int ignore, bool levelsMove)
{
    DS ds = mkDS(tm, BY_BUILDER, (target == T_HEIGHT || target == T_ALTITUDE) ? TOPO_ALT : NO_TOPO, false);
    ZA z = addAxis(ds, from, rev1, 4, "a_"), o = addAxis(ds, to, rev2, 3, "b_", levelsMove);
    if (from != HYBRID_HEIGHT && to != HYBRID_HEIGHT)
        topography(ds);
    const Pack p = packOf(0);
    addV(ds, z, "v", p, rawValue);
    addV(ds, o, "u", p, [](size_t x, size_t y, size_t k, size_t t) { return 500 + rawValue(x, y, k, t); });
    auto vi = std::make_shared<CDMVerticalInterpolator>(ds.r, targetName[target], methodName[m]);
    vi->ignoreValidityMin(ignore & 1);
    vi->ignoreValidityMax(ignore & 2);
    if (byTemplate)
        vi->interpolateByTemplateVariable("u");
    else
        vi->interpolateToAxis(o.dim);
    const CDM& cdm = vi->getCDM();
    const vector<string> want = {"lon", "lat", o.dim, "time"};
    VF_CHECK(cdm.getVariable("v").getShape() == want, "shape of v: " << str(cdm.getVariable("v").getShape()));
    VF_CHECK(cdm.getVariable("u").getShape() == want, "shape of u: " << str(cdm.getVariable("u").getShape()));
    auto lev = [&](size_t x, size_t y, size_t l, size_t t) { return o.at[target](x, y, l, t); };
    // the limits of the target axis hold if it has any, else those of the source
    const bool oLimits = (o.vmin && !(ignore & 1)) || (o.vmax && !(ignore & 2));
    const auto& vmin = oLimits ? o.vmin : z.vmin;
    const auto& vmax = oLimits ? o.vmax : z.vmax;
    // forward, backward and again
    vector<size_t> times;
    for (size_t t = 0; t < ds.nt; ++t)
        times.push_back(t);
    for (size_t t = ds.nt; t-- > 0;)
        times.push_back(t);
    for (size_t t : times) {
        checkColumns(ds, z, target, m, p, lev, o.nz, z.exact && o.exact && (target == T_PRESSURE || target == T_DEPTH), rawValue, !(ignore & 1), !(ignore & 2), values(vi->getDataSlice("v", t)), t, "v", vmin, vmax);
        expectValues(vi->getDataSlice("u", t), values(ds.r->getDataSlice("u", t)), "the template variable");
    }
}

/// several variables on the same axis: without time, naming the axis in 'coordinates', held in memory, another axis untouched
void several(Kind kind, Target target, Method m, bool reverse, TimeMode tm, int which)
{
    DS ds = mkDS(tm, BY_BUILDER, NO_TOPO, false);
    ZA z = addAxis(ds, kind, reverse, 3, "a_");
    const Pack p = packOf(0);
    addV(ds, z, "v", p, rawValue);
    if (which & 1) {
        field(ds, "s", p.type, {"lon", "lat", z.dim}, z.dim, z.nz, rawValue);
        ds.r->att("s", "units", "kg");
    }
    if (which & 2) {
        addV(ds, z, "c", p, rawValue);
        ds.r->att("c", "coordinates", z.dim + " lat lon");
    }
    if (which & 4) {
        VD all;
        for (size_t t = 0; t < ds.nt; ++t)
            for (size_t k = 0; k < z.nz; ++k)
                for (size_t y = 0; y < ds.ny; ++y)
                    for (size_t x = 0; x < ds.nx; ++x)
                        all.push_back(rawValue(x, y, k, t));
        ds.r->varMem("m", CDM_FLOAT, {"lon", "lat", z.dim, "time"}, mk(CDM_FLOAT, all));
        ds.r->att("m", "units", "kg");
    }
    if (which & 8) {
        // a single level is not interpolated
        axis(*ds.r, "single", {2}, "m", "height");
        ds.r->att("single", "positive", "up");
        field(ds, "one", CDM_FLOAT, {"lon", "lat", "single", "time"}, "single", 1, rawValue);
    }
    const VD req = requests(z, target);
    auto vi = std::make_shared<CDMVerticalInterpolator>(ds.r, targetName[target], methodName[m]);
    vi->interpolateToFixed(req);
    const CDM& cdm = vi->getCDM();
    const string lv = cdm.getVariable("v").getShape()[2];
    auto lev = [&](size_t, size_t, size_t l, size_t) { return req[l]; };
    for (size_t t = 0; t < ds.nt; ++t) {
        auto one = [&](const string& name, bool timed) {
            const vector<string> shape = cdm.getVariable(name).getShape();
            VF_CHECK(shape.size() == (timed ? 4 : 3) && shape[2] == lv, name << " has shape " << str(shape));
            VD got = values(vi->getDataSlice(name, t));
            if (timed && !ds.unlimited) {
                const size_t n = ds.nx * ds.ny * req.size();
                VF_CHECK(got.size() == n * ds.nt, name << " has " << got.size() << " values");
                got = VD(got.begin() + t * n, got.begin() + (t + 1) * n);
            }
            checkColumns(ds, z, target, m, p, lev, req.size(), z.exact, [=](size_t x, size_t y, size_t k, size_t tt) { return rawValue(x, y, k, timed ? tt : 0); }, true, true, got, t, name, z.vmin, z.vmax);
        };
        one("v", true);
        if (which & 1)
            one("s", false);
        if (which & 2)
            one("c", true);
        if (which & 4)
            one("m", true);
        if (which & 8) {
            VF_CHECK(cdm.getVariable("one").getShape() == vector<string>({"lon", "lat", "single", "time"}), "shape of the single level");
            expectValues(vi->getDataSlice("one", t), values(ds.r->getDataSlice("one", t)), "single level");
        }
    }
}

/// all columns with few levels in any order, all patterns of missing values
void columns(const vector<int>& order, const VD& lv, Method m, Target target, const VD& req)
{
    const size_t nz = order.size();
    DS ds;
    ds.r = std::make_shared<TestReader>(BY_BUILDER);
    ds.nx = size_t(1) << nz;
    ds.ny = 1;
    ds.nt = 1;
    horizontal(ds);
    VD v;
    for (int i : order)
        v.push_back(lv[i]);
    axis(*ds.r, "lev", v, target == T_PRESSURE ? "hPa" : "m", "");
    ds.r->att("lev", "axis", "Z");
    ds.r->att("lev", "positive", target == T_HEIGHT ? "up" : "down");
    ZA z;
    z.dim = "lev";
    z.nz = nz;
    z.at[target] = [v](size_t, size_t, size_t k, size_t) { return v[k]; };
    Pack p;
    auto val = [&](size_t x, size_t, size_t k, size_t) { return (x >> k) & 1 ? NaN : 2. + 3 * v[k] * v[k] + k; };
    p.fill = NaN;
    p.attFill = true;
    addV(ds, z, "v", p, val);
    auto vi = std::make_shared<CDMVerticalInterpolator>(ds.r, targetName[target], methodName[m]);
    vi->interpolateToFixed(req);
    checkColumns(ds, z, target, m, p, [&](size_t, size_t, size_t l, size_t) { return req[l]; }, req.size(), m != LOG && m != LOGLOG, val, true, true, values(vi->getDataSlice("v", 0)), 0, "column", nullptr, nullptr);
}

/// every part of the vertical coordinate field
void converter(const KT& kt, bool reverse, TimeMode tm, bool packed, bool surfaceTime, size_t nx, size_t ny, bool thorough)
{
    DS ds;
    ds.r = std::make_shared<TestReader>(BY_BUILDER);
    ds.nx = nx;
    ds.ny = ny;
    ds.nt = tm == UNLIM1 ? 1 : 2;
    ds.unlimited = tm != FIXED2;
    ds.topo = kt.topo;
    ds.packedTerms = packed;
    horizontal(ds);
    ZA z = addAxis(ds, kt.kind, reverse, 4, "a_", surfaceTime);
    topography(ds);
    addV(ds, z, "v", packOf(0), rawValue);
    auto cs = findCompleteCoordinateSystemFor(listCoordinateSystems(ds.r), "v");
    VF_CHECK(cs && cs->hasVerticalTransformation(), "no vertical transformation");
    VerticalConverter_p c = cs->getVerticalTransformation()->getConverter(ds.r, cs, targetVint[kt.target]);
    VF_CHECK(c, "no converter");
    const vector<string> shape = c->getShape();
    VS dims;
    bool hasZ = false;
    for (const string& d : shape) {
        dims.push_back(ds.r->getCDM().getDimension(d).getLength());
        hasZ |= d == z.dim;
    }
    VF_CHECK(hasZ, "shape of the levels without the vertical axis: " << str(shape));
    for (size_t i = 0; i < shape.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            VF_CHECK(shape[i] != shape[j], "dimension twice: " << str(shape));
    // the coordinate must not depend on a dimension that is left out
    VD all;
    for (size_t i = 0; i < prod(dims); ++i) {
        size_t q = i, x = 0, y = 0, k = 0, t = 0;
        for (size_t j = 0; j < shape.size(); ++j) {
            const size_t pos = q % dims[j];
            q /= dims[j];
            (shape[j] == "lon" ? x : shape[j] == "lat" ? y : shape[j] == z.dim ? k : t) = pos;
        }
        all.push_back(z.at[kt.target](x, y, k, t));
    }
    // all start and size
    std::function<void(size_t, VS&, VS&)> rec = [&](size_t i, VS& start, VS& size) {
        if (i == dims.size()) {
            SliceBuilder sb(shape, dims);
            for (size_t j = 0; j < dims.size(); ++j)
                sb.setStartAndSize(shape[j], start[j], size[j]);
            DataPtr d = c->getDataSlice(sb);
            VF_CHECK(d, "no data");
            EX->step();
            expectClose(d, refSlice(all, dims, start, size), "levels " + string(targetName[kt.target]) + " start " + str(start) + " size " + str(size), 2e-6, 2e-3);
            return;
        }
        for (size_t s = 0; s < dims[i]; ++s)
            for (size_t n = 1; s + n <= dims[i]; ++n) {
                if (!thorough && shape[i] != z.dim && n > 1 && n < dims[i])
                    continue;
                start[i] = s;
                size[i] = n;
                rec(i + 1, start, size);
            }
    };
    VS start(dims.size()), size(dims.size());
    rec(0, start, size);
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool T = ex.thorough();
    const auto kts = kindTargets();

    ex.space("fixed levels: vertical coordinate x method x type x direction x time axis");
    for (const KT& kt : kts)
        for (int m = 0; m < NMETHODS; ++m)
            for (int pk = 0; pk < 4; ++pk)
                for (int rev = 0; rev < 2; ++rev)
                    for (int tm = 0; tm < (T ? 4 : 3); ++tm) {
                        if (!T && (pk + rev + tm + m) % 3)
                            continue;
                        const string what = string(kindName[kt.kind]) + " to " + targetName[kt.target] + " topo " + std::to_string(kt.topo) + ", " + methodName[m] + ", packing " + std::to_string(pk) +
                                            (rev ? ", reversed" : "") + ", " + timeName[tm];
                        ex.run([=] { return what; }, [=] { toFixed(kt, Method(m), pk, rev, TimeMode(tm), tm == UNLIM2 ? BY_UNLIMITED : BY_BUILDER, pk == 1, true, 0, 4); });
                    }
    ex.space("fixed levels: terms without time, limits ignored, number of levels");
    for (const KT& kt : kts)
        for (int m : {int(LIN), int(LIN_NO), int(NN)})
            for (int st = kt.kind == HYBRID_INTEGRATE || kt.kind == HYBRID_INTEGRATE_HUM ? 1 : 0; st < 2; ++st)
                for (int ign = 0; ign < 4; ++ign) {
                    if (kt.target != T_DEPTH && (ign & 1))
                        continue;
                    for (int nz = 2; nz <= 4; ++nz) {
                        const string what = string(kindName[kt.kind]) + " to " + targetName[kt.target] + " topo " + std::to_string(kt.topo) + ", " + methodName[m] + (st ? "" : ", constant terms") + ", ignoring " +
                                            std::to_string(ign) + ", " + std::to_string(nz) + " levels";
                        ex.run([=] { return what; }, [=] { toFixed(kt, Method(m), 0, nz == 3, UNLIM2, BY_BUILDER, false, st, ign, nz); });
                    }
                }

    ex.space("levels of another axis: kinds x method x direction x template");
    const vector<vector<Kind>> groups = {{PRESSURE_HPA, PRESSURE_PA, SIGMA, HYBRID_A, HYBRID_AP, LNP}, {HEIGHT_M, ALTITUDE, HYBRID_HEIGHT}, {HEIGHT_M, ALTITUDE, HYBRID_HEIGHT}, {DEPTH, OCEAN_G1, OCEAN_G2}};
    const vector<Target> gt = {T_PRESSURE, T_HEIGHT, T_ALTITUDE, T_DEPTH};
    for (size_t g = 0; g < groups.size(); ++g)
        for (Kind a : groups[g])
            for (Kind b : groups[g]) {
                if ((a == HYBRID_HEIGHT) != (b == HYBRID_HEIGHT))
                    continue; // two different topographies would be ambiguous
                if (a == HYBRID_HEIGHT)
                    continue;
                for (int m = 0; m < NMETHODS; ++m)
                    for (int rev = 0; rev < 4; ++rev)
                        for (int tp = 0; tp < 4; ++tp) {
                            if (!T && (m + rev + tp) % 3)
                                continue;
                            const bool move = tp & 2;
                            const string what = string(kindName[a]) + " to the levels of " + kindName[b] + " by " + targetName[gt[g]] + ", " + methodName[m] + ", directions " + std::to_string(rev) + (tp & 1 ? ", template" : ", axis") + (move ? ", moving" : "");
                            ex.run([=] { return what; }, [=] { toOther(a, b, gt[g], Method(m), rev & 1, rev & 2, tp & 1, move && m % 2 ? UNLIM3 : UNLIM2, gt[g] == T_DEPTH ? (m + rev) % 4 : 0, move); });
                        }
            }

    ex.space("several variables on the axis");
    for (Kind k : {PRESSURE_HPA, PRESSURE_PA, HEIGHT_M, ALTITUDE, DEPTH, LNP})
        for (int m : {int(LIN), int(NN), int(LIN_NO)})
            for (int rev = 0; rev < 2; ++rev)
                for (int tm = 0; tm < 3; ++tm)
                    for (int which = 1; which < 16; ++which) {
                        const Target t = k == HEIGHT_M ? T_HEIGHT : k == ALTITUDE ? T_ALTITUDE : k == DEPTH ? T_DEPTH : T_PRESSURE;
                        const string what = string(kindName[k]) + ", " + methodName[m] + (rev ? ", reversed" : "") + ", " + timeName[tm] + ", variables " + std::to_string(which);
                        ex.run([=] { return what; }, [=] { several(k, t, Method(m), rev, TimeMode(tm), which); });
                    }

    ex.space("columns: order of the levels x method x missing values x requests");
    const VD lv = {1, 2, 3.5, 8};
    VD req;
    for (double x = -1; x <= 10; x += T ? 0.25 : 0.5)
        req.push_back(x);
    req.push_back(40);
    for (size_t nz = 2; nz <= 4; ++nz) {
        vector<int> idx = {0, 1, 2, 3};
        std::set<vector<int>> seen;
        std::sort(idx.begin(), idx.end());
        do {
            vector<int> o(idx.begin(), idx.begin() + nz);
            if (!seen.insert(o).second)
                continue;
            for (int m = 0; m < NMETHODS; ++m)
                for (Target t : {T_PRESSURE, T_HEIGHT, T_DEPTH}) {
                    if (!T && t != T_HEIGHT)
                        continue;
                    string what = "levels";
                    for (int i : o)
                        what += " " + std::to_string(lv[i]).substr(0, 3);
                    ex.run([=] { return what + ", " + methodName[m] + ", " + targetName[t]; }, [=] { columns(o, lv, Method(m), t, req); });
                }
        } while (std::next_permutation(idx.begin(), idx.end()));
    }

    ex.space("vertical coordinate fields: every part");
    for (const KT& kt : kts)
        for (int rev = 0; rev < 2; ++rev)
            for (int tm = 0; tm < 3; ++tm)
                for (int packed = 0; packed < 2; ++packed)
                    for (int st = kt.kind == HYBRID_INTEGRATE || kt.kind == HYBRID_INTEGRATE_HUM ? 1 : 0; st < 2; ++st)
                        for (int sz = 0; sz < 4; ++sz) {
                            if (!T && (packed + st + sz + tm) % 2)
                                continue;
                            const size_t nx = sz & 1 ? 1 : 3, ny = sz & 2 ? 1 : 2;
                            const string what = string(kindName[kt.kind]) + " as " + targetName[kt.target] + " topo " + std::to_string(kt.topo) + (rev ? ", reversed" : "") + ", " + timeName[tm] + (packed ? ", packed" : "") +
                                                (st ? "" : ", constant terms") + ", " + std::to_string(nx) + "x" + std::to_string(ny);
                            ex.run([=] { return what; }, [=] { converter(kt, rev, TimeMode(tm), packed, st, nx, ny, T); });
                        }
}
