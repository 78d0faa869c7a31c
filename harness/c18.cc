// C18: merging an inner into an outer dataset: border smoothing, overlay, merger
#include "fx.h"
#include "fimex/CDMBorderSmoothing.h"
#include "fimex/CDMBorderSmoothing_Linear.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include "fimex/Type2String.h"

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
vf::Explorer* EX = nullptr;
const double NaN = std::numeric_limits<double>::quiet_NaN();
const size_t NT = 2, NZ = 2;

/// how values are stored
enum Store { FLOAT, DOUBLE, PACKED, KELVIN_OUTER, NOFILL, OTHERFILL, OFFSETS, SCALES, TYPES };
const int NSTORE = 9;

struct Cfg
{
    VD xi = {10, 11, 12, 13, 14, 15}, yi = {60, 61, 62, 63}; ///< inner axes
    VD xo = {4, 8, 12, 16, 20}, yo = {56, 58, 60, 62, 64, 66}; ///< outer axes
    Store store = FLOAT;
    bool stere = false;    ///< axes in projection coordinates
    double unitI = 1, unitO = 1; ///< km per axis unit (stere)
    unsigned missI = 0;    ///< bits: inner cells without value
    bool missO = false;    ///< outer cell (0,0) without value
    bool otherZ = false;   ///< the vertical dimension has another name in outer
    SliceMode mode = BY_BUILDER;
    bool extras = true;
    bool memory = false;
};

/// inner value, arbitrary
double inner(const Cfg& c, size_t i, size_t j, size_t k, size_t t)
{
    const size_t cell = i + j * c.xi.size();
    if (cell < 32 && (c.missI >> cell & 1))
        return NaN;
    static const int w[] = {3, -7, 11, 2, 9, -4, 6};
    return w[(i * 3 + j * 5 + k + t * 2) % 7] + 50. + 20. * k - 10. * t;
}

/// outer value, linear in space
double outer(const Cfg& c, double x, double y, size_t k, size_t t)
{
    if (c.missO && x < c.xo[1] && y < c.yo[1] && x > c.xo[0] - 1e-9)
        return NaN; // cells using the corner value
    return 200 + 3 * x + 5 * (y - 60) + 30. * k + 70. * t;
}

void grid(TestReader& r, const Cfg& c, bool in)
{
    const VD &x = in ? c.xi : c.xo, &y = in ? c.yi : c.yo;
    r.att("", "Conventions", "CF-1.4");
    if (c.stere) {
        const double u = in ? c.unitI : c.unitO;
        VD xv, yv;
        for (double v : x)
            xv.push_back((v - 12) * 50 / u);
        for (double v : y)
            yv.push_back((v - 60) * 50 / u);
        const string un = u == 1 ? "km" : "m";
        axis(r, "x", xv, un, "projection_x_coordinate");
        axis(r, "y", yv, un, "projection_y_coordinate");
        r.var("projection_0", CDM_INT, {}, {0});
        r.att("projection_0", "grid_mapping_name", "stereographic");
        r.att("projection_0", "latitude_of_projection_origin", CDM_DOUBLE, {90});
        r.att("projection_0", "straight_vertical_longitude_from_pole", CDM_DOUBLE, {10});
        r.att("projection_0", "standard_parallel", CDM_DOUBLE, {60});
        r.att("projection_0", "earth_radius", CDM_DOUBLE, {6371000});
    } else {
        axis(r, "x", x, "degrees_east", "longitude");
        axis(r, "y", y, "degrees_north", "latitude");
    }
    const string z = !in && c.otherZ ? "lev" : "z";
    axis(r, z, {1000, 500}, "hPa", "air_pressure");
    axis(r, "time", {0, 6}, "hours since 2020-01-01 00:00:00", "time", CDM_DOUBLE, true);
}

struct V
{
    const char* name;
    bool hasZ, hasT;
};
const V vs[] = {{"ta", false, true}, {"t3", true, true}, {"fix", false, false}, {"f3", true, false}};

double unpackScale(const Cfg& c, bool in)
{
    return c.store == PACKED || c.store == SCALES ? (in ? 0.5 : 0.25) : 1;
}

CDMReader_p mk1(const Cfg& c, bool in)
{
    TestReader_p r = std::make_shared<TestReader>(c.mode);
    grid(*r, c, in);
    const VD &x = in ? c.xi : c.xo, &y = in ? c.yi : c.yo;
    for (const V& v : vs) {
        vector<string> shape = {"x", "y"};
        if (v.hasZ)
            shape.push_back(!in && c.otherZ ? "lev" : "z");
        if (v.hasT)
            shape.push_back("time");
        VD vals;
        const double fill = c.store == NOFILL ? NaN : (c.store == OTHERFILL && !in ? 53 : -999), scale = unpackScale(c, in), off = c.store == PACKED ? 5 : (c.store == OFFSETS ? (in ? 5 : 25) : 0);
        for (size_t t = 0; t < (v.hasT ? NT : 1); ++t)
            for (size_t k = 0; k < (v.hasZ ? NZ : 1); ++k)
                for (size_t j = 0; j < y.size(); ++j)
                    for (size_t i = 0; i < x.size(); ++i) {
                        double p = in ? inner(c, i, j, k, t) : (c.missO && i == 0 && j == 0 ? NaN : 200 + 3 * x[i] + 5 * (y[j] - 60) + 30. * k + 70. * t);
                        if (c.store == KELVIN_OUTER && !in)
                            p += 273.15;
                        vals.push_back(std::isnan(p) ? fill : (p - off) / scale);
                    }
        const CDMDataType type = c.store == PACKED ? (in ? CDM_SHORT : CDM_INT) : (c.store == DOUBLE || c.store == OTHERFILL || c.store == OFFSETS || (c.store == TYPES && in) ? CDM_DOUBLE : CDM_FLOAT);
        if (c.memory)
            r->varMem(v.name, type, shape, mk(type, vals));
        else
            r->var(v.name, type, shape, vals);
        if (c.store != NOFILL)
            r->att(v.name, "_FillValue", type, {fill});
        if (c.store == PACKED || c.store == OFFSETS || c.store == SCALES) {
            r->att(v.name, "scale_factor", CDM_DOUBLE, {scale});
            r->att(v.name, "add_offset", CDM_DOUBLE, {off});
        }
        r->att(v.name, "units", c.store == KELVIN_OUTER && !in ? "K" : "degC");
        if (c.stere)
            r->att(v.name, "grid_mapping", "projection_0");
    }
    if (c.extras) {
        const string z = !in && c.otherZ ? "lev" : "z";
        r->var("ap", CDM_SHORT, {z}, {7, 8});
        r->att("ap", "scale_factor", CDM_DOUBLE, {0.1});
        r->var("p0", CDM_SHORT, {}, {101});
        r->att("p0", "scale_factor", CDM_DOUBLE, {10});
        r->var("step", CDM_SHORT, {"time"}, {4, 5});
        r->att("step", "scale_factor", CDM_DOUBLE, {2});
        r->dim("n", 2);
        vector<string> sh = {"x", "y"};
        VD ev(x.size() * y.size() * (in ? 1 : 2), in ? 1 : 2);
        if (!in)
            sh.push_back("n");
        r->var("other", CDM_FLOAT, sh, ev);
        r->att("other", "units", "1");
        if (c.stere)
            r->att("other", "grid_mapping", "projection_0");
        const string only = in ? "onlyI" : "onlyO";
        VD ov;
        for (size_t j = 0; j < y.size(); ++j)
            for (size_t i = 0; i < x.size(); ++i)
                ov.push_back(in ? 1. * i + j : x[i] + 2 * y[j]);
        r->var(only, CDM_FLOAT, {"x", "y"}, ov);
        r->att(only, "units", "m");
        if (c.stere)
            r->att(only, "grid_mapping", "projection_0");
    }
    return r;
}

/// weight of the outer value
double weight(size_t x, size_t nx, size_t y, size_t ny, size_t t, size_t b)
{
    if (x < b || y < b || x >= nx - b || y >= ny - b)
        return 1;
    auto dist = [&](size_t p, size_t n) -> double {
        const double lo = double(b + t), hi = double(n) - double(b) - double(t);
        return p < lo ? lo - p : (p > hi ? p - hi : 0);
    };
    const double dx = dist(x, nx), dy = dist(y, ny);
    return std::min(1., std::sqrt(dx * dx + dy * dy) / t);
}

bool largeEnough(const Cfg& c, size_t t, size_t b)
{
    return c.xi.size() >= 2 * (t + b) && c.yi.size() >= 2 * (t + b);
}

/// smoothed value on the inner grid; [lo,hi] when the widths overlap
void smoothed(const Cfg& c, size_t i, size_t j, size_t k, size_t t, size_t tw, size_t bw, bool useOuter, double& lo, double& hi)
{
    const double vi = inner(c, i, j, k, t), vo = outer(c, c.xi[i], c.yi[j], k, t);
    if (std::isnan(vi)) {
        lo = hi = useOuter ? vo : NaN;
    } else if (std::isnan(vo)) {
        lo = hi = vi;
    } else if (i < bw || j < bw || i + bw >= c.xi.size() || j + bw >= c.yi.size()) {
        lo = hi = vo;
    } else if (largeEnough(c, tw, bw)) {
        lo = hi = vi + weight(i, c.xi.size(), j, c.yi.size(), tw, bw) * (vo - vi);
    } else {
        lo = std::min(vi, vo);
        hi = std::max(vi, vo);
    }
}

typedef std::function<void(size_t i, size_t j, size_t k, size_t t, double& lo, double& hi)> Want;

/// compare a variable of a reader with the expected physical values in degC
void compare(CDMReader_p r, const Cfg& c, const V& v, size_t nx, size_t ny, const Want& want)
{
    const CDM& cdm = r->getCDM();
    VF_CHECK(cdm.hasVariable(v.name), v.name << " is gone");
    const CDMDataType type = cdm.getVariable(v.name).getDataType();
    VF_CHECK(type == (c.store == PACKED ? CDM_SHORT : (c.store == DOUBLE || c.store == OTHERFILL || c.store == OFFSETS || c.store == TYPES ? CDM_DOUBLE : CDM_FLOAT)), v.name << " has type " << datatype2string(type));
    VF_CHECK(cdm.getUnits(v.name) == "degC", v.name << " has unit " << cdm.getUnits(v.name));
    const double scale = unpackScale(c, true), off = c.store == PACKED || c.store == OFFSETS ? 5 : 0, fill = c.store == NOFILL ? NaN : -999;
    const size_t nz = v.hasZ ? NZ : 1, n = nx * ny * nz;
    for (size_t t = 0; t < (v.hasT ? NT : 1); ++t) {
        DataPtr d = r->getDataSlice(v.name, t);
        VF_CHECK(d->size() == n && d->getDataType() == type, v.name << " slice has " << d->size() << " values of type " << datatype2string(d->getDataType()));
        const VD raw = values(d);
        size_t p = 0;
        for (size_t k = 0; k < nz; ++k)
            for (size_t j = 0; j < ny; ++j)
                for (size_t i = 0; i < nx; ++i, ++p) {
                    double lo, hi;
                    want(i, j, k, t, lo, hi);
                    const bool missing = std::isnan(raw[p]) || raw[p] == fill || (std::isnan(fill) && raw[p] > 9e36);
                    if (std::isnan(lo)) {
                        VF_CHECK(missing, v.name << " at " << i << ',' << j << ',' << k << ',' << t << " is " << raw[p] << ", should be missing");
                    } else {
                        const double got = raw[p] * scale + off, tol = (c.store == PACKED ? 0.5001 * scale : 0) + 2e-3;
                        VF_CHECK(!missing && got >= lo - tol && got <= hi + tol, v.name << " at " << i << ',' << j << ',' << k << ',' << t << " is " << got << ", should be " << lo << ".." << hi);
                    }
                }
        EX->step(n);
    }
}

void extras(CDMReader_p r, bool keepsOuter)
{
    const CDM& cdm = r->getCDM();
    if (cdm.hasVariable("ap")) {
        VF_CHECK(r->getData("ap")->getDataType() == CDM_SHORT, "type of ap");
        expectValues(r->getData("ap"), {7, 8}, "ap");
    }
    if (cdm.hasVariable("p0")) {
        VF_CHECK(r->getData("p0")->getDataType() == CDM_SHORT, "type of p0");
        expectValues(r->getData("p0"), {101}, "p0");
    }
    if (cdm.hasVariable("step")) {
        expectValues(r->getData("step"), {4, 5}, "step");
        VF_CHECK(r->getData("step")->getDataType() == CDM_SHORT, "type of step");
    }
    VF_CHECK(keepsOuter || !cdm.hasVariable("other"), "variable with other dimensions kept");
    VF_CHECK(cdm.hasVariable("onlyO") == keepsOuter, "variable of the outer dataset " << (keepsOuter ? "missing" : "kept"));
    // whatever is declared can be read, with the declared type and size
    for (const CDMVariable& v : cdm.getVariables()) {
        DataPtr d;
        string msg;
        VF_CHECK(!throws([&] { d = r->getData(v.getName()); }, &msg), v.getName() << " cannot be read: " << msg);
        size_t n = 1;
        for (const string& s : v.getShape())
            n *= cdm.getDimension(s).getLength();
        VF_CHECK((d->size() == n || (v.getShape().empty() && d->size() == 0)) && d->getDataType() == v.getDataType(), v.getName() << " has " << d->size() << " values of type " << datatype2string(d->getDataType()) << ", declared are " << n << " of " << datatype2string(v.getDataType()));
        EX->step(1);
    }
}

void smoothing(const Cfg& c, size_t tw, size_t bw, bool useOuter, bool byText)
{
    CDMReader_p I = mk1(c, true), O = mk1(c, false);
    const string di = dump(I), doo = dump(O);
    auto r = std::make_shared<CDMBorderSmoothing>(I, O);
    if (byText)
        r->setSmoothing(createSmoothingFactory("LINEAR(" + type2string(tw) + "," + type2string(bw) + ")"));
    else
        r->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(tw, bw));
    r->setUseOuterIfInnerUndefined(useOuter);
    for (const V& v : vs)
        compare(r, c, v, c.xi.size(), c.yi.size(), [&](size_t i, size_t j, size_t k, size_t t, double& lo, double& hi) { smoothed(c, i, j, k, t, tw, bw, useOuter, lo, hi); });
    if (c.extras)
        extras(r, false);
    VF_CHECK(dump(I) == di && dump(O) == doo, "a source changed");
}

void overlay(const Cfg& c, bool keep)
{
    CDMReader_p I = mk1(c, true), O = mk1(c, false);
    auto r = std::make_shared<CDMOverlay>(O, I, MIFI_INTERPOL_BILINEAR, keep);
    for (const V& v : vs)
        compare(r, c, v, c.xi.size(), c.yi.size(), [&](size_t i, size_t j, size_t k, size_t t, double& lo, double& hi) {
            const double vi = inner(c, i, j, k, t);
            lo = hi = std::isnan(vi) ? outer(c, c.xi[i], c.yi[j], k, t) : vi;
        });
    if (c.extras)
        extras(r, keep);
    if (keep && c.extras) {
        VD want;
        for (double y : c.yi)
            for (double x : c.xi)
                want.push_back(x + 2 * y);
        expectClose(r->getData("onlyO"), want, "outer variable", 1e-5);
    }
}

/// inner axis continued inside the outer one
VD extended(const VD& in, const VD& out)
{
    const double s = in[1] - in[0], lo = std::min(out.front(), out.back()) - 1e-9, hi = std::max(out.front(), out.back()) + 1e-9;
    VD v;
    for (double x = in[0] - s; x >= lo && x <= hi; x -= s)
        v.insert(v.begin(), x);
    v.insert(v.end(), in.begin(), in.end());
    for (double x = in.back() + s; x >= lo && x <= hi; x += s)
        v.push_back(x);
    return v;
}

int indexOf(const VD& axis, double v)
{
    for (size_t i = 0; i < axis.size(); ++i)
        if (std::fabs(axis[i] - v) < 1e-9)
            return i;
    return -1;
}

void merged(CDMReader_p r, const Cfg& c, const VD& tx, const VD& ty, size_t tw, size_t bw, bool useOuter, bool keep, double unit)
{
    const CDM& cdm = r->getCDM();
    for (int d = 0; d < 2; ++d) {
        const string name = d ? "y" : "x";
        VD want = d ? ty : tx;
        if (c.stere)
            for (double& w : want)
                w = (w - (d ? 60 : 12)) * 50 / unit;
        VF_CHECK(cdm.hasVariable(name), "axis " << name << " is gone");
        expectClose(r->getData(name), want, "axis " + name, 1e-9, 1e-6);
        if (c.stere)
            VF_CHECK(cdm.getUnits(name) == (unit == 1 ? "km" : "m"), "unit of axis " << name << " " << cdm.getUnits(name));
    }
    for (const V& v : vs)
        compare(r, c, v, tx.size(), ty.size(), [&](size_t i, size_t j, size_t k, size_t t, double& lo, double& hi) {
            const int ii = indexOf(c.xi, tx[i]), jj = indexOf(c.yi, ty[j]);
            if (ii >= 0 && jj >= 0)
                smoothed(c, ii, jj, k, t, tw, bw, useOuter, lo, hi);
            const double vo = outer(c, tx[i], ty[j], k, t);
            if (ii < 0 || jj < 0 || std::isnan(lo)) {
                lo = hi = vo;
                return;
            }
            // interpolation needs all cells around: with an undefined one the outer value may be taken
            for (int a = ii - 1; a <= ii + 1; ++a)
                for (int b = jj - 1; b <= jj + 1; ++b)
                    if (a >= 0 && b >= 0 && a < int(c.xi.size()) && b < int(c.yi.size())) {
                        double l, h;
                        smoothed(c, a, b, k, t, tw, bw, useOuter, l, h);
                        if (std::isnan(l)) {
                            lo = std::min(lo, vo);
                            hi = std::max(hi, vo);
                        }
                    }
        });
    if (c.extras)
        extras(r, keep);
}

/// order: settings before or after the target grid
void merger(const Cfg& c, size_t tw, size_t bw, bool useOuter, bool keep, int order)
{
    CDMReader_p I = mk1(c, true), O = mk1(c, false);
    const string di = dump(I), doo = dump(O);
    auto r = std::make_shared<CDMMerger>(I, O);
    VF_CHECK(throws([&] { r->getDataSlice("ta", 0); }), "data without target grid");
    r->setKeepOuterVariables(keep);
    auto settings = [&] {
        r->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(tw, bw));
        r->setUseOuterIfInnerUndefined(useOuter);
    };
    if (order == 0)
        settings();
    VD tx = extended(c.xi, c.xo), ty = extended(c.yi, c.yo);
    r->setTargetGridFromInner();
    if (order == 2) {
        r->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(tw + 1, bw));
        r->setUseOuterIfInnerUndefined(!useOuter);
    }
    if (order >= 1)
        settings();
    merged(r, c, tx, ty, tw, bw, useOuter, keep, 0.001);
    VF_CHECK(dump(I) == di && dump(O) == doo, "a source changed");
}

void target(const Cfg& c, const VD& tx, const VD& ty, bool text)
{
    CDMReader_p I = mk1(c, true), O = mk1(c, false);
    auto r = std::make_shared<CDMMerger>(I, O);
    r->setSmoothing(std::make_shared<CDMBorderSmoothing_LinearFactory>(1, 0));
    const string proj = "+proj=longlat +R=6371000 +no_defs";
    // another grid first: the last one counts
    r->setTargetGrid(proj, VD{10, 11}, VD{60, 61}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
    if (text) {
        auto join = [](const VD& v) {
            string s;
            for (double x : v)
                s += (s.empty() ? "" : ",") + type2string(x);
            return s;
        };
        r->setTargetGrid(proj, join(tx), join(ty), "degrees_east", "degrees_north", "double", "double");
    } else {
        r->setTargetGrid(proj, tx, ty, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
    }
    merged(r, c, tx, ty, 1, 0, true, false, 1);
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool T = ex.thorough();
    auto rev = [](VD v) {
        std::reverse(v.begin(), v.end());
        return v;
    };
    auto seq = [](double a, size_t n, double s = 1) {
        VD v;
        for (size_t i = 0; i < n; ++i)
            v.push_back(a + i * s);
        return v;
    };
    const char* storeName[] = {"float", "double", "packed", "Kelvin outside", "no fill value", "other fill value outside", "other offset outside", "other scale outside", "float outside"};

    ex.space("the linear transition");
    for (size_t nx = 1; nx <= (T ? 12 : 9); ++nx)
        for (size_t ny = 1; ny <= (T ? 12 : 9); ++ny)
            for (size_t t = 1; t <= 3; ++t)
                for (size_t b = 0; b <= 2; ++b)
                    ex.run([=] { return "size " + std::to_string(nx) + "x" + std::to_string(ny) + " transition " + std::to_string(t) + " border " + std::to_string(b); }, [=] {
                        auto f = createSmoothingFactory("LINEAR(" + type2string(t) + "," + type2string(b) + ")");
                        auto s = (*f)("x");
                        s->setHorizontalSizes(nx, ny);
                        for (size_t x = 0; x < nx; ++x)
                            for (size_t y = 0; y < ny; ++y) {
                                const double got = (*s)(x, y, 10, 20), back = (*s)(x, y, 20, 10);
                                VF_CHECK(got >= 10 && got <= 20, "value " << got << " at " << x << ',' << y);
                                VF_CHECK(std::fabs(got + back - 30) < 1e-9, "not symmetric in the values");
                                VF_CHECK((*s)(x, y, 7, 7) == 7, "equal values changed");
                                const bool border = x < b || y < b || x + b >= nx || y + b >= ny;
                                if (border)
                                    VF_CHECK(got == 20, "border value " << got << " at " << x << ',' << y);
                                else if (nx >= 2 * (t + b) && ny >= 2 * (t + b))
                                    VF_CHECK(std::fabs(got - (10 + 10 * weight(x, nx, y, ny, t, b))) < 1e-9, "value " << got << " at " << x << ',' << y << ", should be " << 10 + 10 * weight(x, nx, y, ny, t, b));
                            }
                        EX->step(nx * ny);
                    });
    for (const char* s : {"", "LINEAR", "LINEAR()", "LINEAR(1)", "LINEAR(1,)", "LINEAR(1,2,3)", "LINEAR(a,1)", "LINEAR(0,1)", "CUBIC(1,2)", "LINEAR(1,2)x", "linear(1,2)", "LINEAR(-1,2)", "LINEAR(1,-2)"})
        ex.run([=] { return string("refused: ") + s; }, [=] { VF_CHECK(throws([&] { createSmoothingFactory(s); }), "accepted"); });

    ex.space("border smoothing");
    for (size_t nx = 2; nx <= (T ? 8 : 6); ++nx)
        for (size_t ny = 2; ny <= (T ? 8 : 6); ++ny)
            for (size_t t = 1; t <= 2; ++t)
                for (size_t b = 0; b <= 1; ++b)
                    for (int st = 0; st < NSTORE; ++st) {
                        if (!T && (nx + ny + t + b + st) % 2)
                            continue;
                        ex.run([=] { return string(storeName[st]) + " size " + std::to_string(nx) + "x" + std::to_string(ny) + " transition " + std::to_string(t) + " border " + std::to_string(b); }, [=] {
                            Cfg c;
                            c.store = Store(st);
                            c.xi = seq(10, nx);
                            c.yi = (nx + t) % 2 ? seq(60, ny, 0.5) : rev(seq(60, ny, 0.5));
                            c.mode = SliceMode(ny % 2);
                            c.memory = nx % 3 == 0;
                            c.missO = b;
                            smoothing(c, t, b, nx % 2, ny % 2);
                        });
                    }
    ex.space("border smoothing, missing inner values");
    for (unsigned m = 0; m < (T ? 4096u : 512u); ++m)
        ex.run([=] { return "pattern " + std::to_string(m); }, [=] {
            Cfg c;
            c.xi = seq(10, T ? 4 : 3);
            c.yi = seq(60, 3);
            c.missI = m;
            c.extras = false;
            c.store = Store(m % NSTORE);
            smoothing(c, 1, 0, m & 1 ? m % 3 : m % 2, false);
            overlay(c, false);
        });
    ex.space("overlay");
    for (int st = 0; st < NSTORE; ++st)
        for (int keep = 0; keep < 2; ++keep)
            for (int z = 0; z < 2; ++z)
                for (int mem = 0; mem < 2; ++mem)
                    for (int dir = 0; dir < 4; ++dir)
                        for (int so = 0; so < 2; ++so)
                            ex.run([=] { return string(storeName[st]) + (keep ? " keep" : "") + (z ? " other z" : "") + (mem ? " memory" : "") + " direction " + std::to_string(dir) + (so ? " stereographic" : ""); }, [=] {
                                Cfg c;
                                c.store = Store(st);
                                c.otherZ = z;
                                c.memory = mem;
                                c.stere = so;
                                if (dir & 1)
                                    c.xi = rev(c.xi);
                                if (dir & 2)
                                    c.yo = rev(c.yo);
                                c.missI = 0x0081c3;
                                overlay(c, keep);
                            });
    ex.space("merger");
    for (int st = 0; st < NSTORE; ++st)
        for (int keep = 0; keep < 2; ++keep)
            for (int order = 0; order < 3; ++order)
                for (int use = 0; use < 2; ++use)
                    for (int dir = 0; dir < 16; ++dir)
                        for (int so = 0; so < 3; ++so) {
                            if (!T && (st + keep + order + use + so + dir) % 5)
                                continue;
                            ex.run([=] { return string(storeName[st]) + (keep ? " keep" : "") + " order " + std::to_string(order) + (use ? " outer if undefined" : "") + " directions " + std::to_string(dir) + " projection " + std::to_string(so); }, [=] {
                                Cfg c;
                                c.store = Store(st);
                                c.stere = so > 0;
                                c.unitI = so == 2 ? 0.001 : 1;
                                if (so == 0) { // also steps that do not fit
                                    c.xi = seq(10.5, 5, 1.5);
                                    c.yi = seq(58.5, 5, 1.25);
                                }
                                if (dir & 1)
                                    c.xi = rev(c.xi);
                                if (dir & 2)
                                    c.yi = rev(c.yi);
                                if (dir & 4)
                                    c.xo = rev(c.xo);
                                if (dir & 8)
                                    c.yo = rev(c.yo);
                                c.missI = use ? 0 : 0x4200;
                                merger(c, 1, order == 1, use, keep, order);
                            });
                        }
    ex.space("target grids");
    const vector<VD> txs = {{10, 11, 12}, {8, 9, 10, 11}, {15, 12, 9}, {4, 20}, {14, 15, 16}};
    const vector<VD> tys = {{60, 61}, {58, 60, 62, 64, 66}, {63, 60, 57}, {56, 66}};
    for (size_t a = 0; a < txs.size(); ++a)
        for (size_t b = 0; b < tys.size(); ++b)
            for (int st = 0; st < NSTORE; ++st)
                for (int text = 0; text < 2; ++text)
                    ex.run([=] { return "grid " + str(txs[a]) + " " + str(tys[b]) + " " + storeName[st] + (text ? " as text" : ""); }, [=] {
                        Cfg c;
                        c.store = Store(st);
                        target(c, txs[a], tys[b], text);
                    });
    ex.space("impossible merges");
    for (int i = 0; i < 6; ++i)
        ex.run([=] { return "case " + std::to_string(i); }, [=] {
            Cfg c;
            switch (i) {
            case 0: c.xi = {2, 3, 4, 5}; break;            // begins outside
            case 1: c.yi = {64, 65, 66, 67}; break;        // ends outside
            case 2: c.xi = {10, 11, 13}; break;            // uneven
            case 3: c.yo = {56, 58, 64, 66}; break;        // uneven
            case 4: c.xi = {10}; break;                    // no step
            }
            auto r = std::make_shared<CDMMerger>(mk1(c, true), mk1(c, false));
            if (i == 5)
                VF_CHECK(throws([&] { r->setTargetGrid("+proj=longlat +R=6371000 +no_defs", "0,1,...,x;relativeStart=0", "60,61", "degrees_east", "degrees_north", "double", "double"); }), "relative axis accepted");
            else
                VF_CHECK(throws([&] { r->setTargetGridFromInner(); }), "merge accepted");
            VF_CHECK(throws([&] { r->getDataSlice("ta", 0); }), "data without target grid");
        });
}
