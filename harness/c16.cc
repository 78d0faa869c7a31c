// C16: interpolation in time
#include "fx.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/Type2String.h"

#include <algorithm>
#include <functional>
#include <limits>

using namespace fx;

namespace {
vf::Explorer* EX = nullptr;
const double NaN = std::numeric_limits<double>::quiet_NaN();

struct TU
{
    const char* text;
    double origin; ///< hours from 2020-01-01 00:00:00
    double len;    ///< hours
};
const TU tunits[] = {{"hours since 2020-01-01 00:00:00", 0, 1}, {"seconds since 1970-01-01 00:00:00", -438288, 1 / 3600.}, {"days since 2020-01-03 12:00:00", 60, 24}, {"minutes since 2019-12-31 22:30:00 +00:00", -1.5, 1 / 60.}};

/// how the time axis is stored
enum Store { T_DOUBLE, T_INT, T_PACKED, T_MEMORY };

struct Src
{
    VD times = {0, 6, 12}; ///< hours from 2020-01-01
    int unit = 0;
    Store store = T_DOUBLE;
    SliceMode mode = BY_BUILDER;
    bool unlimited = true;
    bool memory = false; ///< variables in memory
    unsigned missing = 0;
};

struct V
{
    const char* name;
    CDMDataType type;
    vector<string> shape;
    double fill; ///< raw value for missing
    bool rounds;
};

const size_t NX = 2, NY = 2;
vector<V> variables()
{
    return {{"f", CDM_FLOAT, {"lon", "lat", "time"}, -999, false},
            {"d", CDM_DOUBLE, {"lon", "time"}, NaN, false},
            {"s", CDM_SHORT, {"lon", "lat", "time"}, -32000, true},
            {"i", CDM_INT, {"time"}, -1, true},
            {"u", CDM_FLOAT, {"n", "time"}, -5, false}};
}

size_t layer(const V& v)
{
    size_t n = 1;
    for (const string& s : v.shape)
        n *= s == "time" ? 1 : (s == "lon" ? NX : (s == "lat" ? NY : 3));
    return n;
}

/// value of element e at source time t
double raw(const Src& src, size_t vi, size_t e, size_t t, double fill)
{
    // pattern over elements of the first layer rows
    if (src.missing >> ((t * 2 + (e & 1)) % 16) & 1)
        return fill;
    static const int w[] = {3, -5, 12, 7, 40, -2};
    return double(w[(t * 2 + vi) % 6]) * (1 + int(e)) + 20. * vi + int(e) + t;
}

bool isMissing(double v, double fill)
{
    return std::isnan(v) || v == fill || (std::isnan(fill) && v > 9e36); // the default fill value
}

CDMReader_p mkSrc(const Src& src)
{
    TestReader_p r = std::make_shared<TestReader>(src.mode);
    r->att("", "Conventions", "CF-1.4");
    axis(*r, "lon", {5, 6}, "degrees_east", "longitude");
    axis(*r, "lat", {60, 61}, "degrees_north", "latitude");
    r->dim("n", 3);
    const TU& u = tunits[src.unit];
    VD tv;
    for (double h : src.times)
        tv.push_back((h - u.origin) / u.len);
    r->dim("time", tv.size(), src.unlimited);
    switch (src.store) {
    case T_DOUBLE: r->var("time", CDM_DOUBLE, {"time"}, tv); break;
    case T_INT: r->var("time", CDM_INT, {"time"}, tv); break;
    case T_PACKED: {
        for (double& v : tv)
            v = (v - 6) / 0.5;
        r->var("time", CDM_INT, {"time"}, tv);
        r->att("time", "scale_factor", CDM_DOUBLE, {0.5});
        r->att("time", "add_offset", CDM_DOUBLE, {6});
        break;
    }
    case T_MEMORY: r->varMem("time", CDM_DOUBLE, {"time"}, mk(CDM_DOUBLE, tv)); break;
    }
    r->att("time", "units", u.text);
    r->att("time", "standard_name", "time");
    const vector<V> vs = variables();
    for (size_t vi = 0; vi < vs.size(); ++vi) {
        const V& v = vs[vi];
        VD vals;
        for (size_t t = 0; t < src.times.size(); ++t)
            for (size_t e = 0; e < layer(v); ++e)
                vals.push_back(raw(src, vi, e, t, v.fill));
        if (src.memory)
            r->varMem(v.name, v.type, v.shape, mk(v.type, vals));
        else
            r->var(v.name, v.type, v.shape, vals);
        if (!std::isnan(v.fill))
            r->att(v.name, "_FillValue", v.type, {v.fill});
        r->att(v.name, "units", "K");
    }
    r->att("s", "scale_factor", CDM_DOUBLE, {0.5});
    r->att("s", "add_offset", CDM_DOUBLE, {10});
    r->var("const", CDM_FLOAT, {"lon", "lat"}, {1, 2, 3, 4});
    return r;
}

/// expected raw value at hour h; fill when missing
double expect(const Src& src, size_t vi, size_t e, double h, double fill)
{
    const VD& T = src.times;
    for (size_t t = 0; t < T.size(); ++t)
        if (std::fabs(T[t] - h) < 1e-9)
            return raw(src, vi, e, t, fill);
    size_t b = 0;
    while (b < T.size() && T[b] < h)
        ++b;
    b = std::min(std::max<size_t>(b, 1), T.size() - 1);
    const double f = (h - T[b - 1]) / (T[b] - T[b - 1]);
    if (f < -1 - 1e-9 || f > 2 + 1e-9)
        return fill;
    const double v0 = raw(src, vi, e, b - 1, fill), v1 = raw(src, vi, e, b, fill);
    if (isMissing(v0, fill) || isMissing(v1, fill))
        return fill;
    return v0 + f * (v1 - v0);
}

void compare(const Src& src, const V& v, size_t vi, size_t e, double h, double got)
{
    const double want = expect(src, vi, e, h, v.fill);
    if (isMissing(want, v.fill)) {
        VF_CHECK(isMissing(got, v.fill) && (std::isnan(v.fill) || !std::isnan(got)), v.name << " element " << e << " at hour " << h << " is " << got << ", should be missing");
    } else {
        const double tol = v.rounds ? 0.5001 : 1e-4;
        VF_CHECK(std::fabs(got - want) <= tol, v.name << " element " << e << " at hour " << h << " is " << got << ", should be " << want);
    }
}

void check(CDMReader_p r, const Src& src, const VD& hours, const TU& nu, bool changed = true)
{
    const CDM& cdm = r->getCDM();
    VF_CHECK(cdm.getDimension("time").getLength() == hours.size() && cdm.getDimension("time").isUnlimited() == src.unlimited, "time dimension " << cdm.getDimension("time").getLength() << ", should be " << hours.size());
    VF_CHECK(cdm.getUnits("time") == nu.text, "time unit " << cdm.getUnits("time"));
    VD tw;
    for (double h : hours)
        tw.push_back((h - nu.origin) / nu.len);
    const CDMDataType tt = cdm.getVariable("time").getDataType();
    DataPtr td = r->getScaledData("time");
    VF_CHECK(r->getData("time")->getDataType() == tt, "type of time");
    expectClose(td, tw, "new times", 1e-12, 1e-7);
    const vector<V> vs = variables();
    for (size_t vi = 0; vi < vs.size(); ++vi) {
        const V& v = vs[vi];
        const size_t n = layer(v);
        VF_CHECK(cdm.getVariable(v.name).getDataType() == v.type && cdm.getVariable(v.name).getShape() == v.shape, "declaration of " << v.name);
        for (size_t t = 0; t < hours.size(); ++t) {
            DataPtr d = r->getDataSlice(v.name, t);
            VF_CHECK(d->size() == n, v.name << " slice " << t << " has size " << d->size());
            VF_CHECK(d->getDataType() == v.type, v.name << " delivered as " << datatype2string(d->getDataType()));
            const VD got = values(d);
            for (size_t e = 0; e < n; ++e)
                compare(src, v, vi, e, hours[t], got[e]);
            EX->step(n);
        }
        const VD all = values(r->getData(v.name));
        VF_CHECK(all.size() == n * hours.size(), v.name << " has " << all.size() << " values");
        for (size_t i = 0; i < all.size(); ++i)
            compare(src, v, vi, i % n, hours[i / n], all[i]);
        // one element over all times, and all elements of one time
        SliceBuilder sb(cdm, v.name);
        if (v.shape.size() > 1)
            sb.setStartAndSize(v.shape[0], 1, 1);
        const VD one = values(r->getDataSlice(v.name, sb));
        for (size_t i = 0; i < one.size(); ++i) {
            const size_t per = one.size() / hours.size(), row = layer(v) / per;
            compare(src, v, vi, v.shape.size() > 1 ? (i % per) * row + 1 : 0, hours[i / per], one[i]);
        }
        VF_CHECK(!changed || throws([&] { r->getDataSlice(v.name, hours.size()); }), "position behind the new times delivered for " << v.name);
    }
    // scaled values
    const VD sc = values(r->getScaledDataSlice("s", hours.size() - 1));
    for (size_t e = 0; e < sc.size(); ++e) {
        const double want = expect(src, 2, e, hours.back(), -32000);
        VF_CHECK(want == -32000 ? std::isnan(sc[e]) : std::fabs(sc[e] - (want * 0.5 + 10)) <= 0.2501, "scaled " << sc[e]);
    }
    expectValues(r->getData("const"), {1, 2, 3, 4}, "constant variable");
    expectValues(r->getData("lon"), {5, 6}, "lon");
}

string spec(const VD& hours, int unit)
{
    string s;
    for (double h : hours) {
        // hours from 2020-01-01 between -1000 and 1000: build the date
        const long long min = (long long)std::llround(h * 60) + 60LL * 24 * 40;
        const int day = min / 1440 - 40, rest = min % 1440;
        static const int len[] = {31, 29, 31, 30, 31};
        int y = 2020, m = 1, d = day + 1;
        if (d <= 0) {
            y = 2019;
            m = 12;
            d += 31;
        } else {
            while (d > len[m - 1])
                d -= len[m++ - 1];
        }
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:00", y, m, d, rest / 60, rest % 60);
        s += (s.empty() ? "" : ",") + string(b);
    }
    return s + ";unit=" + tunits[unit].text;
}

void once(const Src& src, const VD& hours, int unit)
{
    CDMReader_p s = mkSrc(src);
    const string before = dump(s);
    auto r = std::make_shared<CDMTimeInterpolator>(s);
    r->changeTimeAxis(spec(hours, unit));
    check(r, src, hours, tunits[unit]);
    VF_CHECK(dump(s) == before, "the source changed");
}

struct Op
{
    const char* name;
    string text;
    VD hours; ///< empty: refused
    int unit;
};

void history(const vector<Op>& ops)
{
    Src src;
    CDMReader_p s = mkSrc(src);
    auto r = std::make_shared<CDMTimeInterpolator>(s);
    VD hours = src.times;
    int unit = 0;
    bool changed = false;
    for (const Op& op : ops) {
        if (op.hours.empty()) {
            VF_CHECK(throws([&] { r->changeTimeAxis(op.text); }), op.name << " accepted");
        } else {
            r->changeTimeAxis(op.text);
            hours = op.hours;
            unit = op.unit;
            changed = true;
        }
        check(r, src, hours, tunits[unit], changed);
        EX->state(dumpCDM(r->getCDM()));
    }
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool T = ex.thorough();

    ex.space("no change: the source's data");
    for (int mode = 0; mode < 2; ++mode)
        for (int mem = 0; mem < 2; ++mem)
            for (int store = 0; store < 4; ++store)
                ex.run([=] { return "mode " + std::to_string(mode) + " memory " + std::to_string(mem) + " time " + std::to_string(store); }, [=] {
                    Src src;
                    src.mode = SliceMode(mode);
                    src.memory = mem;
                    src.store = Store(store);
                    CDMReader_p s = mkSrc(src);
                    auto r = std::make_shared<CDMTimeInterpolator>(s);
                    check(r, src, src.times, tunits[0], false);
                });

    ex.space("source times x new times");
    const vector<VD> sources = {{0, 6}, {0, 6, 12}, {0, 1, 12, 18}, {-30, -24, 24, 25}, {3, 9, 15, 21, 45}};
    // places relative to the source: before, at, between, behind
    for (size_t si = 0; si < sources.size(); ++si) {
        VD places;
        const VD& S = sources[si];
        places.push_back(S[0] - 0.5 * (S[1] - S[0]));
        places.push_back(S[0] - 3 * (S[1] - S[0]));
        for (size_t i = 0; i < S.size(); ++i) {
            places.push_back(S[i]);
            if (i + 1 < S.size()) {
                places.push_back(S[i] + 0.25 * (S[i + 1] - S[i]));
                if (T)
                    places.push_back(S[i] + 0.9 * (S[i + 1] - S[i]));
            }
        }
        const double lastStep = S.back() - S[S.size() - 2];
        places.push_back(S.back() + lastStep);
        places.push_back(S.back() + 2.5 * lastStep);
        const int n = places.size();
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                for (int c = -1; c < (T || si < 3 ? n : 0); ++c)
                    ex.run([=] { return "source " + str(sources[si]) + " to places " + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(c); }, [=] {
                        Src src;
                        src.times = sources[si];
                        src.mode = SliceMode((a + b) % 2);
                        VD h = {places[a], places[b]};
                        if (c >= 0)
                            h.push_back(places[c]);
                        once(src, h, (a + b + c + 1) % 4);
                    });
    }
    ex.space("storage x units");
    for (int store = 0; store < 4; ++store)
        for (int su = 0; su < 4; ++su)
            for (int nu = 0; nu < 4 && !(store == T_PACKED && su == 1); ++nu) // would not fit
                for (int mem = 0; mem < 2; ++mem)
                    for (int mode = 0; mode < 2; ++mode)
                        ex.run([=] { return "time stored " + std::to_string(store) + " unit " + tunits[su].text + " to " + tunits[nu].text + (mem ? " memory" : "") + (mode ? " builder" : ""); }, [=] {
                            Src src;
                            src.times = {-12, 12, 36, 84};
                            if (store == T_INT && su == 2)
                                for (double& t : src.times)
                                    t = std::floor(t / 24) * 24 + 12;
                            src.store = Store(store);
                            src.unit = su;
                            src.memory = mem;
                            src.mode = SliceMode(mode);
                            once(src, {-12, 0, 13.5, 36, 90}, nu);
                        });
    ex.space("missing values");
    const int bits = T ? 8 : 6;
    for (unsigned m = 0; m < 1u << bits; ++m)
        ex.run([=] { return "pattern " + std::to_string(m); }, [=] {
            Src src;
            src.missing = m;
            if (bits == 8)
                src.times = {0, 6, 12, 24};
            once(src, {-3, 0, 2, 6, 9, 12, 15}, m % 4);
        });

    ex.space("a single source time");
    for (int mem = 0; mem < 2; ++mem)
        for (double h : {0., 5., -30.})
            ex.run([=] { return "time at " + str(VD{h}) + (mem ? " memory" : ""); }, [=] {
                Src src;
                src.times = {h};
                src.memory = mem;
                once(src, {h}, 0);
            });

    ex.space("relative specifications");
    struct R
    {
        const char* text;
        VD hours;
    };
    const vector<R> rel = {{"0,3,...,x;relativeUnit=hours since 2020-01-01 00:00:00", {0, 3, 6, 9, 12}},
                           {"-3,0,3,...,x,x+3;relativeUnit=hours since 2020-01-01 00:00:00", {-3, 0, 3, 6, 9, 12, 15}},
                           {"0,5,...,x;relativeUnit=hours since 2020-01-01 00:00:00", {0, 5, 10}},
                           {"0,3,...,x-3;relativeUnit=hours since 2020-01-01 02:00:00", {-1, 2, 5, 8}}};
    for (size_t i = 0; i < rel.size(); ++i)
        for (int nu = 0; nu < 4; ++nu)
            ex.run([=] { return string(rel[i].text) + " to " + tunits[nu].text; }, [=] {
                Src src;
                CDMReader_p s = mkSrc(src);
                auto r = std::make_shared<CDMTimeInterpolator>(s);
                r->changeTimeAxis(rel[i].text + string(";unit=") + tunits[nu].text);
                check(r, src, rel[i].hours, tunits[nu]);
            });

    ex.space("sequences of changes");
    const vector<Op> ops = {{"dense", spec({0, 3, 6, 9}, 1), {0, 3, 6, 9}, 1}, {"one", spec({7}, 2), {7}, 2}, {"unordered", spec({12, 0, 6, 5}, 0), {12, 0, 6, 5}, 0}, {"relative", "0,4,...,x;relativeUnit=hours since 2020-01-01 00:00:00;unit=" + string(tunits[3].text), {0, 4, 8, 12}, 3}, {"bad time", "yesterday", {}, 0}, {"bad unit", "2020-01-01 00:00:00;unit=m", {}, 0}};
    const int depth = T ? 4 : 3;
    for (int len = 1; len <= depth; ++len)
        product(len, 0, ops.size() - 1, [&](const vector<int>& c) {
            ex.run([=] {
                string s;
                for (int i : c)
                    s += string(ops[i].name) + "; ";
                return s; }, [=] {
                vector<Op> o;
                for (int i : c)
                    o.push_back(ops[i]);
                history(o);
            });
        });

    ex.space("time as fixed dimension");
    for (int mem = 0; mem < 2; ++mem)
        ex.run([=] { return mem ? "memory" : "reader"; }, [=] {
            Src src;
            src.unlimited = false;
            src.memory = mem;
            auto r = std::make_shared<CDMTimeInterpolator>(mkSrc(src));
            const vector<V> vs = variables();
            for (size_t vi = 0; vi < vs.size(); ++vi) {
                const VD all = values(r->getData(vs[vi].name));
                for (size_t i = 0; i < all.size(); ++i)
                    compare(src, vs[vi], vi, i % layer(vs[vi]), src.times[i / layer(vs[vi])], all[i]);
            }
            r->changeTimeAxis(spec({3, 9, 12}, 0));
            // interpolated, or refused; never something else
            for (size_t vi = 0; vi < vs.size(); ++vi) {
                DataPtr d;
                if (throws([&] { d = r->getData(vs[vi].name); }))
                    continue;
                const VD all = values(d);
                const size_t n = layer(vs[vi]);
                VF_CHECK(all.size() == 3 * n, vs[vi].name << " has " << all.size() << " values");
                for (size_t i = 0; i < all.size(); ++i)
                    compare(src, vs[vi], vi, i % n, VD{3, 9, 12}[i / n], all[i]);
            }
        });
}
