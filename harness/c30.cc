// C30: pressure conversions
#include "fx.h"
#include "vert.h"
#include "fimex/CDMPressureConversions.h"
#include "fimex/vertical_coordinate_transformations.h"

namespace {
vf::Explorer* EX = nullptr;
const double RD = RGAS / MDRY;

enum Op { THETA, OMEGA, HUMIDITY, PRESSURE4D, NOPS };
const char* opName[] = {"theta2T", "omega2vwind", "specific2relative", "add4Dpressure"};

double thetaF(size_t x, size_t y, size_t k, size_t t) { return 280 + 4. * k + x + 2. * y + 0.5 * t; }
double omegaF(size_t x, size_t y, size_t k, size_t t) { return 0.25 * (int(x) - 1) + 0.125 * k - 0.5 * y + 0.0625 * t; } // Pa/s
double shF(size_t x, size_t y, size_t k, size_t t) { return 0.0005 * (1 + k) + 0.001 * x * (y + 1) + 0.00025 * t; }
double tempF(size_t x, size_t y, size_t k, size_t t) { return 250 + 8. * k + 3. * x - 2. * y + t; }

double thetaToT(double theta, double p) { return theta * std::pow(p / 1000, RD / 1004.); }
double omegaToW(double omegaPa, double T, double p) { return -(omegaPa / 100) * RD * T / (G * p); }
double shToRh(double sh, double T, double p)
{
    const double es = 610.78 * std::exp(17.269 * (T - 273.16) / (T - 35.86));
    return std::min(1., std::max(0., sh * p * 100 / (es * 0.622)));
}

struct Pk ///< storage of a physical quantity
{
    CDMDataType type;
    const char* unit;
    double slope, offset; ///< physical = slope*unit + offset
    double scale, add;    ///< packed
};
vector<Pk> packs(Op op)
{
    switch (op) {
    case THETA: return {{CDM_FLOAT, "K", 1, 0, 1, 0}, {CDM_DOUBLE, "K", 1, 0, 1, 0}, {CDM_SHORT, "K", 1, 0, 0.01, 300}, {CDM_INT, "K", 1, 0, 0.001, 0}, {CDM_SHORT, "K", 1, 0, 1, 5}, {CDM_FLOAT, "degC", 1, 273.15, 1, 0}, {CDM_SHORT, "degC", 1, 273.15, 0.05, -10}, {CDM_DOUBLE, "K", 1, 0, 2, 100}};
    case OMEGA: return {{CDM_FLOAT, "Pa/s", 1, 0, 1, 0}, {CDM_DOUBLE, "hPa/s", 100, 0, 1, 0}, {CDM_SHORT, "Pa/s", 1, 0, 0.0625, 2}};
    default: return {{CDM_FLOAT, "1", 1, 0, 1, 0}, {CDM_DOUBLE, "g/kg", 0.001, 0, 1, 0}, {CDM_INT, "kg/kg", 1, 0, 0.00025, 0.001}};
    }
}

size_t length(const DS& ds, const ZA& z, const string& d) { return d == "lon" ? ds.nx : d == "lat" ? ds.ny : d == z.dim ? z.nz : ds.nt; }

/// all values of f in the order of the shape
VD inShape(const DS& ds, const ZA& z, const vector<string>& shape, const F4& f)
{
    VD v;
    vector<size_t> n, i(shape.size(), 0);
    size_t total = 1;
    for (const string& d : shape) {
        n.push_back(length(ds, z, d));
        total *= n.back();
    }
    for (size_t c = 0; c < total; ++c) {
        size_t q[4] = {0, 0, 0, 0};
        for (size_t s = 0; s < shape.size(); ++s)
            q[shape[s] == "lon" ? 0 : shape[s] == "lat" ? 1 : shape[s] == z.dim ? 2 : 3] = i[s];
        v.push_back(f(q[0], q[1], q[2], q[3]));
        for (size_t s = 0; s < shape.size(); ++s) {
            if (++i[s] < n[s])
                break;
            i[s] = 0;
        }
    }
    return v;
}

/// a variable holding a physical quantity
void quantity(DS& ds, const ZA& z, const string& name, const string& std, const Pk& p, const vector<string>& shape, const F4& f)
{
    VD v = inShape(ds, z, shape, f);
    for (double& x : v) {
        x = ((x - p.offset) / p.slope - p.add) / p.scale;
        if (p.type == CDM_SHORT || p.type == CDM_INT)
            x = std::round(x);
    }
    ds.r->var(name, p.type, shape, v);
    ds.r->att(name, "units", p.unit);
    ds.r->att(name, "standard_name", std);
    if (p.scale != 1)
        ds.r->att(name, "scale_factor", CDM_DOUBLE, {p.scale});
    if (p.add != 0)
        ds.r->att(name, "add_offset", CDM_DOUBLE, {p.add});
}

/// the stored value, as physical quantity
double stored(double x, const Pk& p)
{
    x = ((x - p.offset) / p.slope - p.add) / p.scale;
    if (p.type == CDM_SHORT || p.type == CDM_INT)
        x = std::round(x);
    return (x * p.scale + p.add) * p.slope + p.offset;
}

vector<string> shapeOf(const ZA& z, int order)
{
    switch (order) {
    case 0: return {"lon", "lat", z.dim, "time"};
    case 1: return {z.dim, "lon", "lat", "time"};
    case 2: return {"lat", "lon", z.dim, "time"};
    case 3: return {"lat", z.dim, "lon", "time"};
    default: return {"time", z.dim, "lat", "lon"}; // fixed time only
    }
}

/// the variable, read at each time and in whole, has the values of f
void expectField(CDMReader_p r, const DS& ds, const ZA& z, const string& var, const string& unit, const vector<string>& shape, const F4& f, double rel, double abs)
{
    const CDM& cdm = r->getCDM();
    VF_CHECK(cdm.hasVariable(var), "variable " << var << " missing");
    VF_CHECK(cdm.getVariable(var).getShape() == shape, "shape of " << var << ": " << str(cdm.getVariable(var).getShape()));
    VF_CHECK(cdm.getUnits(var) == unit || !unit.empty(), "units");
    const VD all = inShape(ds, z, shape, f);
    const bool unlim = ds.unlimited;
    const size_t n = all.size() / (unlim ? ds.nt : 1);
    auto cmp = [&](DataPtr d, size_t pos, size_t cnt, const char* how) {
        VF_CHECK(d && d->size() == cnt, var << ' ' << how << " has " << (d ? d->size() : 0) << " values, should be " << cnt);
        const VD got = values(d);
        for (size_t i = 0; i < cnt; ++i) {
            const double w = all[pos + i];
            VF_CHECK(std::isnan(w) ? std::isnan(got[i]) : std::fabs(got[i] - w) <= rel * std::fabs(w) + abs, var << " (" << how << ") value " << i << " is " << got[i] << ", should be " << w);
        }
        EX->step(cnt);
        EX->state(var + str(got));
    };
    for (int round = 0; round < 2; ++round)
        for (size_t t = 0; t < (unlim ? ds.nt : 1); ++t) {
            DataPtr raw = r->getDataSlice(var, t);
            VF_CHECK(raw->getDataType() == cdm.getVariable(var).getDataType(), var << " declared " << datatype2string(cdm.getVariable(var).getDataType()) << ", data are " << datatype2string(raw->getDataType()));
            cmp(r->getScaledDataSliceInUnit(var, unit, t), t * n, n, "slice");
        }
    cmp(r->getScaledDataInUnit(var, unit), 0, all.size(), "all");
    // part of it
    SliceBuilder sb(cdm, var);
    vector<size_t> start, size, len;
    for (const string& d : shape) {
        const size_t l = length(ds, z, d);
        len.push_back(l);
        start.push_back(l > 1 ? 1 : 0);
        size.push_back(l - start.back());
        sb.setStartAndSize(d, start.back(), size.back());
    }
    const VD part = refSlice(all, len, start, size);
    const VD got = values(r->getScaledDataSliceInUnit(var, unit, sb));
    VF_CHECK(got.size() == part.size(), "part of " << var << " has " << got.size() << " values");
    for (size_t i = 0; i < got.size(); ++i)
        VF_CHECK(std::isnan(part[i]) ? std::isnan(got[i]) : std::fabs(got[i] - part[i]) <= rel * std::fabs(part[i]) + abs, "part of " << var << " value " << i << " is " << got[i] << ", should be " << part[i]);
}

struct Setup
{
    DS ds;
    ZA z;
    vector<string> shape;
    Pk pk[3];
    bool nan = false;
    bool supersaturated = false;

    F4 f(Op op) const
    {
        const bool nn = nan, ss = supersaturated;
        return [op, nn, ss](size_t x, size_t y, size_t k, size_t t) {
            if (nn && x == 1 && k == 1)
                return NaN;
            return op == THETA ? thetaF(x, y, k, t) : op == OMEGA ? omegaF(x, y, k, t) : shF(x, y, k, t) * (ss ? 40 * x : 1) - (ss && y ? 0.01 : 0);
        };
    }
    void add(Op op, const string& name)
    {
        const char* std[] = {"air_potential_temperature", "lagrangian_tendency_of_air_pressure", "specific_humidity"};
        quantity(ds, z, name, std[op], pk[op], shape, f(op));
    }
    void temperature(const string& name, bool celsius, bool otherOrder = false)
    {
        const vector<string> tshape = otherOrder ? shapeOf(z, 3) : shape;
        const Pk p = {CDM_FLOAT, celsius ? "degC" : "K", 1, celsius ? 273.15 : 0, 1, 0};
        quantity(ds, z, name, "air_temperature", p, tshape, tempF);
    }
    void expect(CDMReader_p r, Op op, const string& var)
    {
        const Coord p = z.at[T_PRESSURE];
        const F4 s = op < PRESSURE4D ? f(op) : F4();
        const Pk k = pk[op < PRESSURE4D ? op : 0];
        auto src = [s, k](size_t x, size_t y, size_t kk, size_t t) {
            const double v = s(x, y, kk, t);
            return std::isnan(v) ? v : stored(v, k);
        };
        switch (op) {
        case THETA:
            expectField(r, ds, z, var, "K", shape, [=](size_t x, size_t y, size_t kk, size_t t) { return thetaToT(src(x, y, kk, t), p(x, y, kk, t)); }, 2e-6,
                        (k.type == CDM_SHORT || k.type == CDM_INT) ? k.scale * 0.51 : 1e-4);
            break;
        case OMEGA: expectField(r, ds, z, var, "m/s", shape, [=](size_t x, size_t y, size_t kk, size_t t) { return omegaToW(src(x, y, kk, t), tempF(x, y, kk, t), p(x, y, kk, t)); }, 3e-6, 1e-6); break;
        case HUMIDITY:
            expectField(r, ds, z, var, "1", shape, [=](size_t x, size_t y, size_t kk, size_t t) {
                const double v = src(x, y, kk, t);
                return std::isnan(v) ? v : shToRh(v, tempF(x, y, kk, t), p(x, y, kk, t));
            }, 1e-5, 0.6 / 25000);
            break;
        default: expectField(r, ds, z, var, "hPa", {"lon", "lat", z.dim, "time"}, p, 3e-6, 1e-5); break;
        }
    }
};

const char* outName[] = {"air_temperature", "upward_air_velocity", "relative_humidity", "air_pressure4D"};
const char* outStd[] = {"air_temperature", "upward_air_velocity", "relative_humidity", "air_pressure"};

Setup mk1(Kind kind, bool rev, TimeMode tm, SliceMode sm, bool packedTerms, bool surfTime, int order)
{
    Setup s;
    s.ds = mkDS(tm, sm, NO_TOPO, packedTerms);
    s.z = addAxis(s.ds, kind, rev, 3, "a_", surfTime);
    s.shape = shapeOf(s.z, order);
    for (int o = 0; o < 3; ++o)
        s.pk[o] = packs(Op(o))[0];
    return s;
}

void single(Op op, Kind kind, bool rev, TimeMode tm, SliceMode sm, bool packedTerms, bool surfTime, int order, size_t pk, int special, bool named)
{
    Setup s = mk1(kind, rev, tm, sm, packedTerms, surfTime, order);
    if (op < PRESSURE4D)
        s.pk[op] = packs(op)[pk];
    s.nan = special == 1;
    s.supersaturated = special == 2;
    string opt = opName[op];
    string out = outName[op];
    if (op == PRESSURE4D) {
        quantity(s.ds, s.z, "any", "air_temperature", s.pk[0], s.shape, tempF);
    } else {
        s.add(op, "src");
        if (op != THETA)
            s.temperature("temp", special == 3, special == 4);
    }
    field(s.ds, "flat", CDM_DOUBLE, {"lon", "lat", "time"}, "", 0, [](size_t x, size_t y, size_t, size_t t) { return x + 10. * y + 100 * t; });
    if (named) {
        opt += string(";") + outName[op] + "=out";
        out = "out";
        const char* in[] = {"air_potential_temperature", "omega", "specific_humidity"};
        if (op != PRESSURE4D) {
            opt += string(";") + in[op] + "=src";
            s.ds.r->att("src", "standard_name", "something_else");
        }
        if (op == OMEGA || op == HUMIDITY) {
            opt += ";air_temperature=temp";
            s.ds.r->att("temp", "standard_name", "something_else");
        }
    }
    const string before = dump(s.ds.r);
    auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{opt});
    VF_CHECK(pc->getCDM().hasVariable(out), "no variable " << out);
    VF_CHECK(pc->getCDM().getAttribute(out, "standard_name").getStringValue() == outStd[op], "standard_name");
    s.expect(pc, op, out);
    VF_CHECK((op == THETA || op == OMEGA) != pc->getCDM().hasVariable("src") || op == PRESSURE4D, "source variable");
    for (const char* v : {"flat", "a_lev", "lon", "time"}) {
        VF_CHECK(pc->getCDM().getVariable(v).getShape() == s.ds.r->getCDM().getVariable(v).getShape(), "shape of " << v);
        expectValues(pc->getData(v), values(s.ds.r->getData(v)), v);
    }
    VF_CHECK(dump(s.ds.r) == before, "the source changed");
}

/// any sequence of operations at once or one after another
void sequence(const vector<int>& ops, Kind kind, bool chained, TimeMode tm)
{
    Setup s = mk1(kind, false, tm, BY_BUILDER, false, true, 0);
    s.add(THETA, "theta");
    s.add(OMEGA, "om");
    s.add(HUMIDITY, "q");
    s.temperature("temp", false);
    auto opt = [](int o) { return o == THETA ? string("theta2T;air_temperature=t2") : string(opName[o]); };
    CDMReader_p r = s.ds.r;
    // chained: a second air_temperature would make omega2vwind ambiguous, thus without standard names
    if (chained) {
        for (int o : ops) {
            string x = opt(o);
            if (o == OMEGA || o == HUMIDITY)
                x += ";air_temperature=temp";
            r = std::make_shared<CDMPressureConversions>(r, vector<string>{x});
        }
    } else {
        vector<string> l;
        for (int o : ops)
            l.push_back(opt(o));
        r = std::make_shared<CDMPressureConversions>(r, l);
    }
    bool has[NOPS] = {false, false, false, false};
    for (int o : ops)
        has[o] = true;
    for (int o = 0; o < NOPS; ++o) {
        const string out = o == THETA ? "t2" : outName[o];
        if (has[o])
            s.expect(r, Op(o), out);
        else
            VF_CHECK(!r->getCDM().hasVariable(out), "unexpected " << out);
    }
}

/// two vertical axes, only one of which fits; variables in both orders
void twoAxes(Op op, Kind a, Kind b, bool bFirst, bool tempFirst, bool otherSource)
{
    Setup s = mk1(a, false, UNLIM2, BY_BUILDER, false, true, 0);
    ZA z2;
    auto addOther = [&] {
        z2 = addAxis(s.ds, b, false, 2, "b_");
        Setup o = s;
        o.z = z2;
        o.shape = shapeOf(z2, 0);
        quantity(o.ds, z2, "temp2", "air_temperature", s.pk[0], o.shape, tempF);
        if (otherSource)
            field(o.ds, "plain2", CDM_FLOAT, {"lon", "lat", z2.dim, "time"}, z2.dim, 2, tempF);
    };
    if (bFirst)
        addOther();
    if (tempFirst)
        s.temperature("temp", false);
    if (op < PRESSURE4D)
        s.add(op, "src");
    if (!tempFirst)
        s.temperature("temp", false);
    if (!bFirst)
        addOther();
    if (op == OMEGA) {
        // two temperatures: says so and does nothing
        auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{opName[op]});
        VF_CHECK(!pc->getCDM().hasVariable(outName[op]), "ambiguous temperature used");
        auto p2 = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{string(opName[op]) + ";air_temperature=temp"});
        s.expect(p2, op, outName[op]);
        return;
    }
    const string out = op == THETA ? "t2" : outName[op];
    auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{op == THETA ? "theta2T;air_temperature=t2" : opName[op]});
    s.expect(pc, op, out);
}

/// no temperature on the axis of the humidity: no conversion, and no crash
void noPartner(int what)
{
    Setup s = mk1(SIGMA, false, UNLIM2, BY_BUILDER, false, true, 0);
    ZA z2 = addAxis(s.ds, PRESSURE_HPA, false, 2, "b_");
    s.add(HUMIDITY, "q");
    if (what & 1)
        quantity(s.ds, z2, "temp2", "air_temperature", s.pk[0], shapeOf(z2, 0), tempF);
    if (what & 2)
        s.ds.r->var("q0", CDM_FLOAT, {"lon"}, VD(s.ds.nx, 0)), s.ds.r->att("q0", "standard_name", "specific_humidity");
    auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{"specific2relative", "theta2T"});
    VF_CHECK(!pc->getCDM().hasVariable("relative_humidity"), "relative humidity without temperature");
    VF_CHECK(dump(pc) == dump(s.ds.r), "something changed");
}

void options(int i)
{
    Setup s = mk1(HYBRID_AP, false, UNLIM2, BY_BUILDER, false, true, 0);
    s.add(THETA, "theta");
    s.add(HUMIDITY, "q");
    s.temperature("temp", false);
    const vector<std::pair<string, string>> good = {{"add4Dpressure", "air_pressure4D"}, {"add4Dpressure;", "air_pressure4D"}, {"add4Dpressure;air_pressure4D=p", "p"}, {"add4Dpressure;x=1;air_pressure4D=p", "p"},
                                                    {"add4Dpressure;air_pressure4D=p;x=1", "p"}, {"add4Dpressure;air_pressure4D=p;", "p"}};
    if (size_t(i) < good.size()) {
        auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{good[i].first});
        s.expect(pc, PRESSURE4D, good[i].second);
        return;
    }
    i -= good.size();
    const vector<string> bad = {"", "unknown", "theta2t", ";add4Dpressure", " add4Dpressure", "add4Dpressure "};
    if (size_t(i) < bad.size()) {
        VF_CHECK(throws([&] { CDMPressureConversions pc(s.ds.r, vector<string>{bad[i]}); }), "operation '" << bad[i] << "' accepted");
        return;
    }
    i -= bad.size();
    // existing variables are not replaced, missing ones are not invented
    const vector<string> none = {"theta2T;air_potential_temperature=nothere", "theta2T;air_temperature=temp", "specific2relative;relative_humidity=temp", "specific2relative;specific_humidity=nothere", "specific2relative;air_temperature=nothere", "add4Dpressure;air_pressure4D=temp", "omega2vwind"};
    auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{none[i]});
    VF_CHECK(dump(pc) == dump(s.ds.r), none[i] << " changed something");
}

/// axes without pressure: an error or nothing
void unsupported(Op op, Kind kind)
{
    Setup s = mk1(kind, false, UNLIM2, BY_BUILDER, false, true, 0);
    if (op < PRESSURE4D)
        s.add(op, "src");
    if (op != THETA)
        s.temperature("temp", false);
    bool ok = false;
    try {
        auto pc = std::make_shared<CDMPressureConversions>(s.ds.r, vector<string>{opName[op]});
        pc->getDataSlice(outName[op], 0);
    } catch (std::exception&) {
        ok = true;
    }
    VF_CHECK(ok, "there is no pressure, but the conversion succeeds");
}

void near(double got, double want, double rel, const char* what)
{
    VF_CHECK(std::fabs(got - want) <= rel * (std::fabs(want) + 1e-12), what << ": " << got << ", should be " << want);
    EX->step(1);
}

void formulas(double p, double T, double h)
{
    double x, y;
    // omega <-> w
    for (double w : {-3., -0.01, 0., 0.5, 20.}) {
        mifi_vertical_wind_to_omega(1, &w, &p, &T, &x);
        near(x, -w * G * p / (RD * T), 1e-6, "w to omega");
        mifi_omega_to_vertical_wind(1, &x, &p, &T, &y);
        near(y, w, 1e-9, "omega to w");
        float of = x, pf = p, tf = T, wf;
        mifi_omega_to_vertical_wind_f(1, &of, &pf, &tf, &wf);
        near(wf, w, 1e-5, "omega to w, float");
    }
    // humidity, with p in Pa
    const double es = 610.78 * std::exp(17.269 * (T - 273.16) / (T - 35.86));
    for (double rh : {0., 1., 37.5, 99., 100., 130., -5.}) {
        const double sh = rh / 100 * es * 0.622 / (p * 100);
        near(mifi_relative_to_specific_humidity(rh, T, p * 100), std::max(0., sh), 2e-5, "relative to specific humidity");
        near(mifi_specific_to_relative_humidity(sh, T, p * 100), std::min(100., std::max(0., rh)), 2e-5, "specific to relative humidity");
    }
    for (double d : {-20., -3., 0., 1.}) {
        const double tc = T - 273.15, dc = tc + d;
        near(mifi_dewpoint_to_relative_humidity(dc + 273.15, T), std::min(100., 100 * std::exp(17.625 * dc / (243.04 + dc) - 17.625 * tc / (243.04 + tc))), 2e-5, "dewpoint");
    }
    near(mifi_virtual_temperature(0.01, T), T * (1 + 0.01 / 0.622) / 1.01, 3e-4, "virtual temperature");
    // sigma <-> pressure
    for (double ptop : {0., 10.})
        for (double sg : {0., 0.25, 1.}) {
            mifi_atmosphere_sigma_pressure(1, ptop, p, &sg, &x);
            near(x, ptop + sg * (p - ptop), 1e-12, "sigma to pressure");
            mifi_atmosphere_pressure_sigma(1, ptop, p, &x, &y);
            VF_CHECK(std::fabs(y - sg) < 1e-12, "pressure to sigma " << y << ", should be " << sg);
        }
    // barometric
    mifi_barometric_pressure(1, p, &h, T, &x);
    near(x, p * std::exp(-G * MDRY * h / (RGAS * T)), 1e-6, "barometric pressure");
    mifi_barometric_height(1, p, &x, T, &y);
    VF_CHECK(std::fabs(y - h) < 1e-6, "barometric height " << y << ", should be " << h);
    mifi_barometric_standard_pressure(1, &h, &x);
    near(x, 1013.25 * std::exp(-G * MDRY * h / (RGAS * 288.15)), 1e-6, "standard pressure");
    mifi_barometric_standard_altitude(1, &x, &y);
    VF_CHECK(std::fabs(y - h) < 1e-6, "standard altitude " << y << ", should be " << h);
    for (double p2 : {p * 0.5, p, p * 0.9})
        near(mifi_barometric_layer_thickness(p, p2, T), std::log(p / p2) * T * RD / G, 2e-6, "layer thickness");
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool T = ex.thorough();
    const vector<Kind> pkinds = {PRESSURE_HPA, PRESSURE_PA, SIGMA, HYBRID_A, HYBRID_AP, LNP, HYBRID_PVAR};

    ex.space("conversion x vertical coordinate x storage x order of dimensions x time");
    for (int op = 0; op < NOPS; ++op)
        for (Kind k : pkinds)
            for (int order = 0; order < 5; ++order)
                for (int tm = 0; tm < (T ? 4 : 3); ++tm) {
                    if ((order == 4) && tm != FIXED2)
                        continue;
                    if (k == HYBRID_PVAR && order != 0)
                        continue;
                    const size_t np = op == PRESSURE4D ? 1 : packs(Op(op)).size();
                    for (size_t pk = 0; pk < np; ++pk)
                        for (int var = 0; var < 8; ++var) {
                            if (!T && (var + pk + order) % 3)
                                continue;
                            const bool rev = var & 1, pt = var & 2, st = var & 4;
                            const string what = string(opName[op]) + " on " + kindName[k] + (rev ? " reversed" : "") + (pt ? " packed terms" : "") + (st ? " moving" : "") + ", order " + std::to_string(order) + ", " + timeName[tm] + ", storage " + std::to_string(pk);
                            ex.run([=] { return what; }, [=] { single(Op(op), k, rev, TimeMode(tm), var & 1 ? BY_UNLIMITED : BY_BUILDER, pt, st, order, pk, 0, var % 3 == 1); });
                        }
                }

    ex.space("missing values, supersaturation, temperature units");
    for (int op = 0; op < PRESSURE4D; ++op)
        for (Kind k : pkinds)
            for (int special = 1; special < 5; ++special)
                for (size_t pk = 0; pk < packs(Op(op)).size(); ++pk) {
                    const CDMDataType t = packs(Op(op))[pk].type;
                    if (special == 1 && t != CDM_FLOAT && t != CDM_DOUBLE)
                        continue;
                    const string what = string(opName[op]) + " on " + kindName[k] + ", special " + std::to_string(special) + ", storage " + std::to_string(pk);
                    ex.run([=] { return what; }, [=] { single(Op(op), k, false, UNLIM2, BY_BUILDER, false, true, 0, pk, special, false); });
                }

    ex.space("sequences of operations");
    for (Kind k : {SIGMA, PRESSURE_HPA, HYBRID_A})
        for (int len = 1; len <= 4; ++len) {
            vector<int> all = {0, 1, 2, 3};
            std::set<vector<int>> seen;
            do {
                vector<int> s(all.begin(), all.begin() + len);
                if (!seen.insert(s).second)
                    continue;
                for (int chained = 0; chained < 2; ++chained)
                    for (int tm = 0; tm < 2; ++tm) {
                        string what = string(chained ? "chained" : "at once") + " on " + kindName[k] + ", " + timeName[tm] + ":";
                        for (int o : s)
                            what += string(" ") + opName[o];
                        ex.run([=] { return what; }, [=] { sequence(s, k, chained, TimeMode(tm)); });
                    }
            } while (std::next_permutation(all.begin(), all.end()));
        }

    ex.space("two vertical axes");
    for (int op = 0; op < NOPS; ++op)
        for (Kind a : {PRESSURE_HPA, SIGMA, HYBRID_AP})
            for (Kind b : {PRESSURE_HPA, SIGMA, HEIGHT_M, DEPTH, OCEAN_G1, OCEAN_G2})
                for (int v = 0; v < 8; ++v) {
                    const string what = string(opName[op]) + " on " + kindName[a] + " beside " + kindName[b] + ", variant " + std::to_string(v);
                    ex.run([=] { return what; }, [=] { twoAxes(Op(op), a, b, v & 1, v & 2, v & 4); });
                }

    ex.space("incomplete input");
    for (int w = 0; w < 4; ++w)
        ex.run([=] { return "humidity without temperature, variant " + std::to_string(w); }, [=] { noPartner(w); });
    for (int op = 0; op < NOPS; ++op)
        for (Kind k : {HEIGHT_M, DEPTH, OCEAN_G1, OCEAN_G2})
            ex.run([=] { return string(opName[op]) + " on " + kindName[k]; }, [=] { unsupported(Op(op), k); });

    ex.space("options");
    for (int i = 0; i < 19; ++i)
        ex.run([=] { return "option " + std::to_string(i); }, [=] { options(i); });

    ex.space("formulas and their inverses");
    for (double p : {1., 50., 300., 850., 1013.25, 1050.})
        for (double t : {180., 220., 250., 273.15, 288.15, 310.})
            for (double h : {-400., 0., 2., 1000., 11000., 30000.})
                ex.run([=] { return "p=" + std::to_string(p) + " T=" + std::to_string(t) + " h=" + std::to_string(h); }, [=] { formulas(p, t, h); });
}
