// C21: filling an existing file: every value of the input lands at the position with its coordinates, nothing else changes
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/FillWriter.h"

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
vf::Explorer* EX = nullptr;
const double NaN = std::numeric_limits<double>::quiet_NaN();
const size_t NX = 2;

struct Pack
{
    const char* name;
    CDMDataType type;
    double scale, offset;
    bool hasFill;
    double fill;
    const char* unit; ///< unit: K, degC, m or empty
};
const Pack packs[] = {
    {"float K", CDM_FLOAT, 1, 0, true, -999, "K"},
    {"short 0.5K", CDM_SHORT, 0.5, 0, true, -32767, "K"},
    {"short 0.5K+270", CDM_SHORT, 0.5, 270, true, -32767, "K"},
    {"short 0.5K, other fill value", CDM_SHORT, 0.5, 0, true, 1, "K"},
    {"int 0.25K", CDM_INT, 0.25, 100, true, 0, "K"},
    {"float degC", CDM_FLOAT, 1, 0, true, -999, "degC"},
    {"short 0.01degC", CDM_SHORT, 0.01, 0, true, -32768, "degC"},
    {"double K without fill value", CDM_DOUBLE, 1, 0, false, 0, "K"},
    {"double without unit", CDM_DOUBLE, 1, 0, true, 1e30, ""},
    {"byte 2K+280", CDM_CHAR, 2, 280, true, -127, "K"},
    {"float m", CDM_FLOAT, 1, 0, true, -999, "m"},
};
const int NPACK = 11;

/// Kelvin -> unit of the packing
double inUnit(const Pack& p, double kelvin)
{
    return string(p.unit) == "degC" ? kelvin - 273.15 : kelvin;
}
double quantum(const Pack& p)
{
    return (p.type == CDM_FLOAT) ? 1e-4 : (p.type == CDM_DOUBLE) ? 1e-9 : p.scale / 2 + 1e-6;
}
DataPtr packed(const Pack& p, const VD& phys)
{
    VD raw;
    for (double v : phys) {
        if (std::isnan(v))
            raw.push_back(p.hasFill ? p.fill : (p.type == CDM_DOUBLE ? 9.9692099683868690e+36 : 0));
        else {
            double r = (v - p.offset) / p.scale;
            if (p.type != CDM_FLOAT && p.type != CDM_DOUBLE)
                r = std::floor(r + 0.5);
            raw.push_back(r);
        }
    }
    return mk(p.type, raw);
}
void packAtts(TestReader& r, const string& var, const Pack& p)
{
    if (*p.unit)
        r.att(var, "units", p.unit);
    if (p.scale != 1)
        r.att(var, "scale_factor", CDM_DOUBLE, {p.scale});
    if (p.offset != 0)
        r.att(var, "add_offset", CDM_DOUBLE, {p.offset});
    if (p.hasFill)
        r.att(var, "_FillValue", p.type, {p.fill});
}

struct TimeUnit
{
    const char* unit;
    double per, shift; ///< number = (hours - shift) / per
};
const TimeUnit tunits[] = {{"hours since 2000-01-01 00:00:00", 1, 0}, {"days since 2000-01-01 00:00:00", 24, 0}, {"hours since 1999-12-31 12:00:00", 1, -12}, {"seconds since 2000-01-01 00:00:00", 1 / 3600., 0}};
const int NTUNIT = 4;

VD toUnit(const VD& hours, const TimeUnit& t)
{
    VD r;
    for (double h : hours)
        r.push_back(t.per < 1 ? (h - t.shift) * 3600 : (h - t.shift) / t.per);
    return r;
}

/// what the file has to contain; physical values (Kelvin)
struct Model
{
    VD time, lev; // hours, hPa
    std::map<string, VD> u; ///< by variable: [time][lev][x] / [time][x] / [lev][x] / [x]
};

struct Var
{
    const char* name;
    bool t, z;
};
const Var vars[] = {{"u", true, true}, {"s", true, false}, {"w", false, true}, {"g", false, false}};

double val(int step, int var, size_t it, size_t iz, size_t x)
{
    return 280 + 10 * step + 0.5 * ((var * 7 + it * 5 + iz * 3 + x) % 19);
}

string type_(int fmt)
{
    return fmt == 3 ? "nc" : "nc4";
}

/// create a dataset
TestReader_p dataset(const VD& time, const VD& lev, const Pack& p, const TimeUnit& tu, int step, SliceMode mode, bool unlimited, std::map<string, VD>* phys, bool output, bool levAxis = true)
{
    auto r = std::make_shared<TestReader>(mode);
    r->dim("x", NX);
    if (levAxis)
        axis(*r, "lev", lev, "hPa", "air_pressure");
    else
        r->dim("lev", lev.size());
    axis(*r, "time", toUnit(time, tu), tu.unit, "time", CDM_DOUBLE, unlimited);
    int nv = 0;
    for (const Var& v : vars) {
        VD d;
        vector<string> shape = {"x"};
        if (v.z)
            shape.push_back("lev");
        if (v.t)
            shape.push_back("time");
        for (size_t t = 0; t < (v.t ? time.size() : 1); ++t)
            for (size_t z = 0; z < (v.z ? lev.size() : 1); ++z)
                for (size_t x = 0; x < NX; ++x)
                    d.push_back((t + z + x + nv) % 4 == 3 ? NaN : val(step, nv, t, z, x));
        VD du;
        for (double k : d)
            du.push_back(inUnit(p, k));
        r->varData(v.name, p.type, shape, packed(p, du));
        packAtts(*r, v.name, p);
        if (phys)
            (*phys)[v.name] = d;
        ++nv;
    }
    if (output) {
        VD d;
        for (size_t t = 0; t < time.size(); ++t)
            d.push_back(1000 + t);
        r->var("only", CDM_INT, {"time"}, d);
        if (phys)
            (*phys)["only"] = d;
    } else {
        r->var("new", CDM_INT, {"x"}, {77, 78});
        r->var("other", CDM_INT, {"time", "x"}, iota(time.size() * NX)); // shape differs
    }
    if (output)
        r->var("other", CDM_INT, {"x"}, {5, 6});
    if (phys && output)
        (*phys)["other"] = {5, 6};
    return r;
}

/// the reference: what filling has to do; returns if an error has to be reported
bool fillModel(Model& m, const VD& time, const VD& lev, const std::map<string, VD>& in, bool timeUnlimited, bool valuesFit)
{
    bool timeOk = true, levOk = true;
    VS tp, zp;
    VD newTime = m.time;
    for (double t : time) {
        size_t i = std::find(m.time.begin(), m.time.end(), t) - m.time.begin();
        if (i == m.time.size()) {
            if (!timeUnlimited) {
                timeOk = false;
                continue;
            }
            i = newTime.size();
            newTime.push_back(t);
        }
        tp.push_back(i);
    }
    for (double z : lev) {
        size_t i = std::find(m.lev.begin(), m.lev.end(), z) - m.lev.begin();
        if (i == m.lev.size())
            levOk = false;
        zp.push_back(i);
    }
    const size_t nz = m.lev.size();
    // extend
    const size_t n0 = m.time.size(), n1 = timeOk ? newTime.size() : n0;
    if (n1 > n0) {
        m.time = newTime;
        for (const Var& v : vars)
            if (v.t)
                m.u[v.name].resize(n1 * (v.z ? nz : 1) * NX, NaN);
        m.u["only"].resize(n1, NaN);
    }
    for (const Var& v : vars) {
        if ((v.t && !timeOk) || (v.z && !levOk) || !valuesFit)
            continue;
        const VD& d = in.at(v.name);
        size_t k = 0;
        for (size_t t = 0; t < (v.t ? time.size() : 1); ++t)
            for (size_t z = 0; z < (v.z ? lev.size() : 1); ++z)
                for (size_t x = 0; x < NX; ++x) {
                    const size_t ot = v.t ? tp[t] : 0, oz = v.z ? zp[z] : 0;
                    m.u[v.name].at((ot * (v.z ? nz : 1) + oz) * NX + x) = d[k++];
                }
    }
    return !timeOk || !levOk || !valuesFit;
}

void compare(const string& fn, const Model& m, const Pack& p, const TimeUnit& tu, const string& what, double tol)
{
    auto r = CDMFileReaderFactory::create("netcdf", fn);
    const CDM& cdm = r->getCDM();
    VF_CHECK(cdm.getDimension("time").getLength() == m.time.size(), what << ": the file has " << cdm.getDimension("time").getLength() << " times, expected " << m.time.size() << ": " << str(m.time));
    VF_CHECK(cdm.getDimension("lev").getLength() == m.lev.size() && cdm.getDimension("x").getLength() == NX, what << ": changed dimensions");
    expectClose(r->getScaledData("time"), toUnit(m.time, tu), what + ": time");
    VF_CHECK(cdm.getUnits("time") == tu.unit, what << ": units of time changed to " << cdm.getUnits("time"));
    if (cdm.hasVariable("lev"))
        expectValues(r->getScaledData("lev"), m.lev, what + ": lev");
    for (const auto& kv : m.u) {
        const bool main = kv.first != "only" && kv.first != "other";
        VD want;
        for (double v : kv.second)
            want.push_back(main ? inUnit(p, v) : v);
        expectClose(r->getScaledData(kv.first), want, what + ": variable " + kv.first, 0, main ? tol : 0);
        if (main)
            VF_CHECK(cdm.getUnits(kv.first) == p.unit, what << ": units of " << kv.first << " changed");
        EX->step(kv.second.size());
    }
    EX->state(str(m.time) + str(m.u.at("u"), 200));
    VF_CHECK(!cdm.hasVariable("new"), what << ": a new variable was added");
}

void create(CDMReader_p r, int fmt, const string& fn)
{
    remove(fn.c_str());
    CDMFileReaderFactory::createWriter(r, type_(fmt), fn);
}

/// all ordered selections of n values
void selections(const VD& all, size_t maxn, vector<VD>& out)
{
    vector<VD> level = {VD()};
    for (size_t n = 1; n <= maxn; ++n) {
        vector<VD> next;
        for (const VD& s : level)
            for (double v : all)
                if (std::find(s.begin(), s.end(), v) == s.end()) {
                    VD t = s;
                    t.push_back(v);
                    next.push_back(t);
                }
        out.insert(out.end(), next.begin(), next.end());
        level = next;
    }
}

string d2(const VD& t, const VD& z)
{
    return "times " + str(t) + ", levels " + str(z);
}

struct Block
{
    VD time, lev;
    bool unlimited;
    SliceMode mode;
};

/// fill with a sequence of blocks, checking the file after each
void history(const vector<Block>& blocks, const VD& time0, const VD& lev0, int fmt, bool outUnlimited, const Pack& ip, const Pack& op, const TimeUnit& it, const TimeUnit& ot)
{
    const string fn = EX->scratch() + "/out.nc";
    Model m;
    m.time = time0;
    m.lev = lev0;
    create(dataset(time0, lev0, op, ot, 0, BY_BUILDER, outUnlimited, &m.u, true), fmt, fn);
    double tol = quantum(op);
    // the created file
    compare(fn, m, op, ot, "before filling", tol);
    tol += quantum(ip);
    const bool fit = (string(ip.unit) == "m") == (string(op.unit) == "m") || !*ip.unit || !*op.unit;
    int step = 1;
    for (const Block& b : blocks) {
        std::map<string, VD> phys;
        auto in = dataset(b.time, b.lev, ip, it, step, b.mode, b.unlimited, &phys, false);
        const bool wantError = fillModel(m, b.time, b.lev, phys, outUnlimited, fit);
        bool threw;
        string msg;
        {
            auto rw = CDMFileReaderFactory::createReaderWriter("netcdf", fn);
            threw = throws([&] { FillWriter(in, rw); }, &msg);
        }
        VF_CHECK(threw == wantError, "fill " << step << " with " << d2(b.time, b.lev) << (threw ? " reported an error: " + msg : string(": a value without position in the file is not reported")));
        compare(fn, m, op, ot, "after fill " + std::to_string(step) + " with " + d2(b.time, b.lev), tol);
        EX->step();
        ++step;
    }
    remove(fn.c_str());
}

void single()
{
    EX->space("filling a file with one block: every ordered selection of times and levels, known and new, classic and netCDF-4 file, extensible or fixed time");
    vector<VD> ts, zs;
    selections({0, 6, 12, 18}, EX->thorough() ? 3 : 2, ts);
    selections({500, 850, 1000}, 3, zs);
    zs.push_back({300});
    zs.push_back({500, 300});
    const vector<VD> out0 = {{0, 6}, {6, 0, 12}, {12}};
    for (int fmt : {3, 4})
        for (const VD& t0 : out0)
            for (bool unl : {true, false})
                for (const VD& t : ts)
                    for (const VD& z : zs)
                        for (int mode = 0; mode < 3; ++mode) {
                            if (mode && z.size() > 1 && !EX->thorough())
                                continue;
                            Block b{t, z, mode != 1, mode == 2 ? BY_UNLIMITED : BY_BUILDER};
                            EX->run([=] { return type_(fmt) + " file with times " + str(t0) + (unl ? " (unlimited)" : "") + ", levels 500,850,1000; input " + d2(t, z) + (b.unlimited ? "" : ", fixed time") + (mode == 2 ? ", read by record" : ""); },
                                    [=] { history({b}, t0, {500, 850, 1000}, fmt, unl, packs[0], packs[0], tunits[0], tunits[0]); });
                        }
}

void histories()
{
    EX->space("every sequence of fills of one file (depth 3) over blocks with new, known and unknown times and levels");
    vector<Block> bs;
    for (const VD& t : vector<VD>{{6}, {12}, {18, 0}, {18, 12}})
        for (const VD& z : vector<VD>{{850}, {500, 850}, {300}})
            bs.push_back({t, z, true, BY_BUILDER});
    const size_t depth = 3;
    for (int fmt : {3, 4}) {
        const size_t n = (fmt == 3 || EX->thorough()) ? bs.size() : 4;
        for (size_t d = 2; d <= depth; ++d) {
            if (d == 3 && !EX->thorough() && fmt == 4)
                continue;
            product(d, 0, int(n) - 1, [=](const vector<int>& sel) {
                if (d == 3 && !EX->thorough() && (sel[0] % 3 == 2 || sel[1] % 3 == 2))
                    return;
                vector<Block> h;
                string desc;
                for (int i : sel) {
                    h.push_back(bs[i]);
                    desc += "; " + d2(bs[i].time, bs[i].lev);
                }
                EX->run([=] { return type_(fmt) + " file with times 0,6, levels 850,500; fills" + desc; },
                        [=] { history(h, {0, 6}, {850, 500}, fmt, true, packs[0], packs[0], tunits[0], tunits[0]); });
            });
        }
    }
}

void packings()
{
    EX->space("every pair of packings, types, fill values and units of input and file");
    for (int i = 0; i < NPACK; ++i)
        for (int o = 0; o < NPACK; ++o)
            for (int fmt : {3, 4})
                for (const VD& t : vector<VD>{{0, 6}, {6, 12}}) {
                    if (string(packs[i].unit) != packs[o].unit && (!*packs[i].unit || !*packs[o].unit))
                        continue; // the values of one have no unit
                    EX->run([=] { return string("input ") + packs[i].name + ", " + type_(fmt) + " file " + packs[o].name + ", times " + str(t); },
                            [=] { history({{t, {500, 850}, true, BY_BUILDER}}, {0, 6}, {500, 850}, fmt, true, packs[i], packs[o], tunits[0], tunits[0]); });
                }
    EX->space("every pair of time units of input and file");
    vector<VD> ts;
    selections({0, 6, 12, 18, 30}, EX->thorough() ? 3 : 2, ts);
    for (int i = 0; i < NTUNIT; ++i)
        for (int o = 0; o < NTUNIT; ++o)
            for (int fmt : {3, 4})
                for (const VD& t : ts)
                    EX->run([=] { return string("input time in ") + tunits[i].unit + ", " + type_(fmt) + " file in " + tunits[o].unit + ", times " + str(t); },
                            [=] { history({{t, {850}, true, BY_BUILDER}}, {0, 12, 6}, {500, 850}, fmt, true, packs[0], packs[0], tunits[i], tunits[o]); });
}

void translations()
{
    EX->space("configured translation of one position of a dimension of the input to one position of a dimension of the file");
    const size_t NA = 3, NB = 4;
    for (int fmt : {3, 4})
        for (int inHas = 0; inHas < 2; ++inHas)
            for (int outHas = 0; outHas < 2; ++outHas)
                for (int place = 0; place < 2; ++place) // where in the shape
                    for (size_t ia = 0; ia <= (inHas ? NA : 0); ++ia)
                        for (size_t ob = 0; ob <= (outHas ? NB : 0); ++ob)
                            for (const VD& t : vector<VD>{{6}, {6, 0}, {0, 12}})
                                EX->run(
                                    [=] { return type_(fmt) + (inHas ? " input position " + std::to_string(ia) + " of a" : string(" input without a")) + (outHas ? ", file position " + std::to_string(ob) + " of b" : string(", file without b")) + (place ? ", first dimension" : ", second dimension") + ", times " + str(t); },
                                    [=] {
                                        const string fn = EX->scratch() + "/out.nc", conf = EX->scratch() + "/conf.xml";
                                        writeFile(conf, "<?xml version=\"1.0\"?>\n<cdmFillWriter xmlns=\"http://www.met.no/schema/fimex/cdmFillWriterConfig\">\n<translate inputDimension=\"a\" inputSlices=\"" + std::to_string(ia) + "\" outputDimension=\"b\" outputSlices=\"" + std::to_string(ob) + "\"/>\n</cdmFillWriter>\n");
                                        auto make = [=](const VD& time, bool has, const string& dn, size_t nd, double base, VD& d) {
                                            auto r = std::make_shared<TestReader>();
                                            r->dim("x", NX);
                                            r->dim(dn, nd);
                                            axis(*r, "time", time, tunits[0].unit, "time", CDM_DOUBLE, true);
                                            vector<string> shape = {"x"};
                                            if (has)
                                                shape.insert(shape.begin() + (place ? 0 : 1), dn);
                                            shape.push_back("time");
                                            d = iota(time.size() * NX * (has ? nd : 1), base);
                                            r->var("v", CDM_FLOAT, shape, d);
                                            r->att("v", "_FillValue", CDM_FLOAT, {-1});
                                            r->var("keep" + dn, CDM_SHORT, {dn}, iota(nd, 3));
                                            return r;
                                        };
                                        VD od, id;
                                        VD time = {0, 6};
                                        create(make(time, outHas, "b", NB, 1, od), fmt, fn);
                                        auto in = make(t, inHas, "a", NA, 50, id);
                                        const bool bad = (inHas && ia == NA) || (outHas && ob == NB);
                                        const size_t na = inHas ? NA : 1, nb = outHas ? NB : 1;
                                        auto at = [&](size_t tt, size_t x, size_t k, size_t n) { return place ? (tt * NX + x) * n + k : (tt * n + k) * NX + x; };
                                        for (size_t i = 0; i < t.size(); ++i) {
                                            size_t p = std::find(time.begin(), time.end(), t[i]) - time.begin();
                                            if (p == time.size()) {
                                                time.push_back(t[i]);
                                                od.resize(time.size() * NX * nb, NaN);
                                            }
                                            if (!bad)
                                                for (size_t x = 0; x < NX; ++x)
                                                    od.at(at(p, x, outHas ? ob : 0, nb)) = id.at(at(i, x, inHas ? ia : 0, na));
                                        }
                                        bool threw;
                                        string msg;
                                        {
                                            auto rw = CDMFileReaderFactory::createReaderWriter("netcdf", fn);
                                            threw = throws([&] { FillWriter(in, rw, conf); }, &msg);
                                        }
                                        VF_CHECK(threw == bad, (threw ? "reported an error: " + msg : string("a position outside of the dimension is not reported")));
                                        auto r = CDMFileReaderFactory::create("netcdf", fn);
                                        expectValues(r->getScaledData("time"), time, "time");
                                        expectValues(r->getScaledData("v"), od, "v");
                                        expectValues(r->getScaledData("keepb"), iota(NB, 3), "keep");
                                        EX->step(od.size());
                                    });
}

void withoutAxes()
{
    EX->space("dimensions without coordinate variable: records are appended, equal sizes are kept, other sizes are errors");
    for (int fmt : {3, 4})
        for (size_t no = 1; no <= 3; ++no)
            for (size_t ni = 1; ni <= 3; ++ni)
                for (bool unl : {true, false})
                    for (int axisIn = 0; axisIn < 3; ++axisIn) // coordinate variable: nowhere, in the input, in the file
                        EX->run(
                            [=] { return type_(fmt) + " file with " + std::to_string(no) + (unl ? " records" : " elements") + ", input with " + std::to_string(ni) + (axisIn == 1 ? ", coordinates in the input" : axisIn == 2 ? ", coordinates in the file" : ""); },
                            [=] {
                                const string fn = EX->scratch() + "/out.nc";
                                auto make = [=](size_t n, bool ax, double base, bool u) {
                                    auto r = std::make_shared<TestReader>();
                                    r->dim("x", NX);
                                    if (ax)
                                        axis(*r, "rec", iota(n, base), "m", "height", CDM_DOUBLE, u);
                                    else
                                        r->dim("rec", n, u);
                                    r->var("v", CDM_INT, {"x", "rec"}, iota(n * NX, base));
                                    r->var("c", CDM_INT, {"x"}, iota(NX, base + 20));
                                    return r;
                                };
                                create(make(no, axisIn == 2, 1, unl), fmt, fn);
                                auto in = make(ni, axisIn == 1, 50, false);
                                const bool bad = !unl && no != ni;
                                VD v = iota(no * NX, 1), iv = iota(ni * NX, 50);
                                if (unl)
                                    v.insert(v.end(), iv.begin(), iv.end());
                                else if (!bad)
                                    v = iv;
                                bool threw;
                                {
                                    auto rw = CDMFileReaderFactory::createReaderWriter("netcdf", fn);
                                    threw = throws([&] { FillWriter(in, rw); });
                                }
                                VF_CHECK(threw == bad, (threw ? "error reported" : "different size not reported"));
                                auto r = CDMFileReaderFactory::create("netcdf", fn);
                                expectValues(r->getScaledData("v"), v, "v");
                                expectValues(r->getScaledData("c"), iota(NX, 70), "c");
                                EX->step(v.size());
                            });
}
} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    single();
    histories();
    packings();
    translations();
    withoutAxes();
}
