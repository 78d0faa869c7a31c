// C20: quality extraction: values are kept exactly where their status allows it
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMQualityExtractor.h"

#include <algorithm>
#include <limits>

using namespace fx;

namespace {
vf::Explorer* EX = nullptr;
const double NaN = std::numeric_limits<double>::quiet_NaN();
const size_t N = 4, NZ = 2; // x*y, levels

/// how to accept a status value; slice: all status values of the slice
struct Rule
{
    string xml, text; ///< attributes and content of allowed_values
    string autoConf;
    VD list;          ///< accepted values
    char kind;        ///< l(ist) a(ll) h(ighest) w(lowest) n(min:) x(max:)
    double limit;
};
const vector<Rule> rules = {
    {"", "1", "", {1}, 'l', 0},
    {"", "0,2", "", {0, 2}, 'l', 0},
    {"", "3,1", "", {1, 3}, 'l', 0},
    {"", "1,2,...,4", "", {1, 2, 3, 4}, 'l', 0},
    {" use=\"all\"", "", "all", {}, 'a', 0},
    {" use=\"highest\"", "", "highest", {}, 'h', 0},
    {" use=\"lowest\"", "", "lowest", {}, 'w', 0},
    {" use=\"min:2\"", "", "", {}, 'n', 2},
    {" use=\"max:1.5\"", "", "", {}, 'x', 1.5},
    {" use=\"all\"", "2", "", {2}, 'l', 0}, // values win
};

struct SType
{
    const char* name;
    CDMDataType type;
    double fill; ///< NaN: not set
    bool hasFill;
};
const SType stypes[] = {{"byte", CDM_CHAR, -1, true}, {"int", CDM_INT, 9, true}, {"float", CDM_FLOAT, -99, true}, {"double", CDM_DOUBLE, NaN, false}, {"double with fill", CDM_DOUBLE, 7, true}, {"short", CDM_SHORT, 4, true}};
const int NSTYPE = 6;

struct DType
{
    const char* name;
    CDMDataType type;
    bool hasFill;
    double fill;
};
const DType dtypes[] = {{"float", CDM_FLOAT, true, -999}, {"double", CDM_DOUBLE, true, -999}, {"short", CDM_SHORT, true, -32767}, {"int without fill value", CDM_INT, false, 0}, {"float without fill value", CDM_FLOAT, false, 0}};
const int NDTYPE = 5;

/// status values: code 0..3 or 4 = missing
double statusOf(int code, const SType& s)
{
    return code == 4 ? (s.hasFill ? s.fill : NaN) : code;
}

vector<bool> keep(const Rule& r, const SType& s, const VD& slice, int valid)
{
    vector<bool> k(slice.size(), true);
    double vmin = NaN, vmax = NaN;
    if (valid == 1 || valid >= 3)
        vmin = 1;
    if (valid == 2 || valid >= 3)
        vmax = 2;
    VD defined;
    for (double v : slice) {
        const bool ok = !std::isnan(v) && !(s.hasFill && v == s.fill) && !(v < vmin) && !(v > vmax);
        if (ok)
            defined.push_back(v);
    }
    for (size_t i = 0; i < slice.size(); ++i) {
        const double v = slice[i];
        if (r.kind == 'l') {
            k[i] = std::find(r.list.begin(), r.list.end(), v) != r.list.end();
            continue;
        }
        k[i] = !std::isnan(v) && !(s.hasFill && v == s.fill) && !(v < vmin) && !(v > vmax);
        switch (r.kind) {
        case 'h': k[i] = k[i] && v == *std::max_element(defined.begin(), defined.end()); break;
        case 'w': k[i] = k[i] && v == *std::min_element(defined.begin(), defined.end()); break;
        case 'n': k[i] = k[i] && v >= r.limit; break;
        case 'x': k[i] = k[i] && v <= r.limit; break;
        default: break;
        }
    }
    return k;
}

string config(const string& var, const string& status, const Rule& r, const string& fill, const string& more = "")
{
    return "<variable name=\"" + var + "\"" + (fill.empty() ? "" : " fillValue=\"" + fill + "\"") + "><status_flag_variable name=\"" + status + "\"" + more + "><allowed_values" + r.xml + ">" + r.text +
           "</allowed_values></status_flag_variable></variable>";
}
string file(const string& body)
{
    const string fn = EX->scratch() + "/q.xml";
    writeFile(fn, "<?xml version=\"1.0\"?><cdmQualityConfig>" + body + "</cdmQualityConfig>");
    return fn;
}

/// status dimensions: 0 (x,y,time), 1 (x,y), 2 (x,y,time) with variable (x,y,z,time)... 3 (x,y) with (x,y,z,time), 4 (x,y) with (x,y), 5 (x,y,z,time) both
struct Lay
{
    const char* name;
    bool varZ, varT, stZ, stT;
};
const Lay lays[] = {{"both (x,y,time)", false, true, false, true},
                    {"status (x,y)", false, true, false, false},
                    {"variable with levels, status (x,y)", true, true, false, false},
                    {"both (x,y)", false, false, false, false},
                    {"both (x,y,z,time)", true, true, true, true},
                    {"variable (x,y,z), status (x,y)", true, false, false, false}};
const int NLAY = 6;

vector<string> shapeOf(bool z, bool t)
{
    vector<string> s = {"x", "y"};
    if (z)
        s.push_back("z");
    if (t)
        s.push_back("time");
    return s;
}

void base(TestReader& r)
{
    r.att("", "Conventions", "CF-1.4");
    axis(r, "x", {5, 6}, "degrees_east", "longitude");
    axis(r, "y", {60, 61}, "degrees_north", "latitude");
    axis(r, "z", {1, 2}, "m", "height");
    axis(r, "time", {0, 6}, "hours since 2020-01-01 00:00:00", "time", CDM_DOUBLE, true);
}

struct Cfg
{
    int lay = 0, st = 2, dt = 0, rule = 0, valid = 0;
    bool mem = false, builder = true;
    string fill;           ///< configured
    vector<int> codes;     ///< status of the first slice, shifted for the others
    bool external = false;
    bool autoConf = false;
    string both; ///< automatic configuration overridden by the file
};

void put(TestReader& r, bool mem, const string& n, CDMDataType t, const vector<string>& shape, const VD& v)
{
    if (mem)
        r.varMem(n, t, shape, mk(t, v));
    else
        r.var(n, t, shape, v);
}

void status(TestReader& r, const Cfg& c, const string& name, VD& all)
{
    const SType& s = stypes[c.st];
    const Lay& l = lays[c.lay];
    const size_t n = N * (l.stZ ? NZ : 1), nt = l.stT ? 2 : 1;
    for (size_t t = 0; t < nt; ++t)
        for (size_t i = 0; i < n; ++i)
            all.push_back(statusOf(c.codes[(i + t) % c.codes.size()] == 4 ? 4 : (c.codes[(i + t) % c.codes.size()] + t) % 4, s));
    put(r, c.mem, name, s.type, shapeOf(l.stZ, l.stT), all);
    if (s.hasFill)
        r.att(name, "_FillValue", s.type, {s.fill});
    if (c.valid == 1 || c.valid == 3)
        r.att(name, "valid_min", s.type, {1});
    if (c.valid == 2 || c.valid == 3)
        r.att(name, "valid_max", s.type, {2});
    if (c.valid == 4)
        r.att(name, "valid_range", s.type, {1, 2});
    r.att(name, "standard_name", "air_temperature status_flag");
    r.att(name, "flag_values", s.type, {0, 1, 2, 3});
}

void check(const Cfg& c)
{
    auto rp = std::make_shared<TestReader>(c.builder ? BY_BUILDER : BY_UNLIMITED);
    TestReader& r = *rp;
    base(r);
    const Lay& l = lays[c.lay];
    const DType& d = dtypes[c.dt];
    const SType& s = stypes[c.st];
    Rule rule = rules[c.rule];
    if (c.autoConf) { // autoConf: the listed flag values
        if (rule.kind == 'a')
            rule.list = {0, 1, 2, 3};
        else if (rule.kind == 'h')
            rule.list = {3};
        else if (rule.kind == 'w')
            rule.list = {0};
        rule.kind = 'l';
    }
    const size_t n = N * (l.varZ ? NZ : 1), nt = l.varT ? 2 : 1;
    VD vals, st;
    for (size_t i = 0; i < n * nt; ++i)
        vals.push_back(10. + i);
    put(r, c.mem, "ta", d.type, shapeOf(l.varZ, l.varT), vals);
    r.att("ta", "standard_name", "air_temperature");
    if (d.hasFill)
        r.att("ta", "_FillValue", d.type, {d.fill});
    r.var("free", CDM_SHORT, {"x", "time"}, {1, 2, 3, 4});
    CDMReader_p q;
    auto ext = std::make_shared<TestReader>();
    string more;
    if (c.external) {
        base(*ext);
        status(*ext, c, "mask", st);
        const string fn = EX->scratch() + "/mask.nc";
        CDMFileReaderFactory::createWriter(ext, "nc4", fn);
        more = " file=\"" + fn + "\" type=\"netcdf\"";
    } else {
        status(r, c, "mask", st);
    }
    const string before = dump(rp);
    if (c.autoConf) {
        string a = rule.autoConf;
        if (a.empty())
            a = "values=" + rule.text;
        q = std::make_shared<CDMQualityExtractor>(rp, a);
    } else
        q = std::make_shared<CDMQualityExtractor>(rp, c.both, file(config("ta", "mask", rule, c.fill, more)));
    const double fill = c.fill.empty() ? (d.hasFill ? d.fill : r.getCDM().getFillValue("ta")) : std::stod(c.fill);
    VD want = vals;
    const size_t sn = N * (l.stZ ? NZ : 1);
    for (size_t t = 0; t < nt; ++t) {
        const VD slice(st.begin() + (l.stT ? sn * t : 0), st.begin() + (l.stT ? sn * t : 0) + sn);
        const vector<bool> k = keep(rule, s, slice, c.valid);
        for (size_t i = 0; i < n; ++i)
            if (!k[i % sn])
                want[i + n * t] = d.type == CDM_FLOAT ? double(float(fill)) : fill;
    }
    for (int round = 0; round < 2; ++round) {
        for (size_t t = 0; t < nt; ++t)
            expectValues(q->getDataSlice("ta", t), VD(want.begin() + n * t, want.begin() + n * (t + 1)), "slice " + std::to_string(t));
        expectValues(q->getData("ta"), want, "all");
    }
    SliceBuilder sb(q->getCDM(), "ta");
    sb.setStartAndSize("x", 1, 1);
    if (l.varT)
        sb.setStartAndSize("time", 1, 1);
    VD part;
    for (size_t i = 1; i < n; i += 2)
        part.push_back(want[i + (l.varT ? n : 0)]);
    expectValues(q->getDataSlice("ta", sb), part, "part");
    if (!c.external)
        expectValues(q->getData("mask"), st, "status itself");
    expectValues(q->getData("free"), {1, 2, 3, 4}, "other variable");
    VF_CHECK(dumpCDM(q->getCDM()) == dumpCDM(r.getCDM()), "description changed");
    VF_CHECK(dump(rp) == before, "source changed");
    EX->step(nt * 2 + 3);
    string key;
    for (double v : want)
        key += v > 9 && v < 50 ? '1' : '0';
    EX->state(std::to_string(c.rule) + key);
}

/// a's status is b (accepted values la), whose status is c (lb), or b itself
void chained(const Rule& ra, const Rule& rb, bool own, const vector<int>& codes)
{
    auto rp = std::make_shared<TestReader>();
    base(*rp);
    const SType s = stypes[4];
    VD b, c;
    for (size_t i = 0; i < N; ++i) {
        b.push_back(statusOf(codes[i], s));
        c.push_back(statusOf(codes[(i + 1) % N], s));
    }
    rp->var("a", CDM_FLOAT, {"x", "y"}, {10, 11, 12, 13});
    rp->var("b", CDM_DOUBLE, {"x", "y"}, b);
    rp->att("b", "_FillValue", CDM_DOUBLE, {s.fill});
    rp->var("c", CDM_DOUBLE, {"x", "y"}, c);
    rp->att("c", "_FillValue", CDM_DOUBLE, {s.fill});
    auto q = std::make_shared<CDMQualityExtractor>(rp, "", file(config("a", "b", ra, "-5") + config("b", own ? "b" : "c", rb, "")));
    const vector<bool> kb = keep(rb, s, own ? b : c, 0);
    for (size_t i = 0; i < N; ++i)
        if (!kb[i])
            b[i] = s.fill;
    expectValues(q->getData("b"), b, "status after its own check");
    const vector<bool> ka = keep(ra, s, b, 0);
    VD a = {10, 11, 12, 13};
    for (size_t i = 0; i < N; ++i)
        if (!ka[i])
            a[i] = -5;
    expectValues(q->getData("a"), a, "value");
    EX->step(2);
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool T = ex.thorough();
    auto cstr = [](const vector<int>& v) {
        string s;
        for (int x : v)
            s += char(x == 4 ? '-' : '0' + x);
        return s;
    };

    ex.space("all status patterns");
    for (size_t ru = 0; ru < rules.size(); ++ru)
        for (int st = 0; st < NSTYPE; ++st) {
            if (!T && (ru + st) % 3)
                continue;
            for (int valid = 0; valid < 5; ++valid)
                product(4, 0, 4, [&](const vector<int>& codes) {
                    if (!T && valid && (codes[0] + codes[1] + codes[2] + codes[3]) % 4)
                        return;
                    Cfg c;
                    c.rule = ru;
                    c.st = st;
                    c.valid = valid;
                    c.codes = codes;
                    ex.run([=] { return "rule" + rules[ru].xml + " " + rules[ru].text + " status " + stypes[st].name + " valid " + std::to_string(valid) + " codes " + cstr(codes); }, [=] { check(c); });
                });
        }
    ex.space("layouts and storages");
    for (int lay = 0; lay < NLAY; ++lay)
        for (int dt = 0; dt < NDTYPE; ++dt)
            for (int st = 0; st < NSTYPE; ++st)
                for (size_t ru = 0; ru < rules.size(); ++ru)
                    for (int mem = 0; mem < 2; ++mem)
                        for (int fill = 0; fill < 2; ++fill)
                            for (int b = 0; b < 2; ++b) {
                                if (!T && (lay + dt + st + ru + mem + fill + b) % 3)
                                    continue;
                                Cfg c;
                                c.lay = lay;
                                c.dt = dt;
                                c.st = st;
                                c.rule = ru;
                                c.mem = mem;
                                c.builder = b;
                                c.fill = fill ? "-77" : "";
                                c.codes = {0, 1, 4, 2, 3};
                                ex.run([=] { return string(lays[lay].name) + " " + dtypes[dt].name + " status " + stypes[st].name + " rule" + rules[ru].xml + " " + rules[ru].text + (mem ? " memory" : "") + (fill ? " fill -77" : "") + " mode " + std::to_string(b); }, [=] { check(c); });
                            }
    ex.space("automatic configuration");
    for (size_t ru = 0; ru < rules.size(); ++ru) {
        if (rules[ru].kind == 'n' || rules[ru].kind == 'x' || (rules[ru].kind == 'l' && !rules[ru].xml.empty()))
            continue;
        for (int lay = 0; lay < NLAY; ++lay)
            for (int st = 0; st < NSTYPE; ++st)
                for (int dt = 0; dt < NDTYPE; ++dt) {
                    Cfg c;
                    c.lay = lay;
                    c.dt = dt;
                    c.st = st;
                    c.rule = ru;
                    c.autoConf = true;
                    c.codes = {0, 1, 4, 2, 3};
                    ex.run([=] { return string(lays[lay].name) + " " + dtypes[dt].name + " status " + stypes[st].name + " auto " + rules[ru].autoConf + rules[ru].text; }, [=] { check(c); });
                }
    }
    for (size_t ru = 0; ru < rules.size(); ++ru)
        for (const char* both : {"all", "highest", "lowest", "values=0,1"})
            ex.run([=] { return "file with rule" + rules[ru].xml + " " + rules[ru].text + " and auto " + both; }, [=] {
                Cfg c;
                c.rule = ru;
                c.both = both;
                c.codes = {0, 1, 4, 2, 3};
                check(c);
            });
    for (const char* bad : {"none", "values", "values=a", "min:1", "Highest"})
        ex.run([=] { return string("refused: ") + bad; }, [=] {
            auto rp = std::make_shared<TestReader>();
            base(*rp);
            VF_CHECK(throws([&] { CDMQualityExtractor q(rp, bad); }), "accepted");
        });
    ex.space("status from another file");
    for (int lay = 0; lay < NLAY; ++lay)
        for (int st = 1; st < NSTYPE; ++st)
            for (size_t ru = 0; ru < rules.size(); ++ru) {
                if (!T && (lay + st + ru) % 2)
                    continue;
                Cfg c;
                c.lay = lay;
                c.st = st;
                c.rule = ru;
                c.external = true;
                c.codes = {0, 1, 4, 2, 3};
                ex.run([=] { return string(lays[lay].name) + " status " + stypes[st].name + " rule" + rules[ru].xml + " " + rules[ru].text; }, [=] { check(c); });
            }
    ex.space("status of the status");
    for (size_t a = 0; a < rules.size(); ++a)
        for (size_t b = 0; b < rules.size(); ++b)
            for (int own = 0; own < 2; ++own)
                product(4, 0, 4, [&](const vector<int>& codes) {
                    if ((codes[0] * 5 + codes[1] * 3 + codes[2] * 7 + codes[3]) % (T ? 3 : 41))
                        return;
                    ex.run([=] { return "rules" + rules[a].xml + " " + rules[a].text + "," + rules[b].xml + " " + rules[b].text + (own ? " own" : "") + " codes " + cstr(codes); }, [=] { chained(rules[a], rules[b], own, codes); });
                });
    ex.space("refused configurations");
    const vector<string> bad = {
        "<variable name=\"ta\"/>",
        "<variable name=\"ta\"><status_flag_variable name=\"mask\"/></variable>",
        "<variable name=\"ta\"><status_flag_variable name=\"mask\"><allowed_values/></status_flag_variable></variable>",
        "<variable name=\"ta\"><status_flag_variable><allowed_values use=\"all\"/></status_flag_variable></variable>",
        "<variable name=\"ta\"><status_flag_variable name=\"mask\" type=\"netcdf\"><allowed_values use=\"all\"/></status_flag_variable></variable>",
        "<variable name=\"ta\"><status_flag_variable name=\"mask\"><allowed_values>a</allowed_values></status_flag_variable></variable>",
        "<variable name=\"ta\" fillValue=\"x\"><status_flag_variable name=\"mask\"><allowed_values use=\"all\"/></status_flag_variable></variable>",
        "<variable name=\"ta\"><status_flag_variable name=\"big\"><allowed_values use=\"all\"/></status_flag_variable></variable>",
        "<variable name=\"ta\"><status_flag_variable name=\"other\"><allowed_values use=\"all\"/></status_flag_variable></variable>",
    };
    for (size_t i = 0; i <= bad.size() + 1; ++i)
        ex.run([=] { return i < bad.size() ? bad[i] : "case " + std::to_string(i); }, [=] {
            auto rp = std::make_shared<TestReader>();
            base(*rp);
            rp->var("ta", CDM_FLOAT, {"x", "y"}, {1, 2, 3, 4});
            rp->var("mask", CDM_INT, {"x", "y"}, {1, 2, 3, 4});
            rp->var("big", CDM_INT, {"x", "y", "z"}, VD(8, 1));
            rp->dim("n", 3);
            rp->var("other", CDM_INT, {"n", "y"}, VD(6, 1));
            if (i < bad.size()) {
                VF_CHECK(throws([&] { CDMQualityExtractor q(rp, "", file(bad[i])); }), "accepted");
            } else if (i == bad.size()) {
                VF_CHECK(throws([&] { CDMQualityExtractor q(rp, "", EX->scratch() + "/nofile.xml"); }), "missing file accepted");
            } else {
                auto q = std::make_shared<CDMQualityExtractor>(rp, "", file("<variable name=\"ta\"><status_flag_variable name=\"mask\"><allowed_values use=\"best\"/></status_flag_variable></variable>"));
                VF_CHECK(throws([&] { q->getDataSlice("ta", 0); }), "unknown use accepted");
            }
        });
}
