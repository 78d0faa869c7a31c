// C22: what the GRIB reader presents is what the GRIB messages say.
// The messages are produced with the codec library alone; positions are compared with the codec library's
// own geometry, everything else with the numbers that were encoded.
#include "fx.h"
#include "gribmsg.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/TimeUnit.h"
#include "fimex/XMLInputString.h"

#include "GribFileIndex.h"
#include "fimex/ChunkReaderFactory.h"

#include <proj.h>

#include <algorithm>
#include <array>
#include <functional>
#include <set>

using namespace fx;
using gm::D;
using gm::Keys;
using gm::L;
using gm::S;
using std::to_string;

namespace {

const double FILL = -32767;

string axis(const string& grid, const string& id, const string& name, const string& unit, const string& sn)
{
    string s = "<spatial_axis typeOfGrid=\"" + grid + "\" id=\"" + id + "\" name=\"" + name + "\" type=\"double\">";
    if (!sn.empty())
        s += "<attribute name=\"standard_name\" value=\"" + sn + "\" type=\"string\" />";
    return s + "<attribute name=\"units\" value=\"" + unit + "\" type=\"string\" /></spatial_axis>\n";
}

const string STDPAR =
    "<parameter name=\"T\" type=\"float\"><attribute name=\"_FillValue\" value=\"-32767\" type=\"float\" />"
    "<grib1 indicatorOfParameter=\"11\" /><grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\" /></parameter>"
    "<parameter name=\"U\" type=\"double\"><attribute name=\"_FillValue\" value=\"-32767\" type=\"double\" />"
    "<grib1 indicatorOfParameter=\"33\" /><grib2 parameterNumber=\"2\" parameterCategory=\"2\" discipline=\"0\" /></parameter>";

string config(const string& parameters = STDPAR, const string& select = "all", const string& timeUnit = "seconds since 1970-01-01 00:00:00 +00:00",
              const string& overrule = "")
{
    string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">"
               "<processOptions><option name=\"selectParameters\" value=\"" + select + "\" /></processOptions>" + overrule +
               "<global_attributes><attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\" />"
               "<attribute name=\"history\" value=\"none\" type=\"string\" /></global_attributes>\n<axes>"
               "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"standard_name\" value=\"time\" type=\"string\" />"
               "<attribute name=\"units\" value=\"" + timeUnit + "\" type=\"string\" /></time>\n";
    for (const char* g : {"lambert", "mercator", "polar_stereographic"}) {
        s += axis(g, "x", "x", "m", "projection_x_coordinate");
        s += axis(g, "y", "y", "m", "projection_y_coordinate");
    }
    s += axis("regular_ll", "x", "longitude", "degrees_east", "") + axis("regular_ll", "y", "latitude", "degrees_north", "");
    s += axis("rotated_ll", "x", "rlon", "degrees", "grid_longitude") + axis("rotated_ll", "y", "rlat", "degrees", "grid_latitude");
    s += "<spatial_axis id=\"longitude\" name=\"longitude\"></spatial_axis><spatial_axis id=\"latitude\" name=\"latitude\"></spatial_axis>\n";
    s += "<vertical_axis id=\"height\" name=\"height\" grib2_id=\"103\" grib1_id=\"105\" type=\"float\">"
         "<attribute name=\"units\" value=\"m\" type=\"string\" /><attribute name=\"positive\" value=\"up\" type=\"string\" /></vertical_axis>\n"
         "<vertical_axis id=\"hybrid\" name=\"k\" grib2_id=\"105\" grib1_id=\"109\" type=\"double\">"
         "<attribute name=\"standard_name\" value=\"atmosphere_hybrid_sigma_pressure_coordinate\" type=\"string\" />"
         "<attribute name=\"formula_terms\" value=\"ap: ap%EXT% b: b%EXT% ps: ps p0: p0%EXT%\" type=\"string\" />"
         "<values mode=\"hybridSigmaCalc(ap,b,p0)\" />"
         "<additional_axis_variable name=\"p0\" type=\"double\" axis=\"\"><values>100000</values></additional_axis_variable>"
         "<additional_axis_variable name=\"ap\" type=\"double\" axis=\"k\"><attribute name=\"units\" value=\"Pa\" type=\"string\" />"
         "<values mode=\"extraHalvLevel1\" scale_factor=\"1\" /></additional_axis_variable>"
         "<additional_axis_variable name=\"b\" type=\"double\" axis=\"k\"><attribute name=\"units\" value=\"1\" type=\"string\" />"
         "<values mode=\"extraHalvLevel2\" scale_factor=\"1\" /></additional_axis_variable></vertical_axis>\n";
    s += "</axes>\n<variables>" + parameters + "</variables></cdmGribReaderConfig>";
    return s;
}

CDMReader_p open(const string& fn, const string& cfg, const vector<string>& args = vector<string>(), const string& type = "grib")
{
    return CDMFileReaderFactory::create(type, fn, XMLInputString(cfg), args);
}

// ---------------------------------------------------------------- message parts
Keys llGrid(int nx, int ny, double lon0 = 5, double lat0 = 50, double dx = 1, double dy = 1)
{
    auto pos = [](double l) { return l < 0 ? l + 360 : l; };
    return Keys{S("gridType", "regular_ll"), L("Ni", nx), L("Nj", ny), L("iScansNegatively", dx < 0), L("jScansPositively", dy > 0),
                D("latitudeOfFirstGridPointInDegrees", lat0), D("longitudeOfFirstGridPointInDegrees", pos(lon0)),
                D("latitudeOfLastGridPointInDegrees", lat0 + (ny - 1) * dy), D("longitudeOfLastGridPointInDegrees", pos(lon0 + (nx - 1) * dx)),
                D("iDirectionIncrementInDegrees", std::fabs(dx)), D("jDirectionIncrementInDegrees", std::fabs(dy))};
}

Keys param(int ed, int which)
{
    if (ed == 1)
        return Keys{L("setLocalDefinition", 0), L("centre", 88), L("table2Version", 1), L("indicatorOfParameter", which == 0 ? 11 : 33)};
    return Keys{L("discipline", 0), L("parameterCategory", which == 0 ? 0 : 2), L("parameterNumber", which == 0 ? 0 : 2)};
}

Keys level(int ed, int type1, int type2, long value)
{
    if (ed == 1)
        return Keys{L("indicatorOfTypeOfLevel", type1), L("level", value)};
    return Keys{L("typeOfFirstFixedSurface", type2), L("scaleFactorOfFirstFixedSurface", 0), L("scaledValueOfFirstFixedSurface", value)};
}
Keys height(int ed, long v) { return level(ed, 105, 103, v); }

Keys when(int ed, long date, long time, int unit, long step)
{
    Keys k{L("dataDate", date), L("dataTime", time), L("indicatorOfUnitOfTimeRange", unit)};
    if (ed == 1)
        return k + Keys{L("timeRangeIndicator", 0), L("P1", step)};
    return k + Keys{L("forecastTime", step)};
}

long long days(int y, int m, int d) // civil to days since 1970
{
    y -= m <= 2;
    const int era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097LL + static_cast<long long>(doe) - 719468;
}
long long epoch(long date, long time)
{
    return days(date / 10000, date / 100 % 100, date % 100) * 86400 + (time / 100) * 3600 + (time % 100) * 60;
}

// ---------------------------------------------------------------- layout of messages in the dataset
const int NX = 3, NY = 2;

double val(int p, int t, int l, int e, int x, int y)
{
    return p * 512 + t * 128 + l * 32 + e * 16 + y * 4 + x;
}

struct Layout
{
    int ed, T, L, E;
    unsigned long present; // bit (t*L+l)*E+e
    int order;             // 0 forward, 1 reverse, 2 odd ones first
    int files;             // 1, 2
    bool second;           // a second variable with its own levels
    string str() const
    {
        std::ostringstream o;
        o << "GRIB" << ed << ", " << T << " times x " << L << " levels x " << E << " members, messages present 0x" << std::hex << present << std::dec
          << ", order " << order << ", " << files << " file(s)" << (second ? ", second variable on other levels" : "");
        return o.str();
    }
};

const long LEVELS[] = {2, 10, 100};
const long T0DATE = 20200228;

vector<double> field(int p, int t, int l, int e, int hole)
{
    vector<double> v;
    for (int y = 0; y < NY; ++y)
        for (int x = 0; x < NX; ++x)
            v.push_back(y * NX + x == hole ? gm::MISSING : val(p, t, l, e, x, y));
    return v;
}

int holeOf(int t, int l, int e)
{
    int k = (t * 3 + l) * 2 + e;
    return k % 3 == 0 ? k % 6 : -1;
}

string msgOf(int ed, int p, int t, int l, int e, int E)
{
    Keys k = llGrid(NX, NY) + param(ed, p) + height(ed, LEVELS[l]);
    if (ed == 2 && E > 1)
        k = Keys{gm::L("productDefinitionTemplateNumber", 1)} + k + Keys{gm::L("numberOfForecastsInEnsemble", E), gm::L("perturbationNumber", e)};
    k = k + when(ed, T0DATE, 1200, 1, 6 * t);
    static std::map<string, string> cache;
    string id = to_string(ed) + "," + to_string(p) + "," + to_string(t) + "," + to_string(l) + "," + to_string(e) + "," + to_string(E);
    auto it = cache.find(id);
    if (it != cache.end())
        return it->second;
    return cache[id] = gm::message(ed, k, field(p, t, l, e, holeOf(t, l, e)));
}

void layoutCase(vf::Explorer& ex, const Layout& c)
{
    // members of a GRIB-1 ensemble are told apart by file name
    const bool byFile = c.ed == 1 && c.E > 1;
    vector<string> bytes(byFile ? c.E : c.files);
    vector<std::array<int, 3>> ms;
    for (int t = 0; t < c.T; ++t)
        for (int l = 0; l < c.L; ++l)
            for (int e = 0; e < c.E; ++e)
                if (c.present >> ((t * c.L + l) * c.E + e) & 1)
                    ms.push_back({t, l, e});
    const size_t n = ms.size();
    vector<size_t> ord;
    for (size_t i = 0; i < n; ++i)
        ord.push_back(i);
    if (c.order == 1)
        std::reverse(ord.begin(), ord.end());
    else if (c.order == 2)
        std::stable_sort(ord.begin(), ord.end(), [](size_t a, size_t b) { return a % 2 > b % 2; });
    for (size_t i = 0; i < n; ++i) {
        auto m = ms[ord[i]];
        bytes[byFile ? m[2] : i % bytes.size()] += msgOf(c.ed, 0, m[0], m[1], m[2], c.E);
    }
    // second variable: without ensembles, only at the first time, on all levels but the first, last one first
    if (c.second)
        for (int l = 2; l >= 1; --l)
            bytes[0] += msgOf(c.ed, 1, 0, l, 0, byFile ? 1 : 1);

    vector<string> fns;
    string spec = "many:,";
    for (size_t i = 0; i < bytes.size(); ++i) {
        fns.push_back(ex.scratch() + "/mem" + to_string(i) + ".grb");
        gm::write(fns[i], bytes[i]);
        spec += (i ? "," : "") + fns[i];
    }
    vector<string> args;
    if (byFile)
        for (int e = 0; e < c.E; ++e)
            args.push_back("memberName:mem" + to_string(e) + ".grb:m" + to_string(e));
    CDMReader_p r = open(fns.size() == 1 ? fns[0] : spec, config(), args);
    ex.step();

    // expected axes
    std::set<int> ts, ls;
    for (auto& m : ms) {
        ts.insert(m[0]);
        ls.insert(m[1]);
    }
    if (c.second)
        ts.insert(0);
    vector<int> tv(ts.begin(), ts.end()), lv(ls.begin(), ls.end());
    VD times, levels;
    for (int t : tv)
        times.push_back(epoch(T0DATE, 1200) + t * 6 * 3600);
    for (int l : lv)
        levels.push_back(LEVELS[l]);
    const CDM& cdm = r->getCDM();
    expectValues(r->getScaledData("time"), times, "time axis");
    expectValues(r->getScaledData("forecast_reference_time"), VD{double(epoch(T0DATE, 1200))}, "forecast reference time");
    expectClose(r->getScaledData("longitude"), VD{5, 6, 7}, "longitude axis");
    expectClose(r->getScaledData("latitude"), VD{50, 51}, "latitude axis");

    auto checkVar = [&](const string& name, int p, const vector<int>& lvs, int E, const std::function<bool(int, int, int)>& has) {
        const CDMVariable& v = cdm.getVariable(name);
        auto shape = v.getShape();
        VS want{NX, NY};
        if (E > 1)
            want.push_back(E);
        want.push_back(lvs.size());
        want.push_back(tv.size());
        VS got;
        for (auto& d : shape)
            got.push_back(cdm.getDimension(d).getLength());
        VF_CHECK(got == want, name << " has shape " << str(got) << ", the messages span " << str(want));
        VF_CHECK(shape.back() == "time", name << ": slowest dimension is " << shape.back());
        const string ldim = shape[E > 1 ? 3 : 2];
        VD lw;
        for (int l : lvs)
            lw.push_back(LEVELS[l]);
        expectValues(r->getScaledData(ldim), lw, "levels of " + name);
        // full reference array, x fastest
        VD all;
        for (int t : tv)
            for (int l : lvs)
                for (int e = 0; e < E; ++e)
                    for (int y = 0; y < NY; ++y)
                        for (int x = 0; x < NX; ++x)
                            all.push_back(has(t, l, e) && y * NX + x != holeOf(t, l, e) ? val(p, t, l, e, x, y) : FILL);
        auto cmp = [&](DataPtr d, const VD& w, const string& what) {
            VD g = values(d);
            VF_CHECK(g.size() == w.size(), what << ": " << g.size() << " values instead of " << w.size());
            for (size_t i = 0; i < g.size(); ++i)
                VF_CHECK(closeD(g[i], w[i], 0, 0.02), what << ": value " << i << " is " << g[i] << ", encoded " << w[i] << "; got " << str(g) << " want "
                                                           << str(w));
            ex.step();
        };
        cmp(r->getData(name), all, "all data of " + name);
        const size_t per = all.size() / tv.size();
        for (size_t t = 0; t < tv.size(); ++t)
            cmp(r->getDataSlice(name, t), VD(all.begin() + t * per, all.begin() + (t + 1) * per), name + " at time " + to_string(t));
        VF_CHECK(throws([&] { r->getDataSlice(name, tv.size()); }), "a time position behind the end is answered");
        // every start/size combination of member, level and time; for x/y the full field, a column, a row, a point
        const vector<std::array<size_t, 4>> xy{{0, 3, 0, 2}, {1, 1, 0, 2}, {0, 3, 1, 1}, {2, 1, 0, 1}};
        VS st(want.size(), 0), sz(want);
        std::function<void(size_t)> rec = [&](size_t d) {
            if (d == want.size()) {
                SliceBuilder sb(cdm, name);
                for (size_t i = 0; i < want.size(); ++i)
                    sb.setStartAndSize(shape[i], st[i], sz[i]);
                cmp(r->getDataSlice(name, sb), refSlice(all, want, st, sz), name + " slice start " + str(st) + " size " + str(sz));
                return;
            }
            for (st[d] = 0; st[d] < want[d]; ++st[d])
                for (sz[d] = 1; st[d] + sz[d] <= want[d]; ++sz[d])
                    rec(d + 1);
        };
        const bool fullSet = c.present == (1ul << (c.T * c.L * c.E)) - 1;
        for (auto& q : xy) {
            if (!ex.thorough() && !fullSet && q[1] != 3)
                continue;
            if (!ex.thorough() && (fullSet ? c.T * c.L * c.E > 8 : true) && q[1] == 3 && q[3] == 1)
                continue;
            st[0] = q[0];
            sz[0] = q[1];
            st[1] = q[2];
            sz[1] = q[3];
            rec(2);
        }
    };
    if (!ms.empty())
        checkVar("T", 0, lv, c.E, [&](int t, int l, int e) { return c.present >> ((t * c.L + l) * c.E + e) & 1; });
    if (c.second)
        checkVar("U", 1, {1, 2}, 1, [](int t, int l, int) { return t == 0 && l >= 1; });
    std::ostringstream o;
    for (auto& d : cdm.getDimensions())
        o << d.getName() << "=" << d.getLength() << ";";
    ex.state(o.str() + to_string(c.present));
}

void layouts(vf::Explorer& ex)
{
    ex.space("messages in every order and presence pattern, all slices");
    for (int ed : {1, 2})
        for (int T = 1; T <= 3; ++T)
            for (int Lv = 1; Lv <= 3; ++Lv)
                for (int E : {1, 2}) {
                    const int n = T * Lv * E;
                    const unsigned long full = (1ul << n) - 1;
                    vector<unsigned long> pres;
                    if (n <= ex.bound(4, 6)) {
                        for (unsigned long p = 1; p <= full; ++p)
                            pres.push_back(p);
                    } else {
                        pres.push_back(full);
                        for (int i = 0; i < n; ++i) {
                            pres.push_back(full & ~(1ul << i));
                            pres.push_back(1ul << i);
                        }
                    }
                    for (unsigned long p : pres)
                        for (int order : {0, 1, 2})
                            for (int files : {1, 2})
                                for (int second : {0, 1}) {
                                    if (ed == 1 && E > 1 && (files > 1 || second))
                                        continue; // with members from file names every message belongs to a member
                                    // quick: combinations of non-default settings only for complete datasets
                                    if (!ex.thorough() && p != full && (order > 0) + (files > 1) + second > 1)
                                        continue;
                                    if (!ex.thorough() && n > 6 && p != full && ((p & (p - 1)) == 0 || order || files > 1 || second))
                                        continue;
                                    if (!ex.thorough() && n > 8 && p == full && order + (files > 1) + second > 1)
                                        continue;
                                    Layout c{ed, T, Lv, E, p, order, files, bool(second)};
                                    ex.run([=] { return c.str(); }, [=, &ex] { layoutCase(ex, c); });
                                }
                }
}

// ---------------------------------------------------------------- positions
struct Geo
{
    string name;
    int ed;
    Keys keys;
    int nx, ny;
    double tol; // degrees
    // metric grids: projection and position of the first point; empty: the codec library is the oracle
    string proj4;
    double lon1 = 0, lat1 = 0, dx = 0, dy = 0;
    bool codec = true;
};

vector<gm::Pt> metricPoints(const Geo& g)
{
    PJ* p = proj_create(PJ_DEFAULT_CTX, g.proj4.c_str());
    VF_CHECK(p, "HARNESS: libproj rejects " << g.proj4);
    PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(g.lon1 * M_PI / 180, g.lat1 * M_PI / 180, 0, 0));
    const double x0 = c.xy.x, y0 = c.xy.y;
    vector<gm::Pt> out;
    for (int y = 0; y < g.ny; ++y)
        for (int x = 0; x < g.nx; ++x) {
            PJ_COORD q = proj_trans(p, PJ_INV, proj_coord(x0 + x * g.dx, y0 + y * g.dy, 0, 0));
            out.push_back(gm::Pt{q.lp.phi * 180 / M_PI, q.lp.lam * 180 / M_PI, double(y * g.nx + x + 1)});
        }
    proj_destroy(p);
    return out;
}

void geoCase(vf::Explorer& ex, const Geo& g)
{
    vector<double> v;
    for (int i = 0; i < g.nx * g.ny; ++i)
        v.push_back(i + 1);
    string m = gm::message(g.ed, g.keys + param(g.ed, 0) + height(g.ed, 2) + when(g.ed, T0DATE, 0, 1, 0), v);
    vector<gm::Pt> want;
    if (g.proj4.empty()) {
        want = gm::points(gm::decode(m).at(0));
    } else {
        want = metricPoints(g);
        if (g.codec) { // the codec library agrees on where the points are
            for (auto& p : gm::points(gm::decode(m).at(0))) {
                const gm::Pt& q = want.at(std::lround(p.val) - 1);
                VF_CHECK(std::fabs(p.lat - q.lat) < g.tol && gm::dlon(p.lon, q.lon) * std::cos(q.lat * M_PI / 180) < g.tol,
                         "HARNESS: oracles disagree at " << p.val << ": " << p.lon << " " << p.lat << " / " << q.lon << " " << q.lat);
            }
        }
    }
    string fn = ex.scratch() + "/geo.grb";
    gm::write(fn, m);
    CDMReader_p r = open(fn, config());
    const CDM& cdm = r->getCDM();
    VD got = values(r->getData("T"));
    VF_CHECK(got.size() == v.size(), "number of values");
    VD lon = values(r->getScaledData("longitude")), lat = values(r->getScaledData("latitude"));
    const bool proj = lon.size() == v.size();
    VF_CHECK(proj ? lat.size() == v.size() : lon.size() == size_t(g.nx) && lat.size() == size_t(g.ny), "sizes of longitude, latitude");
    auto shape = cdm.getVariable("T").getShape();
    VF_CHECK(cdm.getDimension(shape[0]).getLength() == size_t(g.nx) && cdm.getDimension(shape[1]).getLength() == size_t(g.ny), "shape");
    std::map<int, gm::Pt> at;
    for (auto& p : want)
        at[int(std::lround(p.val))] = p;
    for (int y = 0; y < g.ny; ++y)
        for (int x = 0; x < g.nx; ++x) {
            const int k = y * g.nx + x;
            const double la = proj ? lat[k] : lat[y], lo = proj ? lon[k] : lon[x];
            const gm::Pt& p = at[int(std::lround(got[k]))];
            const double f = std::max(0.05, std::cos(p.lat * M_PI / 180));
            VF_CHECK(std::fabs(la - p.lat) <= g.tol && gm::dlon(lo, p.lon) * f <= g.tol,
                     "the value at (" << x << "," << y << ") is located at lon " << lo << " lat " << la << ", in the message at lon " << p.lon << " lat " << p.lat);
            ex.step();
        }
    // the projection attributes describe the same positions: regenerate them from the axes
    Projection_cp pr = cdm.getProjectionOf("T");
    VF_CHECK(pr, "no projection");
    VD px = values(r->getScaledDataInUnit(shape[0], proj && !pr->isDegree() ? "m" : "degree")),
       py = values(r->getScaledDataInUnit(shape[1], proj && !pr->isDegree() ? "m" : "degree"));
    VD X, Y;
    for (int y = 0; y < g.ny; ++y)
        for (int x = 0; x < g.nx; ++x) {
            X.push_back(px[x]);
            Y.push_back(py[y]);
        }
    pr->convertToLonLat(X, Y);
    for (size_t k = 0; k < X.size(); ++k) {
        const double la = proj ? lat[k] : lat[k / g.nx], lo = proj ? lon[k] : lon[k % g.nx];
        const double f = std::max(0.05, std::cos(la * M_PI / 180));
        VF_CHECK(std::fabs(Y[k] - la) <= g.tol && gm::dlon(X[k], lo) * f <= g.tol,
                 "grid mapping places point " << k << " at lon " << X[k] << " lat " << Y[k] << ", coordinates say " << lo << " " << la);
    }
    ex.state(g.name + pr->getProj4String());
}

void geometry(vf::Explorer& ex)
{
    ex.space("positions of all grid types, scan directions and parameters");
    const int nx = 4, ny = 3;
    auto add = [&](const string& name, int ed, const Keys& k, double tol) {
        Geo g{name, ed, k, nx, ny, tol};
        ex.run([=] { return "GRIB" + to_string(ed) + " " + name; }, [=, &ex] { geoCase(ex, g); });
    };
    for (int ed : {1, 2}) {
        const double tol = ed == 1 ? 2e-3 : 1e-4;
        // longitude-latitude
        for (double lon0 : {0., 5.5, 170., 179., 355., -30.})
            for (double lat0 : {-89., -1., 50.25, 80.})
                for (double dx : {1., 0.25, -1., 5., 30.})
                    for (double dy : {1., -1., 0.125, -0.5}) {
                        std::ostringstream o;
                        o << "regular_ll start " << lon0 << "," << lat0 << " step " << dx << "," << dy;
                        if (std::fabs(lat0 + (ny - 1) * dy) > 90)
                            continue;
                        add(o.str(), ed, llGrid(nx, ny, lon0, lat0, dx, dy), tol);
                    }
        for (double slat : {-25., -39.25, -90., -60.})
            for (double slon : {0., 40., 320., 181.5})
                for (double lon0 : {-10., 350., 0., 20.})
                    for (double dx : {1., 0.5, -1.})
                        for (double dy : {1., -1., 0.25}) {
                            std::ostringstream o;
                            o << "rotated_ll south pole " << slon << "," << slat << " start " << lon0 << " step " << dx << "," << dy;
                            Keys k = llGrid(nx, ny, lon0, -5, dx, dy);
                            k[0] = S("gridType", "rotated_ll");
                            k = k + Keys{D("latitudeOfSouthernPoleInDegrees", slat), D("longitudeOfSouthernPoleInDegrees", slon), D("angleOfRotationInDegrees", 0)};
                            add(o.str(), ed, k, tol * 2);
                            if (dx > 0 && lon0 != -10) {
                                k = k + Keys{L("ijDirectionIncrementGiven", 0)};
                                add(o.str() + ", increments not given", ed, k, tol * 2);
                            }
                        }
        // metric grids
        auto metric = [&](const string& type, double lon1, double lat1, double dx, double dy) {
            return Keys{S("gridType", type), L("Nx", nx), L("Ny", ny), D("latitudeOfFirstGridPointInDegrees", lat1),
                        D("longitudeOfFirstGridPointInDegrees", lon1 < 0 ? lon1 + 360 : lon1), D("DxInMetres", std::fabs(dx)), D("DyInMetres", std::fabs(dy)),
                        L("iScansNegatively", dx < 0), L("jScansPositively", dy > 0)};
        };
        auto addm = [&](const string& name, const Keys& k, const string& proj4, double lon1, double lat1, double dx, double dy, bool codec = true) {
            Geo g{name, ed, k, nx, ny, ed == 1 ? 3e-3 : 5e-4, proj4, lon1, lat1, dx, dy, codec && dx > 0 && dy > 0};
            ex.run([=] { return "GRIB" + to_string(ed) + " " + name; }, [=, &ex] { geoCase(ex, g); });
        };
        const string earth = ed == 1 ? " +R=6367470" : " +R=6371229";
        const Keys ek = ed == 1 ? Keys{L("earthIsOblate", 0)} : Keys{L("shapeOfTheEarth", 6)};
        for (double dx : {1000., 25000., -1000.})
            for (double dy : {1000., 10000., -10000.})
                for (double lon1 : {0., 10., 350., 185.}) {
                    std::ostringstream o;
                    o << " first point lon " << lon1 << " step " << dx << "," << dy;
                    for (double lov : {0., 15., 335.}) {
                        for (int lat : {60, 90, 75}) {
                            if (ed == 1 && lat != 60)
                                continue;
                            for (int south : {0, 1}) {
                                std::ostringstream q, p;
                                const int sg = south ? -1 : 1;
                                q << "polar_stereographic " << (south ? "south" : "north") << " lov " << lov << " lat_ts " << lat << o.str();
                                p << "+proj=stere +lat_0=" << 90 * sg << " +lon_0=" << lov << " +lat_ts=" << lat * sg << earth;
                                Keys k = ek + metric("polar_stereographic", lon1, 70 * sg, dx, dy) +
                                         Keys{D("orientationOfTheGridInDegrees", lov), L("projectionCentreFlag", south ? 128 : 0)};
                                if (ed == 2)
                                    k = k + Keys{D("LaDInDegrees", lat * sg)};
                                addm(q.str(), k, p.str(), lon1, 70 * sg, dx, dy, !south);
                            }
                        }
                        for (auto& l12 : vector<std::pair<double, double>>{{60, 60}, {63.3, 63.3}, {30, 60}, {50.5, 50.5}, {-40, -40}}) {
                            if (gm::dlon(lon1, lov) > 90)
                                continue;
                            std::ostringstream q, p;
                            const double lat1 = l12.first < 0 ? -45 : 55;
                            q << "lambert lov " << lov << " parallels " << l12.first << "," << l12.second << o.str();
                            p << "+proj=lcc +lat_0=" << l12.first << " +lon_0=" << lov << " +lat_1=" << l12.first << " +lat_2=" << l12.second << earth;
                            Keys k = ek + metric("lambert", lon1, lat1, dx, dy) +
                                     Keys{D("LoVInDegrees", lov), D("Latin1InDegrees", l12.first), D("Latin2InDegrees", l12.second)};
                            if (ed == 2)
                                k = k + Keys{D("LaDInDegrees", l12.first)};
                            addm(q.str(), k, p.str(), lon1, lat1, dx, dy);
                        }
                    }
                }
        // figures of the earth; large steps, so that a different figure moves the points
        struct Fig
        {
            string name;
            Keys k;
            string p;
        };
        vector<Fig> figs;
        if (ed == 1) {
            figs = {{"sphere", {L("earthIsOblate", 0)}, "+R=6367470"}, {"IAU 1965", {L("earthIsOblate", 1)}, "+a=6378160 +b=6356775"}};
        } else {
            figs = {{"0", {L("shapeOfTheEarth", 0)}, "+R=6367470"},
                    {"2", {L("shapeOfTheEarth", 2)}, "+a=6378160 +b=6356775"},
                    {"4", {L("shapeOfTheEarth", 4)}, "+a=6378137 +b=6356752.314"},
                    {"5", {L("shapeOfTheEarth", 5)}, "+a=6378137 +b=6356752.314245"},
                    {"6", {L("shapeOfTheEarth", 6)}, "+R=6371229"},
                    {"8", {L("shapeOfTheEarth", 8)}, "+R=6371200"}};
            for (int f : {0, 1, 2}) {
                const long pow = f == 0 ? 1 : f == 1 ? 10 : 100;
                figs.push_back({"1, radius with scale factor " + to_string(f),
                                {L("shapeOfTheEarth", 1), L("scaleFactorOfRadiusOfSphericalEarth", f), L("scaledValueOfRadiusOfSphericalEarth", 6360000 * pow)},
                                "+R=6360000"});
                figs.push_back({"3, axes in km with scale factor " + to_string(f),
                                {L("shapeOfTheEarth", 3), L("scaleFactorOfEarthMajorAxis", f), L("scaledValueOfEarthMajorAxis", 6400 * pow),
                                 L("scaleFactorOfEarthMinorAxis", f), L("scaledValueOfEarthMinorAxis", 6200 * pow)},
                                "+a=6400000 +b=6200000"});
                figs.push_back({"7, axes in m with scale factor " + to_string(f),
                                {L("shapeOfTheEarth", 7), L("scaleFactorOfEarthMajorAxis", f), L("scaledValueOfEarthMajorAxis", 6400000 * pow),
                                 L("scaleFactorOfEarthMinorAxis", f), L("scaledValueOfEarthMinorAxis", 6200000 * pow)},
                                "+a=6400000 +b=6200000"});
            }
        }
        for (auto& f : figs) {
            Keys k = metric("lambert", 10, 55, 100000, 200000) + f.k + Keys{D("LoVInDegrees", 15), D("Latin1InDegrees", 60), D("Latin2InDegrees", 60)};
            addm("lambert on earth " + f.name, k + (ed == 2 ? Keys{D("LaDInDegrees", 60)} : Keys{}), "+proj=lcc +lat_0=60 +lon_0=15 +lat_1=60 +lat_2=60 " + f.p, 10,
                 55, 100000, 200000, false);
            Keys q = metric("polar_stereographic", 10, 70, 100000, 200000) + f.k + Keys{D("orientationOfTheGridInDegrees", 15), L("projectionCentreFlag", 0)};
            addm("polar_stereographic on earth " + f.name, q + (ed == 2 ? Keys{D("LaDInDegrees", 60)} : Keys{}),
                 "+proj=stere +lat_0=90 +lon_0=15 +lat_ts=60 " + f.p, 10, 70, 100000, 200000, false);
        }
    }
}

// ---------------------------------------------------------------- times
void timesCase(vf::Explorer& ex, int ed, long date, long time, int unit, long step, const string& tunit, double tfac, long long toff)
{
    static const std::map<int, long> SEC{{0, 60}, {1, 3600}, {2, 86400}, {10, 3 * 3600}, {11, 6 * 3600}, {12, 12 * 3600}, {13, 1}};
    vector<double> v{1, 2, 3, 4};
    string m = gm::message(ed, llGrid(2, 2) + param(ed, 0) + height(ed, 2) + when(ed, date, time, unit, step), v);
    string fn = ex.scratch() + "/t.grb";
    gm::write(fn, m);
    CDMReader_p r = open(fn, config(STDPAR, "all", tunit));
    const double want = epoch(date, time) + double(SEC.at(unit)) * step;
    VD got = values(r->getScaledData("time"));
    VF_CHECK(got.size() == 1, "number of times");
    VF_CHECK(std::fabs(got[0] * tfac + toff - want) < 0.5, "valid time " << got[0] * tfac + toff << " s since 1970, the message says " << want);
    VD ref = values(r->getScaledDataInUnit("forecast_reference_time", "seconds since 1970-01-01 00:00:00"));
    VF_CHECK(ref.size() == 1 && ref[0] == epoch(date, time), "reference time " << str(ref) << ", the message says " << epoch(date, time));
    ex.step(2);
    ex.state(to_string(want));
}

void times(vf::Explorer& ex)
{
    ex.space("reference times, step units and steps");
    for (int ed : {1, 2})
        for (long date : {19700101L, 19991231L, 20000229L, 20200228L, 20210228L, 20381231L})
            for (long time : {0L, 600L, 1230L, 2359L})
                for (int unit : {0, 1, 2, 10, 11, 12, 13})
                    for (long step : {0L, 1L, 3L, 24L, 200L, 255L}) {
                        if (ed == 1 && unit == 13)
                            continue; // code 254 in GRIB-1
                        for (int u = 0; u < 2; ++u) {
                            if (u && (step != 3 || date == 19700101L))
                                continue;
                            ex.run(
                                [=] {
                                    return "GRIB" + to_string(ed) + " " + to_string(date) + "T" + to_string(time) + " unit " + to_string(unit) + " step " + to_string(step) +
                                           (u ? " (hours since 1990)" : "");
                                },
                                [=, &ex] {
                                    if (u == 0)
                                        timesCase(ex, ed, date, time, unit, step, "seconds since 1970-01-01 00:00:00 +00:00", 1, 0);
                                    else
                                        timesCase(ex, ed, date, time, unit, step, "hours since 1990-01-01 00:00:00 +00:00", 3600, epoch(19900101, 0));
                                });
                        }
                    }
}

// ---------------------------------------------------------------- hybrid levels
void hybridCase(vf::Explorer& ex, int ed, int n, unsigned maskT, unsigned maskU)
{
    // half levels 0..n
    vector<double> pv;
    for (int i = 0; i <= n; ++i)
        pv.push_back(i == n ? 0 : 256. * (i + 1) * (n - i));
    for (int i = 0; i <= n; ++i)
        pv.push_back(i * i / double(n * n));
    string bytes;
    for (int p : {0, 1})
        for (int l = n; l >= 1; --l) {
            if (!((p == 0 ? maskT : maskU) >> (l - 1) & 1))
                continue;
            gm::H h = gm::sample(ed);
            gm::set(h, llGrid(2, 2) + param(ed, p) + level(ed, 109, 105, l) + when(ed, T0DATE, 0, 1, 0));
            gm::ck(grib_set_long(h.get(), "PVPresent", 1), "PVPresent");
            gm::ck(grib_set_double_array(h.get(), "pv", pv.data(), pv.size()), "pv");
            gm::ck(grib_set_long(h.get(), "bitsPerValue", 16), "bits");
            vector<double> v{p * 100. + l, p * 100. + l + 10, p * 100. + l + 20, p * 100. + l + 30};
            gm::ck(grib_set_double_array(h.get(), "values", v.data(), 4), "values");
            const void* b;
            size_t sz;
            gm::ck(grib_get_message(h.get(), &b, &sz), "message");
            bytes += string(static_cast<const char*>(b), sz);
        }
    string fn = ex.scratch() + "/hyb.grb";
    gm::write(fn, bytes);
    CDMReader_p r = open(fn, config());
    const CDM& cdm = r->getCDM();
    for (int p : {0, 1}) {
        const unsigned mask = p == 0 ? maskT : maskU;
        if (!mask)
            continue;
        const string v = p == 0 ? "T" : "U";
        const string ld = cdm.getVariable(v).getShape().at(2);
        const string ft = cdm.getAttribute(ld, "formula_terms").getStringValue();
        auto term = [&](const string& t) {
            size_t i = (" " + ft).find(" " + t + ": ");
            VF_CHECK(i != string::npos, "formula_terms without " << t << ": " << ft);
            string q = ft.substr(i + t.size() + 2);
            return q.substr(0, q.find(' '));
        };
        VD ap, b, k, w;
        for (int l = 1; l <= n; ++l)
            if (mask >> (l - 1) & 1) {
                ap.push_back((pv[l - 1] + pv[l]) / 2);
                b.push_back((pv[n + l] + pv[n + 1 + l]) / 2);
                k.push_back(ap.back() / 100000 + b.back());
                for (int i = 0; i < 4; ++i)
                    w.push_back(p * 100 + l + 10 * i);
            }
        expectClose(r->getScaledData(term("ap")), ap, v + ": ap", 1e-4, 1e-4);
        expectClose(r->getScaledData(term("b")), b, v + ": b", 1e-4, 1e-5);
        expectClose(r->getScaledData(term("p0")), VD{100000}, v + ": p0");
        expectClose(r->getScaledData(ld), k, v + ": level values", 1e-4, 1e-5);
        expectClose(r->getScaledData(v), w, v + ": values", 0, 0.01);
        ex.step(5);
        ex.state(ft);
    }
}

void hybrid(vf::Explorer& ex)
{
    ex.space("hybrid levels: coefficients of all level subsets");
    for (int ed : {1, 2})
        for (int n = 1; n <= ex.bound(3, 4); ++n)
            for (unsigned a = 0; a < (1u << n); ++a)
                for (unsigned b = 0; b < (1u << n); ++b) {
                    if (!a && !b)
                        continue;
                    ex.run([=] { return "GRIB" + to_string(ed) + " hybrid, " + to_string(n) + " levels, T on " + to_string(a) + ", U on " + to_string(b); },
                           [=, &ex] { hybridCase(ex, ed, n, a, b); });
                }
}

// ---------------------------------------------------------------- selection by the configuration
struct Rule
{
    string attrs;                             // attributes / sub-elements of <grib1>/<grib2>
    string extra;
    std::function<bool(int lt, long lv, long step)> match;
    string name;
};

void selectCase(vf::Explorer& ex, int ed, const Rule& a, const Rule& b, const string& select)
{
    struct M
    {
        int lt;
        long lv, step;
        double v;
        string id; // what tells undefined parameters apart: the codec library's short name and the type of level
    };
    // level types 105/103 (height) and 103/102 (above sea level)
    vector<M> ms;
    string bytes;
    double v = 10;
    for (int lt : {0, 1})
        for (long lv : {2L, 10L})
            for (long step : {0L, 6L}) {
                Keys k = llGrid(2, 2) + param(ed, 0) + level(ed, lt ? 103 : 105, lt ? 102 : 103, lv) + when(ed, T0DATE, 0, 1, step);
                const string mb = gm::message(ed, k, {v, v + 1, v + 2, v + 3});
                ms.push_back(M{lt, lv, step, v, gm::getS(gm::decode(mb)[0], "shortName") + to_string(lt)});
                bytes += mb;
                v += 10;
            }
    string fn = ex.scratch() + "/sel.grb";
    gm::write(fn, bytes);
    auto par = [&](const string& name, const Rule& r) {
        string id = ed == 1 ? "<grib1 indicatorOfParameter=\"11\" " : "<grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\" ";
        return "<parameter name=\"" + name + "\" type=\"float\"><attribute name=\"_FillValue\" value=\"-32767\" type=\"float\" />" + id + r.attrs + ">" + r.extra +
               (ed == 1 ? "</grib1>" : "</grib2>") + "</parameter>";
    };
    // which variable gets which message
    std::map<string, vector<M>> want;
    bool mixed = false;
    for (auto& m : ms) {
        string n = a.match(m.lt, m.lv, m.step) ? "A" : b.match(m.lt, m.lv, m.step) ? "B" : "rest";
        if (n == "rest" && select == "definedOnly")
            continue;
        if (n != "rest" && !want[n].empty() && want[n][0].lt != m.lt)
            mixed = true; // one variable on two vertical coordinates
        want[n].push_back(m);
    }
    CDMReader_p r;
    string cfg = config(par("A", a) + par("B", b), select);
    if (mixed) {
        VF_CHECK(throws([&] { r = open(fn, cfg); }), "one variable with two kinds of levels is accepted");
        return;
    }
    r = open(fn, cfg);
    const CDM& cdm = r->getCDM();
    std::set<string> restIds;
    for (auto& m : ms)
        if (!a.match(m.lt, m.lv, m.step) && !b.match(m.lt, m.lv, m.step) && select != "definedOnly")
            restIds.insert(m.id);
    const size_t restTypes = restIds.size();
    size_t undef = 0;
    for (auto& var : cdm.getVariables())
        undef += var.getName().compare(0, 3, "ga_") == 0;
    VF_CHECK(undef == restTypes, undef << " variables for messages without definition, expected " << restTypes);
    std::set<long> steps;
    for (auto& w : want)
        for (auto& m : w.second)
            steps.insert(m.step);
    VD times;
    for (long s : steps)
        times.push_back(epoch(T0DATE, 0) + s * 3600);
    expectValues(r->getScaledData("time"), times, "times of the selected messages");
    for (const char* n : {"A", "B"}) {
        VF_CHECK(cdm.hasVariable(n) == (want.count(n) > 0), "variable " << n << (cdm.hasVariable(n) ? " exists without" : " is missing in spite of") << " messages");
        if (!want.count(n))
            continue;
        std::set<long> lvs;
        for (auto& m : want[n])
            lvs.insert(m.lv);
        VD w;
        for (long s : steps)
            for (long l : lvs) {
                double v0 = FILL;
                for (auto& m : want[n])
                    if (m.step == s && m.lv == l)
                        v0 = m.v;
                for (int i = 0; i < 4; ++i)
                    w.push_back(v0 == FILL ? FILL : v0 + i);
            }
        expectClose(r->getData(n), w, string("data of ") + n, 0, 0.01);
        ex.step();
    }
    ex.state(a.name + b.name + select + to_string(ed));
}

void selection(vf::Explorer& ex)
{
    ex.space("assignment of messages to variables by the configuration");
    for (int ed : {1, 2}) {
        const string h = ed == 1 ? "105" : "103", s = ed == 1 ? "103" : "102", tv = ed == 1 ? "gribTablesVersionNo" : "parameterCategory", ok = ed == 1 ? "1" : "0";
        const string stepKey = ed == 1 ? "P1" : "forecastTime";
        vector<Rule> rules{{"", "", [](int, long, long) { return true; }, "any"},
                           {"typeOfLevel=\"" + h + "\"", "", [](int t, long, long) { return t == 0; }, "height"},
                           {"typeOfLevel=\"" + s + "\"", "", [](int t, long, long) { return t == 1; }, "altitude"},
                           {"levelNo=\"2\"", "", [](int, long l, long) { return l == 2; }, "level 2"},
                           {"levelNo=\"10,20\"", "", [](int, long l, long) { return l == 10; }, "level 10,20"},
                           {"levelNo=\"1,2,...,5\"", "", [](int, long l, long) { return l == 2; }, "level 1..5"},
                           {"typeOfLevel=\"" + h + "\" levelNo=\"10\"", "", [](int t, long l, long) { return t == 0 && l == 10; }, "height 10"},
                           {"typeOfLevel=\"" + s + "\" levelNo=\"2\"", "", [](int t, long l, long) { return t == 1 && l == 2; }, "altitude 2"},
                           {"typeOfLevel=\"" + s + "," + h + "\" levelNo=\"3\"", "", [](int, long, long) { return false; }, "level 3"},
                           {"typeOfLevel=\"" + h + "\" stepType=\"accum\"", "", [](int, long, long) { return false; }, "accumulated"},
                           {"typeOfLevel=\"" + h + "\" stepType=\"instant,max\"", "", [](int t, long, long) { return t == 0; }, "instant"},
                           {"typeOfLevel=\"" + h + "\"", "<extraKey name=\"" + stepKey + "\" value=\"6\" />", [](int t, long, long st) { return t == 0 && st == 6; }, "extra 6"},
                           {"typeOfLevel=\"" + s + "\"", "<extraKey name=\"" + stepKey + "\" value=\"0\" />", [](int t, long, long st) { return t == 1 && st == 0; }, "extra 0"}};
        if (ed == 1) {
            rules.push_back({tv + "=\"1,3\" typeOfLevel=\"" + h + "\"", "", [](int t, long, long) { return t == 0; }, "table 1,3"});
            rules.push_back({tv + "=\"2\"", "", [](int, long, long) { return false; }, "table 2"});
            rules.push_back({"identificationOfOriginatingGeneratingCentre=\"88\" typeOfLevel=\"" + h + "\"", "", [](int t, long, long) { return t == 0; }, "centre 88"});
            rules.push_back({"identificationOfOriginatingGeneratingCentre=\"98\"", "", [](int, long, long) { return false; }, "centre 98"});
        }
        for (auto& a : rules)
            for (auto& b : rules)
                for (const char* sel : {"all", "definedOnly"}) {
                    string se = sel;
                    ex.run([=] { return "GRIB" + to_string(ed) + " A: " + a.name + ", B: " + b.name + ", select " + se; }, [=, &ex] { selectCase(ex, ed, a, b, se); });
                }
    }
}

// ---------------------------------------------------------------- packing in the configuration
void precisionCase(vf::Explorer& ex, int ed, const string& type, double scale, double offset, bool fillAtt, int hole)
{
    vector<double> v{-10, -0.25, 0, 3.7, 12.5, 250};
    if (hole >= 0)
        v[hole] = gm::MISSING;
    string fn = ex.scratch() + "/prec.grb";
    gm::write(fn, gm::message(ed, llGrid(3, 2) + param(ed, 0) + height(ed, 2) + when(ed, T0DATE, 0, 1, 0), v));
    std::ostringstream p;
    p << "<parameter name=\"T\" type=\"" << type << "\">";
    if (scale != 0) {
        p << "<precision scale_factor=\"" << scale << "\"";
        if (offset != 0)
            p << " add_offset=\"" << offset << "\"";
        p << "/>";
    }
    if (fillAtt)
        p << "<attribute name=\"_FillValue\" value=\"-32000\" type=\"" << type << "\" />";
    p << "<grib1 indicatorOfParameter=\"11\" /><grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\" /></parameter>";
    CDMReader_p r = open(fn, config(p.str()));
    VD g = values(r->getScaledDataSlice("T", 0));
    VF_CHECK(g.size() == 6, "number of values");
    const double fv = r->getCDM().getFillValue("T");
    VD raw = values(r->getDataSlice("T", 0));
    for (int i = 0; i < 6; ++i) {
        if (i == hole)
            VF_CHECK(std::isnan(g[i]) && raw[i] == fv, "missing value " << i << " is presented as " << g[i] << " (raw " << raw[i] << ", fill " << fv << ")");
        else
            VF_CHECK(std::fabs(g[i] - v[i]) <= (scale != 0 ? scale * 0.5001 : 0) + 0.01, "value " << i << " is " << g[i] << ", encoded " << v[i] << " " << str(g));
    }
    ex.step(2);
    ex.state(str(g));
}

void precision(vf::Explorer& ex)
{
    ex.space("packing precision and missing values");
    for (int ed : {1, 2})
        for (const char* type : {"short", "int", "float", "double"})
            for (double scale : {0., 0.1, 1., 0.5, 10.})
                for (double offset : {0., 100.})
                    for (int fillAtt : {0, 1})
                        for (int hole = -1; hole < 6; ++hole) {
                            string t = type;
                            if (scale == 0 && (offset != 0 || t == "short" || t == "int"))
                                continue; // without precision the values are delivered as decoded
                            if (!fillAtt && t == "double" && scale == 0 && false)
                                continue;
                            ex.run(
                                [=] {
                                    std::ostringstream o;
                                    o << "GRIB" << ed << " " << t << " scale " << scale << " offset " << offset << (fillAtt ? " with" : " without") << " _FillValue, missing at " << hole;
                                    return o.str();
                                },
                                [=, &ex] { precisionCase(ex, ed, t, scale, offset, fillAtt, hole); });
                        }
}

// ---------------------------------------------------------------- wind components
void vectorCase(vf::Explorer& ex, int ed, int which)
{
    string fn = ex.scratch() + "/vec.grb";
    gm::write(fn, gm::message(ed, llGrid(2, 2) + param(ed, 0) + height(ed, 2) + when(ed, T0DATE, 0, 1, 0), {1, 2, 3, 4}) +
                      gm::message(ed, llGrid(2, 2) + param(ed, 1) + height(ed, 2) + when(ed, T0DATE, 0, 1, 0), {5, 6, 7, 8}));
    string p = STDPAR;
    if (which) {
        const char* d0 = which == 1 ? "x" : "y";
        const char* d1 = which == 1 ? "y" : "x";
        auto ins = [&](const string& name, const string& el) {
            size_t i = p.find('>', p.find("<parameter name=\"" + name + "\""));
            p.insert(i + 1, el);
        };
        ins("T", string("<spatial_vector direction=\"") + d0 + "\" counterpart=\"U\" />");
        ins("U", string("<spatial_vector direction=\"") + d1 + "\" counterpart=\"T\" />");
    }
    CDMReader_p r = open(fn, config(p));
    const CDMVariable &t = r->getCDM().getVariable("T"), &u = r->getCDM().getVariable("U");
    VF_CHECK(t.isSpatialVector() == (which > 0) && u.isSpatialVector() == (which > 0), "vector components: T " << t.isSpatialVector() << ", U " << u.isSpatialVector());
    if (which) {
        VF_CHECK(t.getSpatialVectorCounterpart() == "U" && u.getSpatialVectorCounterpart() == "T", "counterparts");
        VF_CHECK(t.isSpatialVector() && t.getSpatialVectorDirection() == (which == 1 ? CDMVariable::SPATIAL_VECTOR_X : CDMVariable::SPATIAL_VECTOR_Y), "direction of T");
        VF_CHECK(u.getSpatialVectorDirection() == (which == 1 ? CDMVariable::SPATIAL_VECTOR_Y : CDMVariable::SPATIAL_VECTOR_X), "direction of U");
    }
    ex.step();
}

// ---------------------------------------------------------------- incomplete files
void truncatedCase(vf::Explorer& ex, int ed, size_t cut, const string& tail)
{
    string m0 = msgOf(ed, 0, 0, 0, 0, 1), m1 = msgOf(ed, 0, 1, 0, 0, 1);
    string bytes = (m0 + m1).substr(0, cut) + tail;
    const int complete = cut >= m0.size() + m1.size() ? 2 : cut >= m0.size() ? 1 : 0;
    string fn = ex.scratch() + "/cut.grb";
    gm::write(fn, bytes);
    CDMReader_p r;
    string err;
    if (throws([&] { r = open(fn, config()); }, &err)) {
        VF_CHECK(cut != m0.size() + m1.size() || !tail.empty(), "a complete file is rejected: " << err);
        ex.state("rejected");
        return;
    }
    const CDM& cdm = r->getCDM();
    if (!cdm.hasVariable("T")) {
        VF_CHECK(complete == 0, "messages of the file are not presented");
        ex.state("empty");
        return;
    }
    VD tm = values(r->getScaledData("time"));
    VF_CHECK(tm.size() == size_t(complete), tm.size() << " times presented, " << complete << " messages complete");
    for (size_t t = 0; t < tm.size(); ++t) {
        VD g = values(r->getDataSlice("T", t));
        for (int y = 0; y < NY; ++y)
            for (int x = 0; x < NX; ++x)
                VF_CHECK(closeD(g.at(y * NX + x), y * NX + x == holeOf(t, 0, 0) ? FILL : val(0, t, 0, 0, x, y), 0, 0.02), "value of time " << t << ": " << str(g));
    }
    ex.state(to_string(complete));
    ex.step();
}

void truncated(vf::Explorer& ex)
{
    ex.space("files cut at every byte, files with trailing bytes");
    for (int ed : {1, 2}) {
        const size_t n = msgOf(ed, 0, 0, 0, 0, 1).size() + msgOf(ed, 0, 1, 0, 0, 1).size();
        for (size_t c = 1; c <= n; ++c)
            ex.run([=] { return "GRIB" + to_string(ed) + " file of " + to_string(n) + " bytes cut to " + to_string(c); }, [=, &ex] { truncatedCase(ex, ed, c, ""); });
        for (const string& tail : {string(1, '\0'), string(7, '\0'), string(16, '\0'), string(40, '\0'), string("7777"), string("GRIB"), string("GRIB\0\0\0\1\0\0\0\0\0\0\0\0", 16),
                                   string("GRIB\0\0\0\2\0\0\0\0\0\0\0\0", 16), string("GRIB\0\0\0\3\0\0\0\0\0\0\0\0", 16), string("no grib message here\n")})
            ex.run([=] { return "GRIB" + to_string(ed) + " file followed by " + to_string(tail.size()) + " bytes '" + tail.substr(0, 4).c_str() + "'"; },
                   [=, &ex] { truncatedCase(ex, ed, n, tail); });
    }
}

// ---------------------------------------------------------------- index files
string dump(CDMReader_p r)
{
    std::ostringstream o;
    o.precision(12);
    const CDM& c = r->getCDM();
    for (auto& d : c.getDimensions())
        o << d.getName() << "=" << d.getLength() << (d.isUnlimited() ? "*" : "") << "\n";
    for (auto& v : c.getVariables()) {
        o << v.getName() << " " << v.getDataType() << " (";
        for (auto& s : v.getShape())
            o << s << " ";
        o << ")";
        for (auto& a : c.getAttributes(v.getName()))
            o << " " << a.getName() << "=" << a.getStringValue();
        if (v.getDataType() != CDM_NAT)
            for (double x : values(r->getData(v.getName())))
                o << " " << float(x);
        o << "\n";
    }
    return o.str();
}

void indexCase(vf::Explorer& ex, int ed, const Keys& grid, int n, int T, int Lv, int E, bool append)
{
    auto f = [&](int t0, int t1) {
        string b;
        for (int t = t0; t < t1; ++t)
            for (int l = 0; l < Lv; ++l)
                for (int e = 0; e < E; ++e) {
                    Keys k = grid + param(ed, 0) + height(ed, LEVELS[l]);
                    if (E > 1)
                        k = Keys{gm::L("productDefinitionTemplateNumber", 1)} + k + Keys{gm::L("numberOfForecastsInEnsemble", E), gm::L("perturbationNumber", e)};
                    k = k + when(ed, T0DATE, 1200, 1, 6 * t);
                    vector<double> v;
                    for (int i = 0; i < n; ++i)
                        v.push_back(val(0, t, l, e, i, 0));
                    b += gm::message(ed, k, v);
                }
        return b;
    };
    string fa = ex.scratch() + "/a&<1>.grb", fb = ex.scratch() + "/b.grb", idx = ex.scratch() + "/i.grbml";
    const int split = append ? T - 1 : T;
    gm::write(fa, f(0, split));
    if (append)
        gm::write(fb, f(split, T));
    auto ca = createDefaultChunkReaderFactory();
    const vector<std::pair<string, std::regex>> members;
    const std::map<string, string> options;
    std::ostringstream o;
    o << GribFileIndex(ca, fa, "", members, options);
    gm::write(idx, o.str());
    if (append) {
        std::ostringstream o2;
        o2 << GribFileIndex(ca, fb, idx, members, options);
        gm::write(idx, o2.str());
    }
    CDMReader_p direct = open(append ? "many:," + fa + "," + fb : fa, config());
    CDMReader_p indexed = open(idx, config(), {}, "grbml");
    string a = dump(direct), b = dump(indexed);
    VF_CHECK(a == b, "read through the index:\n" << b << "read directly:\n" << a);
    ex.step(2);
    ex.state(a);
}

void indexes(vf::Explorer& ex)
{
    ex.space("index files present the same dataset");
    const int nx = 3, ny = 2;
    for (int ed : {1, 2}) {
        vector<std::pair<string, Keys>> grids{{"regular_ll", llGrid(nx, ny)}, {"regular_ll, descending", llGrid(nx, ny, 350, 50.125, 0.3, -0.7)}};
        Keys rot = llGrid(nx, ny, 355, -5, 0.2, 0.1);
        rot[0] = S("gridType", "rotated_ll");
        grids.push_back({"rotated_ll", rot + Keys{D("latitudeOfSouthernPoleInDegrees", -25.5), D("longitudeOfSouthernPoleInDegrees", 320.25)}});
        auto metric = [&](const string& type, bool neg) {
            return Keys{S("gridType", type), L("Nx", nx), L("Ny", ny), D("latitudeOfFirstGridPointInDegrees", 55.123), D("longitudeOfFirstGridPointInDegrees", 351.321),
                        D("DxInMetres", 12345), D("DyInMetres", 2500), L("iScansNegatively", 0), L("jScansPositively", neg ? 0 : 1)};
        };
        for (bool neg : {false, true}) {
            grids.push_back({string("polar_stereographic") + (neg ? " -y" : ""), metric("polar_stereographic", neg) + Keys{D("orientationOfTheGridInDegrees", 15)}});
            grids.push_back({string("lambert") + (neg ? " -y" : ""), metric("lambert", neg) + Keys{D("LoVInDegrees", 15), D("Latin1InDegrees", 63.3), D("Latin2InDegrees", 63.3)}});
        }
        for (auto& g : grids)
            for (int T : {1, 2})
                for (int Lv : {1, 2})
                    for (int E : {1, 2})
                        for (int app : {0, 1}) {
                            if ((E > 1 && ed == 1) || (app && T < 2))
                                continue;
                            ex.run([=] { return "GRIB" + to_string(ed) + " " + g.first + " " + to_string(T) + "x" + to_string(Lv) + "x" + to_string(E) + (app ? ", appended index" : ""); },
                                   [=, &ex] { indexCase(ex, ed, g.second, nx * ny, T, Lv, E, app); });
                        }
    }
}

} // namespace

void vf::explore(Explorer& ex)
{
    indexes(ex);
    times(ex);
    hybrid(ex);
    selection(ex);
    precision(ex);
    ex.space("vector components");
    for (int ed : {1, 2})
        for (int w : {0, 1, 2})
            ex.run([=] { return "GRIB" + to_string(ed) + " vector " + to_string(w); }, [=, &ex] { vectorCase(ex, ed, w); });
    truncated(ex);
    geometry(ex);
    layouts(ex);
}
