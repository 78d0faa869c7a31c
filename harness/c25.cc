// C25: what a GRIB file written by fimex says is what the dataset says.
// The files are decoded with the codec library alone (positions of metric grids with libproj).
#include "fx.h"
#include "gribmsg.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/XMLInputString.h"

#include <proj.h>
#include <sys/stat.h>

#include <algorithm>
#include <set>

using namespace fx;
using std::to_string;

namespace {

const double FILL = -9999;

struct Grid
{
    string name;
    string type; // ll, llmap (with grid mapping), rot, stere, lcc, other
    VD x, y;     // axis values in degree or m
    vector<std::pair<string, VD>> par;
    string mapping;
    string proj4; // of the dataset, for metric and rotated grids
    string unit = "m";
    CDMDataType axisType = CDM_DOUBLE;
};

struct Pos
{
    double lon, lat;
};

vector<Pos> positions(const Grid& g)
{
    vector<Pos> out;
    PJ* p = 0;
    if (!g.proj4.empty()) {
        p = proj_create(PJ_DEFAULT_CTX, g.proj4.c_str());
        VF_CHECK(p, "HARNESS: libproj rejects " << g.proj4);
    }
    for (double y : g.y)
        for (double x : g.x) {
            if (!p) {
                out.push_back(Pos{x, y});
            } else if (g.type == "rot") {
                PJ_COORD q = proj_trans(p, PJ_INV, proj_coord(x * M_PI / 180, y * M_PI / 180, 0, 0));
                out.push_back(Pos{q.lp.lam * 180 / M_PI, q.lp.phi * 180 / M_PI});
            } else {
                PJ_COORD q = proj_trans(p, PJ_INV, proj_coord(x, y, 0, 0));
                out.push_back(Pos{q.lp.lam * 180 / M_PI, q.lp.phi * 180 / M_PI});
            }
        }
    if (p)
        proj_destroy(p);
    return out;
}

/// positions of the values of a message, in the order of the values
vector<Pos> positions(gm::H h)
{
    const string t = gm::getS(h, "gridType");
    vector<Pos> out;
    if (t == "regular_ll" || t == "rotated_ll") {
        for (auto& p : gm::points(h))
            out.push_back(Pos{p.lon, p.lat});
        return out;
    }
    const int ed = gm::getL(h, "edition");
    VF_CHECK(gm::getL(h, "jPointsAreConsecutive") == 0 && gm::getL(h, "alternativeRowScanning") == 0, "unexpected scanning mode");
    std::ostringstream o;
    o.precision(12);
    if (t == "polar_stereographic") {
        const bool south = (gm::getL(h, "projectionCentreFlag") & 128) != 0;
        const double ts = ed == 1 ? 60 : std::fabs(gm::getD(h, "LaDInDegrees"));
        o << "+proj=stere +lat_0=" << (south ? -90 : 90) << " +lat_ts=" << (south ? -ts : ts) << " +lon_0=" << gm::getD(h, "orientationOfTheGridInDegrees");
    } else if (t == "lambert") {
        o << "+proj=lcc +lat_0=" << gm::getD(h, "Latin1InDegrees") << " +lat_1=" << gm::getD(h, "Latin1InDegrees") << " +lat_2=" << gm::getD(h, "Latin2InDegrees")
          << " +lon_0=" << gm::getD(h, "LoVInDegrees");
    } else
        VF_FAIL("unexpected grid type " << t);
    if (ed == 1)
        o << (gm::getL(h, "earthIsOblate") ? " +a=6378160 +b=6356775" : " +R=6367470");
    else {
        // the figure of the earth is the one of the sample or of the configuration
        const long shape = gm::getL(h, "shapeOfTheEarth");
        VF_CHECK(shape == 0 || shape == 6 || shape == 8, "shape of the earth " << shape);
        o << (shape == 0 ? " +R=6367470" : shape == 6 ? " +R=6371229" : " +R=6371200");
    }
    PJ* p = proj_create(PJ_DEFAULT_CTX, o.str().c_str());
    VF_CHECK(p, "the message describes no projection: " << o.str());
    PJ_COORD c = proj_trans(p, PJ_FWD, proj_coord(gm::getD(h, "longitudeOfFirstGridPointInDegrees") * M_PI / 180, gm::getD(h, "latitudeOfFirstGridPointInDegrees") * M_PI / 180, 0, 0));
    const double dx = gm::getD(h, "DxInMetres") * (gm::getL(h, "iScansNegatively") ? -1 : 1), dy = gm::getD(h, "DyInMetres") * (gm::getL(h, "jScansPositively") ? 1 : -1);
    const long nx = gm::getL(h, "Nx"), ny = gm::getL(h, "Ny");
    for (long y = 0; y < ny; ++y)
        for (long x = 0; x < nx; ++x) {
            PJ_COORD q = proj_trans(p, PJ_INV, proj_coord(c.xy.x + x * dx, c.xy.y + y * dy, 0, 0));
            out.push_back(Pos{q.lp.lam * 180 / M_PI, q.lp.phi * 180 / M_PI});
        }
    proj_destroy(p);
    return out;
}

VD valuesOf(gm::H h)
{
    gm::ck(grib_set_double(h.get(), "missingValue", 1e20), "missingValue");
    size_t n = 0;
    gm::ck(grib_get_size(h.get(), "values", &n), "size");
    VD v(n);
    gm::ck(grib_get_double_array(h.get(), "values", v.data(), &n), "values");
    return v;
}

string pdump(const Pos& p)
{
    std::ostringstream o;
    o << "lon " << p.lon << " lat " << p.lat;
    return o.str();
}

/// every expected value (1e20: missing) is at its position in the message, and nothing else
void checkField(gm::H h, const vector<Pos>& pos, const VD& vals, double tol, double vtol, const string& what)
{
    vector<Pos> mp = positions(h);
    VD mv = valuesOf(h);
    VF_CHECK(mp.size() == pos.size() && mv.size() == pos.size(), what << ": " << mv.size() << " values in the message, " << pos.size() << " in the dataset");
    for (size_t i = 0; i < pos.size(); ++i) {
        const double f = std::max(0.02, std::cos(pos[i].lat * M_PI / 180));
        size_t at = mp.size();
        for (size_t k = 0; k < mp.size(); ++k)
            if (std::fabs(mp[k].lat - pos[i].lat) <= tol && gm::dlon(mp[k].lon, pos[i].lon) * f <= tol)
                at = k;
        VF_CHECK(at < mp.size(), what << ": no value at " << pdump(pos[i]) << "; the message begins at " << pdump(mp[0]) << ", then " << pdump(mp[1]));
        VF_CHECK(closeD(mv[at], vals[i], 1e-6, vtol), what << ": at " << pdump(pos[i]) << " the message has " << mv[at] << ", the dataset " << vals[i]);
    }
}

// ---------------------------------------------------------------- dataset
void addGrid(TestReader& r, const Grid& g, vector<string>& shape, vector<std::pair<string, string>>& atts)
{
    if (g.type == "ll" || g.type == "llmap") {
        axis(r, "lon", g.x, "degrees_east", "longitude", g.axisType);
        axis(r, "lat", g.y, "degrees_north", "latitude", g.axisType);
        shape = {"lon", "lat"};
    } else {
        VD x = g.x, y = g.y;
        if (g.unit == "km") {
            for (double& v : x)
                v /= 1000;
            for (double& v : y)
                v /= 1000;
        }
        const bool rot = g.type == "rot";
        axis(r, "x", x, rot ? "degree" : g.unit, rot ? "grid_longitude" : "projection_x_coordinate", g.axisType);
        axis(r, "y", y, rot ? "degree" : g.unit, rot ? "grid_latitude" : "projection_y_coordinate", g.axisType);
        shape = {"x", "y"};
        VD lon, lat;
        for (auto& p : positions(g)) {
            lon.push_back(p.lon);
            lat.push_back(p.lat);
        }
        r.var("longitude", CDM_DOUBLE, shape, lon);
        r.att("longitude", "units", "degrees_east");
        r.att("longitude", "standard_name", "longitude");
        r.var("latitude", CDM_DOUBLE, shape, lat);
        r.att("latitude", "units", "degrees_north");
        r.att("latitude", "standard_name", "latitude");
        atts.push_back({"coordinates", "longitude latitude"});
    }
    if (g.type != "ll") {
        r.var("proj", CDM_INT, {}, {0});
        r.att("proj", "grid_mapping_name", g.mapping);
        for (auto& p : g.par)
            r.att("proj", p.first, CDM_DOUBLE, p.second);
        atts.push_back({"grid_mapping", "proj"});
    }
}

string cfg(const string& extraGlobal = "", const string& options = "", const string& parameters = "")
{
    string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><cdm_gribwriter_config>" + options + "<global_attributes>" + extraGlobal +
               "<attribute name=\"bitsPerValue\" value=\"20\" type=\"long\" /></global_attributes><axes>"
               "<vertical_axis standard_name=\"\"><grib1 id=\"105\" value=\"0\" /><grib2 id=\"103\" value=\"0\" /></vertical_axis>"
               "<vertical_axis unitCompatibleTo=\"m\"><grib1 id=\"105\" units=\"m\" /><grib2 id=\"103\" units=\"m\" /></vertical_axis>"
               "<vertical_axis unitCompatibleTo=\"Pa\"><grib1 id=\"100\" units=\"hPa\" /><grib2 id=\"100\" units=\"hPa\" /></vertical_axis>"
               "<vertical_axis standard_name=\"depth\"><grib1 id=\"160\" units=\"cm\" scale_factor=\"10\" add_offset=\"20\" /><grib2 id=\"160\" units=\"cm\" scale_factor=\"10\" add_offset=\"20\" /></vertical_axis>"
               "<vertical_axis standard_name=\"air_pressure\"><grib1 id=\"100\" units=\"hPa\" /><grib2 id=\"100\" units=\"hPa\" /></vertical_axis>"
               "<vertical_axis standard_name=\"atmosphere_hybrid_sigma_pressure_coordinate\"><grib2 id=\"105\" /></vertical_axis>"
               "<vertical_axis standard_name=\"model_level_number\"><grib1 id=\"109\" /><grib2 id=\"105\" /></vertical_axis>"
               "</axes><variables>";
    if (parameters.empty())
        s += "<parameter name=\"T\"><grib1 parameterNumber=\"11\" codeTable=\"1\" units=\"K\" /><grib2 discipline=\"0\" parameterCategory=\"0\" parameterNumber=\"0\" units=\"K\" /></parameter>"
             "<parameter standard_name=\"surface_air_pressure\"><grib1 parameterNumber=\"1\" codeTable=\"1\" units=\"Pa\" /><grib2 discipline=\"0\" parameterCategory=\"3\" parameterNumber=\"0\" units=\"Pa\" /></parameter>"
             "<parameter standard_name=\"x_wind\"><grib1 parameterNumber=\"33\" codeTable=\"1\" /><grib2 discipline=\"0\" parameterCategory=\"2\" parameterNumber=\"2\" /></parameter>";
    return s + parameters + "</variables></cdm_gribwriter_config>";
}

int paramOf(gm::H h)
{
    if (gm::getL(h, "edition") == 1)
        return gm::getL(h, "indicatorOfParameter") == 11 ? 0 : gm::getL(h, "indicatorOfParameter") == 1 ? 1 : gm::getL(h, "indicatorOfParameter") == 33 ? 2 : -1;
    const long d = gm::getL(h, "discipline"), c = gm::getL(h, "parameterCategory"), n = gm::getL(h, "parameterNumber");
    return d ? -1 : c == 0 && n == 0 ? 0 : c == 3 && n == 0 ? 1 : c == 2 && n == 2 ? 2 : -1;
}

void write(CDMReader_p r, int ed, const string& fn, const string& config)
{
    CDMFileReaderFactory::createWriter(r, "grib" + to_string(ed), fn, XMLInputString(config));
}

Grid simple()
{
    Grid g;
    g.type = "ll";
    g.x = {5, 6, 7};
    g.y = {50, 51};
    return g;
}

void timeAxis(TestReader& r, const VD& t, const string& unit, const string& refUnit, double ref)
{
    axis(r, "time", t, unit, "time", CDM_DOUBLE, true);
    if (!refUnit.empty()) {
        r.var("frt", CDM_DOUBLE, {}, {ref});
        r.att("frt", "units", refUnit);
        r.att("frt", "standard_name", "forecast_reference_time");
    }
}

// ---------------------------------------------------------------- grids
void gridCase(vf::Explorer& ex, int ed, const Grid& g, bool supported)
{
    auto r = std::make_shared<TestReader>();
    vector<string> shape;
    vector<std::pair<string, string>> atts;
    r->att("", "Conventions", "CF-1.6");
    timeAxis(*r, {0}, "hours since 2020-02-28 12:00:00", "hours since 2020-02-28 12:00:00", 0);
    addGrid(*r, g, shape, atts);
    shape.push_back("time");
    VD v;
    for (size_t i = 0; i < g.x.size() * g.y.size(); ++i)
        v.push_back(100 + i);
    r->var("T", CDM_DOUBLE, shape, v);
    r->att("T", "units", "K");
    for (auto& a : atts)
        r->att("T", a.first, a.second);
    const string fn = ex.scratch() + "/g.grb";
    string err;
    const bool failed = throws([&] { write(r, ed, fn, cfg()); }, &err);
    auto ms = failed ? vector<gm::H>() : gm::decode(gm::read(fn));
    if (!supported) {
        VF_CHECK(ms.empty(), "a grid that GRIB cannot describe is written");
        ex.state("refused");
        return;
    }
    VF_CHECK(!failed, "writing fails: " << err);
    VF_CHECK(ms.size() == 1, ms.size() << " messages instead of 1");
    const bool metric = g.type == "stere" || g.type == "lcc";
    checkField(ms[0], positions(g), v, ed == 1 ? (metric ? 4e-3 : 2e-3) : (metric ? 1e-3 : 2e-5), 0.001, "field");
    ex.step(v.size());
    ex.state(gm::getS(ms[0], "gridType") + to_string(gm::getL(ms[0], "scanningMode")) + g.name);
}

void grids(vf::Explorer& ex)
{
    ex.space("positions of all grid types, directions and parameters");
    auto ax = [](double s, double d, int n) {
        VD v;
        for (int i = 0; i < n; ++i)
            v.push_back(s + i * d);
        return v;
    };
    auto run = [&](int ed, const Grid& g, bool ok = true) {
        ex.run([=] { return "GRIB" + to_string(ed) + " " + g.name; }, [=, &ex] { gridCase(ex, ed, g, ok); });
    };
    auto N = [](double v) {
        std::ostringstream o;
        o << v;
        return o.str();
    };
    for (int ed : {1, 2}) {
        const double R = ed == 1 ? 6367470 : 6371229;
        const string rs = " +R=" + to_string(int(R));
        for (double lon0 : {0., 5.5, -30., 178., 355., -180.})
            for (double lat0 : {-60., 0., 50.25})
                for (double dx : {1., 0.25, -1., 20.})
                    for (double dy : {1., -1., 0.5, -0.125})
                        for (const char* t : {"ll", "llmap"}) {
                            if (t == string("llmap") && !(dx == 1 && lat0 == 0))
                                continue;
                            Grid g;
                            g.type = t;
                            g.mapping = "latitude_longitude";
                            g.par = {{"earth_radius", {R}}};
                            g.x = ax(lon0, dx, 4);
                            g.y = ax(lat0, dy, 3);
                            g.name = string(t) + " start " + N(lon0) + "," + N(lat0) + " step " + N(dx) + "," + N(dy);
                            run(ed, g);
                        }
        for (double nlat : {90., 65., 39.25, 22.5})
            for (double nlon : {0., 180., -140., 140.75, -179.5})
                for (double x0 : {-10., 0., 12.5, 350.})
                    for (double dx : {1., -0.5})
                        for (double dy : {1., -0.25}) {
                            Grid g;
                            g.type = "rot";
                            g.mapping = "rotated_latitude_longitude";
                            g.par = {{"grid_north_pole_latitude", {nlat}}, {"grid_north_pole_longitude", {nlon}}, {"earth_radius", {R}}};
                            g.x = ax(x0, dx, 4);
                            g.y = ax(-5, dy, 3);
                            g.proj4 = "+proj=ob_tran +o_proj=longlat +lon_0=" + N(nlon < 0 ? nlon + 180 : nlon - 180) + " +o_lat_p=" + N(nlat) + rs;
                            g.name = "rotated pole " + N(nlon) + "," + N(nlat) + " start " + N(x0) + " step " + N(dx) + "," + N(dy);
                            run(ed, g);
                        }
        for (double dx : {1000., 25000., -2500.})
            for (double dy : {1000., -50000.})
                for (double x0 : {-300000., 0., 100000.})
                    for (const char* unit : {"m", "km"}) {
                        const string tail = " start " + N(x0) + " step " + N(dx) + "," + N(dy) + " " + unit;
                        for (int fl : {0, 1}) {
                            if (fl && string(unit) == "m")
                                continue;
                            for (double lon0 : {0., 15., -25., 205.})
                                for (int south : {0, 1}) {
                                    const int sg = south ? -1 : 1;
                                    // 0: standard parallel 60, 1: scale factor of 60, 2: as 'stereographic', 3: standard parallel 75, 4: nothing (90)
                                    for (int how : {0, 1, 2, 3, 4}) {
                                        Grid g;
                                        g.type = "stere";
                                        g.unit = unit;
                                        g.axisType = fl ? CDM_FLOAT : CDM_DOUBLE;
                                        g.mapping = how == 2 ? "stereographic" : "polar_stereographic";
                                        g.par = {{how == 2 ? "longitude_of_projection_origin" : "straight_vertical_longitude_from_pole", {lon0}},
                                                 {"latitude_of_projection_origin", {90. * sg}}, {"earth_radius", {R}}};
                                        const double ts = how == 3 ? 75 : how == 4 ? 90 : 60;
                                        if (how == 1)
                                            g.par.push_back({"scale_factor_at_projection_origin", {(1 + std::sin(M_PI / 3)) / 2}});
                                        else if (how != 4)
                                            g.par.push_back({"standard_parallel", {ts * sg}});
                                        g.proj4 = "+proj=stere +lat_0=" + to_string(90 * sg) + " +lat_ts=" + N(ts * sg) + " +lon_0=" + N(lon0) + rs;
                                        g.x = ax(x0, dx, 4);
                                        g.y = ax(-2000000. * sg, dy, 3);
                                        g.name = string("polar stereographic ") + (south ? "south" : "north") + " given as " + to_string(how) + " lon0 " + N(lon0) + tail + (fl ? " float axes" : "");
                                        run(ed, g, ed == 2 || ts == 60);
                                    }
                                    if (south)
                                        continue;
                                    for (auto& l : vector<VD>{{60}, {63.3, 63.3}, {30, 60}, {-40}}) {
                                        Grid g;
                                        g.type = "lcc";
                                        g.unit = unit;
                                        g.axisType = fl ? CDM_FLOAT : CDM_DOUBLE;
                                        g.mapping = "lambert_conformal_conic";
                                        g.par = {{"longitude_of_central_meridian", {lon0}}, {"latitude_of_projection_origin", {l[0]}}, {"standard_parallel", l}, {"earth_radius", {R}}};
                                        g.proj4 = "+proj=lcc +lat_0=" + N(l[0]) + " +lat_1=" + N(l[0]) + " +lat_2=" + N(l.back()) + " +lon_0=" + N(lon0) + rs;
                                        g.x = ax(x0, dx, 4);
                                        g.y = ax(50000, dy, 3);
                                        g.name = "lambert parallels " + N(l[0]) + "," + N(l.back()) + " lon0 " + N(lon0) + tail + (fl ? " float axes" : "");
                                        run(ed, g);
                                    }
                                }
                        }
                    }
        // not describable: skipped
        Grid g;
        g.type = "other";
        g.x = ax(0, 1000, 4);
        g.y = ax(0, 1000, 3);
        g.mapping = "stereographic";
        g.par = {{"longitude_of_projection_origin", {10}}, {"latitude_of_projection_origin", {52}}, {"earth_radius", {R}}};
        g.proj4 = "+proj=stere +lat_0=52 +lon_0=10" + rs;
        g.name = "oblique stereographic";
        run(ed, g, false);
        g.mapping = "lambert_azimuthal_equal_area";
        g.proj4 = "+proj=laea +lat_0=52 +lon_0=10" + rs;
        g.name = "azimuthal equal area";
        run(ed, g, false);
    }
}

// ---------------------------------------------------------------- times
long long days(int y, int m, int d)
{
    y -= m <= 2;
    const int era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
    const unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097LL + static_cast<long long>(doe) - 719468;
}
long long epoch(long date, long time)
{
    return days(date / 10000, date / 100 % 100, date % 100) * 86400 + (time / 100) * 3600 + (time % 100) * 60;
}
string isodate(long date, long time)
{
    char b[64];
    snprintf(b, sizeof(b), "%04ld-%02ld-%02ld %02ld:%02ld:00", date / 10000, date / 100 % 100, date % 100, time / 100, time % 100);
    return b;
}

/// seconds since 1970 the message is valid for: reference time plus step
long long validTime(gm::H h)
{
    static const std::map<int, long> SEC{{0, 60}, {1, 3600}, {2, 86400}, {10, 3 * 3600}, {11, 6 * 3600}, {12, 12 * 3600}, {13, 1}, {254, 1}};
    const long u = gm::getL(h, "indicatorOfUnitOfTimeRange");
    VF_CHECK(SEC.count(u), "unit of time range " << u);
    long step;
    if (gm::getL(h, "edition") == 1) {
        const long tri = gm::getL(h, "timeRangeIndicator");
        VF_CHECK(tri == 0 || tri == 1 || tri == 10, "time range indicator " << tri);
        step = tri == 10 ? gm::getL(h, "P1") * 256 + gm::getL(h, "P2") : tri == 1 ? 0 : gm::getL(h, "P1");
    } else
        step = gm::getL(h, "forecastTime");
    return epoch(gm::getL(h, "dataDate"), gm::getL(h, "dataTime")) + step * SEC.at(u);
}

void timeCase(vf::Explorer& ex, int ed, long date, long time, const vector<long>& minutes, const string& unit, double perMinute, bool ref, int refKind)
{
    auto r = std::make_shared<TestReader>();
    vector<string> shape;
    vector<std::pair<string, string>> atts;
    r->att("", "Conventions", "CF-1.6");
    VD t;
    for (long m : minutes)
        t.push_back(m * perMinute);
    timeAxis(*r, t, unit + " since " + isodate(date, time), ref ? (refKind ? "days since 1970-01-01" : "hours since " + isodate(date, time)) : "",
             refKind ? epoch(date, time) / 86400. : 0);
    addGrid(*r, simple(), shape, atts);
    shape.push_back("time");
    VD v;
    for (size_t k = 0; k < t.size(); ++k)
        for (int i = 0; i < 6; ++i)
            v.push_back(10 * k + i);
    r->var("T", CDM_FLOAT, shape, v);
    r->att("T", "units", "K");
    const string fn = ex.scratch() + "/t.grb";
    write(r, ed, fn, cfg());
    auto ms = gm::decode(gm::read(fn));
    VF_CHECK(ms.size() == t.size(), ms.size() << " messages for " << t.size() << " times");
    std::set<size_t> seen;
    for (auto& m : ms) {
        const long long vt = validTime(m);
        size_t k = 0;
        while (k < t.size() && epoch(date, time) + minutes[k] * 60LL != vt)
            ++k;
        VF_CHECK(k < t.size() && seen.insert(k).second, "a message is valid at " << vt << " s since 1970, the dataset begins at " << epoch(date, time));
        if (ref)
            VF_CHECK(epoch(gm::getL(m, "dataDate"), gm::getL(m, "dataTime")) == epoch(date, time), "reference time");
        checkField(m, positions(simple()), VD(v.begin() + 6 * k, v.begin() + 6 * (k + 1)), 2e-3, 1e-3, "time " + to_string(k));
        ex.step();
    }
    std::ostringstream o;
    for (auto& m : ms)
        o << validTime(m) << " ";
    ex.state(o.str());
}

void times(vf::Explorer& ex)
{
    ex.space("reference times, steps, units");
    const vector<long> STEP{0, 1, 30, 60, 180, 360, 420, 720, 1440, 2880, 43200};
    vector<vector<long>> lists;
    for (long a : STEP)
        lists.push_back({a});
    for (size_t a = 0; a < STEP.size(); ++a)
        for (size_t b = a + 1; b < STEP.size(); ++b) {
            lists.push_back({STEP[a], STEP[b]});
            for (size_t c = b + 1; c < STEP.size(); ++c)
                lists.push_back({STEP[a], STEP[b], STEP[c]});
        }
    for (int ed : {1, 2})
        for (auto& dt : vector<std::pair<long, long>>{{20200228, 1200}, {19991231, 2330}, {19690101, 600}, {19700101, 0}})
            for (auto& l : lists)
                for (int unit : {0, 1, 2})
                    for (int ref : {0, 1, 2}) {
                        if (!ex.thorough() && l.size() == 3 && (unit != int(l[1] % 3) || ref == 0 || dt.first == 19700101))
                            continue;
                        if (!ex.thorough() && l.size() == 2 && unit == 2 && ref == 2)
                            continue;
                        // minutes: up to 65535 steps are possible with 16 bits
                        std::ostringstream o;
                        o << "GRIB" << ed << " " << isodate(dt.first, dt.second) << " unit " << unit << " ref " << ref << " minutes";
                        for (long x : l)
                            o << " " << x;
                        const string d = o.str();
                        ex.run([=] { return d; },
                               [=, &ex] {
                                   timeCase(ex, ed, dt.first, dt.second, l, unit == 0 ? "hours" : unit == 1 ? "minutes" : "days", unit == 0 ? 1 / 60. : unit == 1 ? 1 : 1 / 1440., ref > 0,
                                            ref == 2);
                               });
                    }
}

// ---------------------------------------------------------------- several reference times
double levelOf(gm::H h, long& type);

void refTimesCase(vf::Explorer& ex, int ed, size_t nr, size_t nt, long step, long refStep, int order, bool withLevels)
{
    auto r = std::make_shared<TestReader>();
    vector<string> shape;
    vector<std::pair<string, string>> atts;
    r->att("", "Conventions", "CF-1.6");
    VD rt, t2, off;
    const size_t nl = withLevels ? 2 : 1;
    r->dim("offset", nt);
    for (size_t i = 0; i < nr; ++i)
        rt.push_back(i * refStep / 60.);
    axis(*r, "rtime", rt, "hours since 2020-02-28 12:00:00", "forecast_reference_time");
    vector<string> td = order ? vector<string>{"rtime", "offset"} : vector<string>{"offset", "rtime"};
    for (size_t i = 0; i < nr * nt; ++i) {
        const size_t k = order ? i / nr : i % nt, j = order ? i % nr : i / nt;
        t2.push_back(double(j * refStep + (k + 1) * step));
    }
    r->var("time", CDM_DOUBLE, td, t2);
    r->att("time", "units", "minutes since 2020-02-28 12:00:00");
    r->att("time", "standard_name", "time");
    addGrid(*r, simple(), shape, atts);
    if (withLevels) {
        axis(*r, "height", {2, 10}, "m", "");
        r->att("height", "positive", "up");
        shape.push_back("height");
    }
    shape.insert(shape.end(), td.begin(), td.end());
    VD v;
    vector<VD> f(nr * nt * nl);
    for (size_t i = 0; i < nr * nt * nl * 6; ++i) {
        const size_t l = i / 6 % nl, m = i / 6 / nl;
        const size_t k = order ? m / nr : m % nt, j = order ? m % nr : m / nt;
        v.push_back(i + 1);
        f[(j * nt + k) * nl + l].push_back(i + 1);
    }
    r->var("T", CDM_DOUBLE, shape, v);
    r->att("T", "units", "K");
    r->att("T", "coordinates", "time");
    const string fn = ex.scratch() + "/r.grb";
    write(r, ed, fn, cfg());
    auto ms = gm::decode(gm::read(fn));
    VF_CHECK(ms.size() == nr * nt * nl, ms.size() << " messages instead of " << nr * nt * nl);
    std::set<size_t> seen;
    for (auto& m : ms) {
        const long long ref = epoch(gm::getL(m, "dataDate"), gm::getL(m, "dataTime")) - epoch(20200228, 1200), vt = validTime(m) - epoch(20200228, 1200);
        VF_CHECK(ref % (refStep * 60) == 0 && ref >= 0 && size_t(ref / (refStep * 60)) < nr, "reference time " << ref);
        const size_t j = ref / (refStep * 60);
        VF_CHECK((vt - ref) % (step * 60) == 0 && vt > ref && size_t((vt - ref) / (step * 60)) <= nt, "valid time " << vt << " for reference time " << ref);
        const size_t k = (vt - ref) / (step * 60) - 1;
        long type;
        const double lv = levelOf(m, type);
        const size_t l = nl == 2 && lv == 10 ? 1 : 0;
        const size_t at = (j * nt + k) * nl + l;
        VF_CHECK(seen.insert(at).second, "a field is written twice");
        checkField(m, positions(simple()), f[at], 2e-3, 1e-2, "reference time " + to_string(j) + " time " + to_string(k) + " level " + to_string(l));
        ex.step();
    }
    ex.state("rt" + to_string(ms.size()));
}

void refTimes(vf::Explorer& ex)
{
    ex.space("several reference times");
    for (int ed : {1, 2})
        for (size_t nr : {1, 2, 3})
            for (size_t nt : {1, 2, 3})
                for (long step : {30, 60, 180, 360})
                    for (long refStep : {60, 720, 1440})
                        for (int order : {0, 1})
                            for (bool lev : {false, true}) {
                                std::ostringstream o;
                                o << "GRIB" << ed << " " << nr << " reference times every " << refStep << " min, " << nt << " steps of " << step << " min, order " << order
                                  << (lev ? ", 2 levels" : "");
                                const string d = o.str();
                                ex.run([=] { return d; }, [=, &ex] { refTimesCase(ex, ed, nr, nt, step, refStep, order, lev); });
                            }
}

// ---------------------------------------------------------------- levels, variables
double levelOf(gm::H h, long& type)
{
    if (gm::getL(h, "edition") == 1) {
        type = gm::getL(h, "indicatorOfTypeOfLevel");
        return gm::getL(h, "level");
    }
    type = gm::getL(h, "typeOfFirstFixedSurface");
    return gm::getL(h, "scaledValueOfFirstFixedSurface") * std::pow(10., -gm::getL(h, "scaleFactorOfFirstFixedSurface"));
}

struct Lev
{
    string name, units, sn;
    VD vals;          // in the dataset
    VD want1, want2;  // expected in GRIB 1 and 2
    long type1, type2;
    CDMDataType dt = CDM_DOUBLE;
    double scale = 1, offset = 0;
};

void levelCase(vf::Explorer& ex, int ed, const Lev& l, int order, size_t nt, bool others)
{
    auto r = std::make_shared<TestReader>();
    vector<string> shape;
    vector<std::pair<string, string>> atts;
    r->att("", "Conventions", "CF-1.6");
    VD t;
    for (size_t k = 0; k < nt; ++k)
        t.push_back(k * 6);
    timeAxis(*r, t, "hours since 2020-02-28 12:00:00", "hours since 2020-02-28 12:00:00", 0);
    addGrid(*r, simple(), shape, atts);
    axis(*r, "lev", l.vals, l.units, l.sn, l.dt);
    if (l.scale != 1)
        r->att("lev", "scale_factor", CDM_DOUBLE, {l.scale});
    if (l.offset != 0)
        r->att("lev", "add_offset", CDM_DOUBLE, {l.offset});
    r->att("lev", "axis", "Z");
    const size_t nl = l.vals.size();
    vector<string> s = order == 0 ? vector<string>{"lon", "lat", "lev", "time"} : order == 1 ? vector<string>{"lon", "lat", "time"} : vector<string>{"lon", "lev", "lat", "time"};
    auto val = [&](size_t tt, size_t ll, int i) { return 100. * tt + 10 * ll + i; };
    VD v;
    if (order == 2) {
        for (size_t k = 0; k < nt; ++k)
            for (int y = 0; y < 2; ++y)
                for (size_t j = 0; j < nl; ++j)
                    for (int x = 0; x < 3; ++x)
                        v.push_back(val(k, j, y * 3 + x));
    } else
        for (size_t k = 0; k < nt; ++k)
            for (size_t j = 0; j < nl; ++j)
                for (int i = 0; i < 6; ++i)
                    v.push_back(val(k, j, i));
    r->var("T", CDM_FLOAT, s, v);
    r->att("T", "units", "K");
    VD ps, w;
    if (others) {
        for (size_t k = 0; k < nt; ++k)
            for (int i = 0; i < 6; ++i)
                ps.push_back(1000 + 7 * k + i);
        r->var("ps", CDM_FLOAT, {"lon", "lat", "time"}, ps);
        r->att("ps", "standard_name", "surface_air_pressure");
        r->att("ps", "units", "hPa");
        for (double x : v)
            w.push_back(x / 2);
        r->var("u", CDM_DOUBLE, s, w);
        r->att("u", "standard_name", "x_wind");
        r->att("u", "units", "m/s");
        r->var("undeclared", CDM_DOUBLE, s, w);
    }
    const string fn = ex.scratch() + "/l.grb";
    write(r, ed, fn, cfg());
    auto ms = gm::decode(gm::read(fn));
    const size_t want = nt * nl + (others ? nt * nl + nt : 0);
    VF_CHECK(ms.size() == want, ms.size() << " messages instead of " << want);
    std::set<string> seen;
    for (auto& m : ms) {
        const int p = paramOf(m);
        VF_CHECK(p >= 0, "unknown parameter written");
        const long long vt = validTime(m) - epoch(20200228, 1200);
        VF_CHECK(vt % 21600 == 0 && vt >= 0 && size_t(vt / 21600) < nt, "valid time " << vt);
        const size_t k = vt / 21600;
        long type;
        const double lv = levelOf(m, type);
        size_t j = 0;
        VD f;
        if (p == 1) {
            VF_CHECK(type == (ed == 1 ? 105 : 103) && lv == 0, "level of the variable without level: " << type << ", " << lv);
            for (int i = 0; i < 6; ++i)
                f.push_back(ps[k * 6 + i] * 100);
        } else {
            VF_CHECK(type == (ed == 1 ? l.type1 : l.type2), "type of level " << type);
            const VD& lw = ed == 1 ? l.want1 : l.want2;
            while (j < nl && std::fabs(lw[j] - lv) > 1e-6 * std::fabs(lv))
                ++j;
            VF_CHECK(j < nl, "level " << lv << ", the dataset has " << str(lw));
            for (int i = 0; i < 6; ++i)
                f.push_back(p == 0 ? val(k, j, i) : val(k, j, i) / 2);
        }
        VF_CHECK(seen.insert(to_string(p) + "," + to_string(k) + "," + to_string(j)).second, "a field is written twice");
        checkField(m, positions(simple()), f, 2e-3, p == 1 ? 1 : 1e-2, "parameter " + to_string(p) + " time " + to_string(k) + " level " + to_string(j));
        ex.step();
    }
    ex.state(l.name + to_string(order) + to_string(nt));
}

void levels(vf::Explorer& ex)
{
    ex.space("levels, several variables");
    vector<Lev> ls;
    const vector<VD> hp{{850}, {1000, 850, 500}, {10, 300, 700, 925}, {250, 1000}, {123, 456, 789}};
    for (auto& v : hp) {
        VD pa, dec, i10;
        for (double x : v) {
            pa.push_back(x * 100);
            dec.push_back(x / 10);
            i10.push_back(x * 10);
        }
        ls.push_back(Lev{"hPa", "hPa", "", v, v, pa, 100, 100});
        ls.push_back(Lev{"Pa", "Pa", "", pa, v, pa, 100, 100});
        ls.push_back(Lev{"kPa", "kPa", "air_pressure", dec, v, pa, 100, 100});
        ls.push_back(Lev{"kPa float", "kPa", "", dec, v, pa, 100, 100, CDM_FLOAT});
        VD o1, o2;
        for (double x : v) {
            o1.push_back(x - 30);
            o2.push_back((x - 500) * 4);
        }
        ls.push_back(Lev{"offset 3000 Pa", "Pa", "", o1, v, pa, 100, 100, CDM_INT, 100, 3000});
        ls.push_back(Lev{"packed 0.025 offset 50 kPa", "kPa", "", o2, v, pa, 100, 100, CDM_SHORT, 0.025, 50});
        ls.push_back(Lev{"packed 0.1 hPa", "hPa", "", i10, v, pa, 100, 100, CDM_SHORT, 0.1});
    }
    for (auto& v : vector<VD>{{2}, {10, 2}, {2, 10, 80}, {0, 1500}, {29, 57, 113}}) {
        VD km, cm, sc;
        for (double x : v) {
            sc.push_back(10 * x - 2);
            km.push_back(x / 1000);
            cm.push_back(x * 100);
        }
        ls.push_back(Lev{"m", "m", "", v, v, v, 105, 103});
        ls.push_back(Lev{"km", "km", "", km, v, v, 105, 103});
        if (v[0] > 0) // stored as (value in cm - 20) / 10
            ls.push_back(Lev{"scaled by the configuration", "m", "depth", v, sc, sc, 160, 160});
        ls.push_back(Lev{"cm int", "cm", "", cm, v, v, 105, 103, CDM_INT});
    }
    for (int ed : {1, 2})
        for (auto& l : ls)
            for (int order : {0, 1, 2})
                for (size_t nt : {1, 2, 3})
                    for (bool others : {false, true}) {
                        if (order == 1 && l.vals.size() > 1)
                            continue;
                        if (order == 1)
                            continue;
                        std::ostringstream o;
                        o << "GRIB" << ed << " levels " << l.name << " " << str(l.vals) << " order " << order << " times " << nt << (others ? " several variables" : "");
                        const string d = o.str();
                        ex.run([=] { return d; }, [=, &ex] { levelCase(ex, ed, l, order, nt, others); });
                    }
}

// ---------------------------------------------------------------- values
struct Pack
{
    string name;
    CDMDataType t;
    double scale, offset;
    bool fill;
    string units;
    double slope, add; // to K
};

double fillOf(CDMDataType t)
{
    return t == CDM_CHAR || t == CDM_UCHAR ? 100 : t == CDM_USHORT || t == CDM_UINT || t == CDM_UINT64 ? 9999 : FILL;
}

void valueCase(vf::Explorer& ex, int ed, const Pack& p, unsigned missing, int omit, bool nan)
{
    auto r = std::make_shared<TestReader>();
    vector<string> shape;
    vector<std::pair<string, string>> atts;
    r->att("", "Conventions", "CF-1.6");
    timeAxis(*r, {0, 6}, "hours since 2020-02-28 12:00:00", "hours since 2020-02-28 12:00:00", 0);
    addGrid(*r, simple(), shape, atts);
    shape.push_back("time");
    VD raw, want;
    const double fv = fillOf(p.t);
    for (int k = 0; k < 12; ++k) {
        const bool m = k < 6 && (missing >> k & 1);
        raw.push_back(m ? (nan ? std::nan("") : fv) : 3 * k + 1);
        want.push_back(m ? 1e20 : ((3 * k + 1) * p.scale + p.offset) * p.slope + p.add);
    }
    r->var("T", p.t, shape, raw);
    if (!p.units.empty())
        r->att("T", "units", p.units);
    if (p.fill)
        r->att("T", "_FillValue", p.t, {fv});
    if (p.scale != 1 || p.offset != 0) {
        r->att("T", "scale_factor", CDM_DOUBLE, {p.scale});
        r->att("T", "add_offset", CDM_DOUBLE, {p.offset});
    }
    const string fn = ex.scratch() + "/v.grb";
    const bool all = missing == 63;
    write(r, ed, fn, cfg("", omit ? string("<processing_options><omitEmptyFields>") + (omit == 1 ? "true" : "false") + "</omitEmptyFields></processing_options>" : ""));
    auto ms = gm::decode(gm::read(fn));
    const size_t n = all && omit != 2 ? 1 : 2;
    VF_CHECK(ms.size() == n, ms.size() << " messages instead of " << n);
    for (size_t k = 2 - n; k < 2; ++k)
        checkField(ms[k - (2 - n)], positions(simple()), VD(want.begin() + 6 * k, want.begin() + 6 * (k + 1)), 2e-3, 1e-3 * std::max(1., p.scale), "time " + to_string(k));
    ex.step(n);
    ex.state(p.name + to_string(n));
}

void valuesSpace(vf::Explorer& ex)
{
    ex.space("types, packing, units, missing values");
    vector<Pack> ps;
    for (CDMDataType t : {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_INT64, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_FLOAT, CDM_DOUBLE})
        for (int sc : {0, 1, 2, 3})
            for (int un : {0, 1, 2})
                ps.push_back(Pack{string(datatype2string(t)) + " packing " + to_string(sc) + " unit " + to_string(un), t, sc == 0 || sc == 3 ? 1 : sc == 1 ? 0.5 : -2,
                                  sc == 0 ? 0. : sc == 1 ? 200 : sc == 3 ? fillOf(t) - 4 : -10, true,
                                  un == 0 ? "K" : un == 1 ? "degC" : "", 1, un == 1 ? 273.15 : 0});
    for (int ed : {1, 2})
        for (auto& p : ps)
            for (unsigned m = 0; m < 64; ++m) {
                if (!ex.thorough() && p.name.find("unit 2") != string::npos && m % 7)
                    continue;
                for (int omit : {0, 1, 2}) {
                    if (omit && m != 63 && m != 31)
                        continue;
                    ex.run([=] { return "GRIB" + to_string(ed) + " " + p.name + " missing " + to_string(m) + " omit " + to_string(omit); },
                           [=, &ex] { valueCase(ex, ed, p, m, omit, false); });
                    if (p.t == CDM_DOUBLE || p.t == CDM_FLOAT)
                        ex.run([=] { return "GRIB" + to_string(ed) + " " + p.name + " NaN at " + to_string(m) + " omit " + to_string(omit); },
                               [=, &ex] { valueCase(ex, ed, p, m, omit, true); });
                }
            }
}

// ---------------------------------------------------------------- hybrid levels (GRIB 2)
void hybridCase(vf::Explorer& ex, const VD& ap, const VD& b)
{
    auto r = std::make_shared<TestReader>();
    vector<string> shape;
    vector<std::pair<string, string>> atts;
    r->att("", "Conventions", "CF-1.6");
    timeAxis(*r, {0}, "hours since 2020-02-28 12:00:00", "hours since 2020-02-28 12:00:00", 0);
    addGrid(*r, simple(), shape, atts);
    const size_t n = ap.size();
    VD k;
    for (size_t i = 0; i < n; ++i)
        k.push_back(ap[i] / 100000 + b[i]);
    axis(*r, "lev", k, "1", "atmosphere_hybrid_sigma_pressure_coordinate");
    r->att("lev", "positive", "down");
    r->att("lev", "formula_terms", "ap: ap b: b ps: ps");
    r->var("ap", CDM_DOUBLE, {"lev"}, ap);
    r->att("ap", "units", "Pa");
    r->var("b", CDM_DOUBLE, {"lev"}, b);
    r->att("b", "units", "1");
    r->var("ps", CDM_DOUBLE, {"lon", "lat", "time"}, {1e5, 1e5, 1e5, 1e5, 1e5, 1e5});
    r->att("ps", "units", "Pa");
    r->att("ps", "standard_name", "surface_air_pressure");
    VD v;
    for (size_t j = 0; j < n; ++j)
        for (int i = 0; i < 6; ++i)
            v.push_back(10 * j + i);
    r->var("T", CDM_DOUBLE, {"lon", "lat", "lev", "time"}, v);
    r->att("T", "units", "K");
    const string fn = ex.scratch() + "/h.grb";
    write(r, 2, fn, cfg());
    auto ms = gm::decode(gm::read(fn));
    std::set<long> seen;
    for (auto& m : ms) {
        long type;
        const double lv = levelOf(m, type);
        if (paramOf(m) == 1)
            continue;
        VF_CHECK(paramOf(m) == 0 && type == 105, "parameter or type of level");
        const long j = std::lround(lv) - 1;
        VF_CHECK(j >= 0 && j < long(n) && seen.insert(j).second, "level number " << lv);
        checkField(m, positions(simple()), VD(v.begin() + 6 * j, v.begin() + 6 * (j + 1)), 2e-3, 1e-3, "level " + to_string(j));
        size_t np = 0;
        VF_CHECK(gm::getL(m, "PVPresent") && !grib_get_size(m.get(), "pv", &np) && np == 2 * (n + 1), "number of level coefficients " << np);
        VD pv(np);
        gm::ck(grib_get_double_array(m.get(), "pv", pv.data(), &np), "pv");
        for (size_t i = 0; i < n; ++i) {
            VF_CHECK(closeD((pv[i] + pv[i + 1]) / 2, ap[i], 1e-5, 0.05), "ap of level " << i << " is " << (pv[i] + pv[i + 1]) / 2 << " instead of " << ap[i]);
            VF_CHECK(closeD((pv[n + 1 + i] + pv[n + 2 + i]) / 2, b[i], 1e-5, 1e-6), "b of level " << i << " is " << (pv[n + 1 + i] + pv[n + 2 + i]) / 2 << " instead of " << b[i]);
        }
        ex.step();
    }
    VF_CHECK(seen.size() == n, seen.size() << " levels written");
}

// ---------------------------------------------------------------- files, errors
void fileCase(vf::Explorer& ex, int ed, int what)
{
    auto mkds = [&](double base) {
        auto r = std::make_shared<TestReader>();
        vector<string> shape;
        vector<std::pair<string, string>> atts;
        r->att("", "Conventions", "CF-1.6");
        timeAxis(*r, {0}, "hours since 2020-02-28 12:00:00", "hours since 2020-02-28 12:00:00", 0);
        addGrid(*r, simple(), shape, atts);
        shape.push_back("time");
        r->var("T", CDM_DOUBLE, shape, {base, base + 1, base + 2, base + 3, base + 4, base + 5});
        r->att("T", "units", "K");
        return r;
    };
    const string fn = ex.scratch() + "/f.grb";
    remove(fn.c_str());
    auto expect = [&](const VD& bases) {
        auto ms = gm::decode(gm::read(fn));
        VF_CHECK(ms.size() == bases.size(), ms.size() << " messages in the file instead of " << bases.size());
        for (size_t i = 0; i < bases.size(); ++i)
            checkField(ms[i], positions(simple()), {bases[i], bases[i] + 1, bases[i] + 2, bases[i] + 3, bases[i] + 4, bases[i] + 5}, 2e-3, 1e-3, "message " + to_string(i));
        ex.step();
    };
    const string app = "<output_file type=\"append\" />", over = "<output_file type=\"overwrite\" />";
    switch (what) {
    case 0: // every sequence of 3 writes
    case 1:
    case 2:
    case 3:
    case 4:
    case 5:
    case 6:
    case 7: {
        VD want;
        for (int i = 0; i < 3; ++i) {
            const bool a = what >> i & 1;
            if (!a)
                want.clear();
            want.push_back(10 * i);
            write(mkds(10 * i), ed, fn, cfg("", a ? app : i == 1 ? over : ""));
            expect(want);
        }
        break;
    }
    case 8: // unknown key: reported or the file is complete, never the end of the process
        if (!throws([&] { write(mkds(1), ed, fn, cfg("<attribute name=\"noSuchKeyInGrib\" value=\"1\" type=\"long\" />")); }))
            expect({1});
        break;
    case 9: // unknown key of one parameter
        if (!throws([&] {
                write(mkds(1), ed, fn,
                      cfg("", "",
                          "<parameter name=\"T\"><grib1 parameterNumber=\"11\" codeTable=\"1\"><attribute name=\"noSuchKeyInGrib\" value=\"1\" type=\"long\" /></grib1>"
                          "<grib2 discipline=\"0\" parameterCategory=\"0\" parameterNumber=\"0\"><attribute name=\"noSuchKeyInGrib\" value=\"1\" type=\"long\" /></grib2></parameter>"));
            }))
            expect({});
        break;
    case 10:
        VF_CHECK(throws([&] { write(mkds(1), ed, ex.scratch() + "/no/such/dir/x.grb", cfg()); }), "a file that cannot be created is not reported");
        break;
    case 11: // no space left
        VF_CHECK(throws([&] { write(mkds(1), ed, "/dev/full", cfg()); }), "an incomplete file is not reported");
        break;
    case 12:
        VF_CHECK(throws([&] { write(mkds(1), ed, fn, cfg("", "<template_file name=\"/no/such/template\" />")); }), "a missing template is not reported");
        break;
    case 13: { // template
        const string tf = ex.scratch() + "/templ.grb";
        gm::write(tf, gm::message(ed, gm::Keys{gm::L("centre", 88)}, VD(gm::getL(gm::sample(ed), "numberOfDataPoints"), 1.)));
        write(mkds(1), ed, fn, cfg("", "<template_file name=\"" + tf + "\" />"));
        expect({1});
        VF_CHECK(gm::getL(gm::decode(gm::read(fn)).at(0), "centre") == 88, "the template is not used");
        break;
    }
    case 14: { // parameter keys
        write(mkds(1), ed, fn, cfg("<g1attribute name=\"generatingProcessIdentifier\" value=\"17\" type=\"long\" /><g2attribute name=\"generatingProcessIdentifier\" value=\"18\" type=\"long\" />"));
        expect({1});
        VF_CHECK(gm::getL(gm::decode(gm::read(fn)).at(0), "generatingProcessIdentifier") == (ed == 1 ? 17 : 18), "global attribute of the configuration");
        break;
    }
    case 15:
    case 16:
    case 17:
    case 18:
    case 19:
    case 20:
    case 21:
    case 22: { // order of the dimensions of the variable: values at their positions
        auto r = std::make_shared<TestReader>();
        vector<string> shape;
        vector<std::pair<string, string>> atts;
        r->att("", "Conventions", "CF-1.6");
        timeAxis(*r, {0, 6}, "hours since 2020-02-28 12:00:00", "hours since 2020-02-28 12:00:00", 0);
        addGrid(*r, simple(), shape, atts);
        const vector<vector<string>> SH{{"lat", "lon", "time"}, {"time", "lon", "lat"}, {"time", "lat", "lon"}, {"lon", "time", "lat"}};
        shape = SH[(what - 15) % 4];
        const std::map<string, size_t> LEN{{"lon", 3}, {"lat", 2}, {"time", 2}};
        VD v, f[2];
        for (auto& w : f)
            w.resize(6);
        for (size_t i = 0; i < 12; ++i) {
            std::map<string, size_t> at;
            size_t k = i;
            for (auto& d : shape) {
                at[d] = k % LEN.at(d);
                k /= LEN.at(d);
            }
            v.push_back(i + 1);
            f[at["time"]][at["lat"] * 3 + at["lon"]] = i + 1;
        }
        for (int var = 0; var < 2; ++var) {
            const char* n = var == (what >= 19) ? "T" : "u";
            if (var) {
                if (what == 15)
                    break;
                shape = {"lon", "lat", "time"};
                v.clear();
                for (size_t i = 0; i < 12; ++i)
                    v.push_back(i + 51);
            }
            r->var(n, CDM_DOUBLE, shape, v);
            r->att(n, "units", *n == 'T' ? "K" : "m/s");
            if (*n == 'u')
                r->att(n, "standard_name", "x_wind");
        }
        write(r, ed, fn, cfg());
        auto ms = gm::decode(gm::read(fn));
        const int first = what >= 19 ? 2 : 0;
        size_t c = 0, d = 0;
        for (size_t t = 0; t < ms.size(); ++t) {
            const size_t k = validTime(ms[t]) == epoch(20200228, 1200) ? 0 : 1;
            if (paramOf(ms[t]) == first)
                checkField(ms[t], positions(simple()), f[k], 2e-3, 1e-3, "time " + to_string(t)), ++c;
            else
                checkField(ms[t], positions(simple()), VD(v.begin() + 6 * k, v.begin() + 6 * (k + 1)), 2e-3, 1e-3, "second variable, time " + to_string(t)), ++d;
        }
        VF_CHECK(c == 2 && d == (what == 15 ? 0 : 2), c << "," << d << " messages");
        break;
    }
    }
    ex.state(to_string(ed) + "," + to_string(what));
}

} // namespace

void vf::explore(Explorer& ex)
{
    ex.space("files, configuration and errors");
    for (int ed : {1, 2})
        for (int w = 0; w < 23; ++w)
            ex.run([=] { return "GRIB" + to_string(ed) + " file case " + to_string(w); }, [=, &ex] { fileCase(ex, ed, w); });
    ex.space("hybrid levels");
    for (size_t n = 2; n <= 5; ++n)
        for (int dir : {0, 1})
            for (int kind : {0, 1, 2}) {
                VD ap, b;
                for (size_t i = 0; i < n; ++i) {
                    const double s = (i + 0.5) / n; // 0 top, 1 surface
                    b.push_back(kind == 0 ? s : kind == 1 ? s * s : std::max(0., s - 0.3));
                    ap.push_back(kind == 0 ? 0 : kind == 1 ? 20000 * s * (1 - s) : 5000 + 1000 * s);
                }
                if (dir) {
                    std::reverse(ap.begin(), ap.end());
                    std::reverse(b.begin(), b.end());
                }
                ex.run([=] { return "hybrid " + to_string(n) + " levels, surface " + (dir ? "first" : "last") + " kind " + to_string(kind); }, [=, &ex] { hybridCase(ex, ap, b); });
            }
    levels(ex);
    times(ex);
    refTimes(ex);
    valuesSpace(ex);
    grids(ex);
}
