// C24: projections: proj4 strings, CF attributes and positions agree
#include "fx.h"
#include "fimex/CDMAttribute.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/reproject.h"

#include <proj.h>

#include <algorithm>
#include <cmath>

using namespace fx;

namespace {
vf::Explorer* EX = nullptr;
template <class T>
string S(T v)
{
    std::ostringstream o;
    o.precision(15);
    o << v;
    return o.str();
}

// ---------- the reference: libproj itself
bool isLatLong(const string& p)
{
    return p.find("+proj=latlong") != string::npos || p.find("+proj=longlat") != string::npos;
}
bool isDegree(const string& p)
{
    return isLatLong(p) || p.find("+proj=ob_tran") != string::npos;
}

/// drop parts defining a datum shift: positions stay on the same ellipsoid
string withoutShift(const string& p)
{
    string r;
    std::istringstream in(p);
    string t;
    while (in >> t) {
        if (t.compare(0, 9, "+towgs84=") == 0 || t == "+no_defs")
            continue;
        if (t == "+datum=WGS84")
            t = "+ellps=WGS84";
        r += (r.empty() ? "" : " ") + t;
    }
    return r;
}

/// positions in the projection (m or degree) of lon,lat (degree)
bool reference(const string& proj, VD& x, VD& y)
{
    if (isLatLong(proj))
        return true;
    string def = "+proj=pipeline +step +proj=unitconvert +xy_in=deg +xy_out=rad +step " + withoutShift(proj);
    if (isDegree(proj))
        def += " +step +proj=unitconvert +xy_in=rad +xy_out=deg";
    static std::map<string, PJ*> cache;
    if (cache.size() > 200) {
        for (auto& c : cache)
            proj_destroy(c.second);
        cache.clear();
    }
    if (!cache.count(def))
        cache[def] = proj_create(PJ_DEFAULT_CTX, def.c_str());
    PJ* pj = cache[def];
    if (!pj)
        return false;
    bool ok = true;
    for (size_t i = 0; i < x.size(); ++i) {
        PJ_COORD c = proj_coord(x[i], y[i], 0, 0);
        c = proj_trans(pj, PJ_FWD, c);
        if (!std::isfinite(c.xy.x) || !std::isfinite(c.xy.y))
            ok = false;
        x[i] = c.xy.x;
        y[i] = c.xy.y;
    }
    return ok;
}

double angleDiff(double a, double b)
{
    double d = std::fmod(a - b, 360);
    if (d > 180)
        d -= 360;
    if (d < -180)
        d += 360;
    return std::abs(d);
}

void comparePositions(bool degree, const VD& gx, const VD& gy, const VD& wx, const VD& wy, const string& what)
{
    for (size_t i = 0; i < wx.size(); ++i) {
        const double tol = degree ? 1e-8 : 2e-3;
        const double dx = degree ? angleDiff(gx[i], wx[i]) * std::cos(wy[i] * M_PI / 180) : std::abs(gx[i] - wx[i]);
        const double dy = std::abs(gy[i] - wy[i]);
        VF_CHECK(dx < tol && dy < tol, what + ": position " + S(i) + " is at " + S(gx[i]) + "," + S(gy[i]) + " instead of " + S(wx[i]) + "," + S(wy[i]));
    }
}

struct Points
{
    VD lon, lat;
};

/// all that is claimed for one projection object and the proj4 definition it stands for
void verify(Projection_p p, const string& proj, const Points& pts, const string& what)
{
    const bool degree = isDegree(proj);
    VF_CHECK(p->isDegree() == degree, what + ": isDegree");
    VD wx = pts.lon, wy = pts.lat;
    VF_CHECK(reference(proj, wx, wy), "harness: no reference for " + proj);
    VD gx = pts.lon, gy = pts.lat;
    p->convertFromLonLat(gx, gy);
    comparePositions(degree, gx, gy, wx, wy, what + ", from lon/lat");
    p->convertToLonLat(gx, gy);
    comparePositions(true, gx, gy, pts.lon, pts.lat, what + ", to lon/lat");
    // using the strings directly
    gx = pts.lon;
    gy = pts.lat;
    VF_CHECK(isDegree(p->getProj4String()) == degree, what + ": kind of the proj4 string " + p->getProj4String());
    if (reference(p->getProj4String(), gx, gy))
        comparePositions(degree, gx, gy, wx, wy, what + ", proj4 string " + p->getProj4String());
    else
        VF_FAIL(what + ": unusable proj4 string " + p->getProj4String());
}

/// the projection and everything derived from it by translation between CF and proj4
void verifyAll(Projection_p p, const string& proj, const Points& pts, const string& what)
{
    verify(p, proj, pts, what);
    const vector<CDMAttribute> atts = p->getParameters();
    Projection_p again = Projection::create(atts);
    VF_CHECK(*again == *p && again->toString() == p->toString(), what + ": projection of its own parameters differs: " + p->toString() + " and " + again->toString());
    if (again->getProj4String() != p->getProj4String() || EX->thorough())
        verify(again, proj, pts, what + ", by parameters");
    Projection_p back = Projection::createByProj4(p->getProj4String());
    if (back->getProj4String() != p->getProj4String() || EX->thorough())
        verify(back, proj, pts, what + ", by its proj4 string");
    Projection_p back2 = Projection::createByProj4(back->getProj4String());
    VF_CHECK(*back2 == *back, what + ": translation is not stable");
    EX->step(4);
}

struct Earth
{
    string proj;
    bool sphere;
    double a, b; ///< b 0: sphere
    bool precise; ///< the translation table uses rounded axes
};
const vector<Earth> earths = {
    {"+R=6371229", true, 6371229, 0, true},
    {"+a=6370000 +e=0", true, 6370000, 0, true},
    {"+a=6371000.25 +b=6371000.25", true, 6371000.25, 0, true},
    {"+a=6378137 +b=6356752.3142", false, 6378137, 6356752.3142, true},
    {"+a=6378137 +e=0.08181919084262157", false, 6378137, 6356752.314245, true},
    {"+ellps=WGS84", false, 6378137, 6356752.3142, true},
    {"+datum=WGS84", false, 6378137, 6356752.3142, true},
    {"+ellps=GRS80", false, 6378137, 6356752.3141, true},
    {"+ellps=bessel", false, 6377397.155, 6356078.962818, true},
    {"+ellps=WGS84 +towgs84=0,0,0", false, 6378137, 6356752.3142, true},
    {"+ellps=intl", false, 6378388, 6356911.946, true},
    {"+ellps=WGS72", false, 6378135, 6356750.52, true},
    {"+a=6378137 +rf=298.257223563", false, 6378137, 6356752.3142, true},
    {"+a=6378137 +f=0.0033528106647474805", false, 6378137, 6356752.3142, true},
    {"+a=6378137 +es=0.0066943799901413165", false, 6378137, 6356752.3142, true},
    {"+ellps=sphere", true, 6370997, 0, true},
    {"+ellps=clrk66", false, 6378206.4, 6356583.8, true},
    {"+ellps=airy", false, 6377563.396, 6356256.910, true},
};

struct Family
{
    string name;              ///< CF
    vector<string> base;      ///< mandatory part
    vector<vector<string>> optional; ///< per parameter: alternatives, "" for absent
    VD lon, lat;              ///< test positions
    bool sphereOk;
    bool falseOk;
};

vector<Family> families()
{
    const VD lonE = {5, 10.5, 16, -3}, latE = {55, 60.25, 70, 48};
    vector<Family> f;
    f.push_back({"latitude_longitude", {"+proj=latlong", "+proj=longlat"}, {}, lonE, latE, true, false});
    f.push_back({"rotated_latitude_longitude", {"+proj=ob_tran +o_proj=longlat", "+proj=ob_tran +o_proj=latlong"},
                 {{"+lon_0=-40", "+lon_0=10.123456789", "+lon_0=0", "+lon_0=179.5", ""}, {"+o_lat_p=22", "+o_lat_p=39.25", "+o_lat_p=90", "+o_lat_p=0.000012345678"}, {"", "+o_lon_p=0", "+o_lon_p=30.5", "+o_lon_p=-30.5", "+o_lon_p=0.00005"}}, lonE, latE, true, false});
    f.push_back({"polar_stereographic", {"+proj=stere +lat_0=90", "+proj=stere +lat_0=90.0"},
                 {{"+lon_0=0", "+lon_0=-32.123456789012", "+lon_0=70", ""}, {"+lat_ts=60", "+lat_ts=71.25", "+k=0.93", "+k_0=0.9330127019", "", "+lat_ts=90"}}, lonE, latE, true, true});
    f.push_back({"polar_stereographic", {"+proj=stere +lat_0=-90"}, {{"+lon_0=10", ""}, {"+lat_ts=-60", "+lat_ts=-71", "+k=0.994", ""}}, {10, 100, -120}, {-60, -75.5, -45}, true, true});
    f.push_back({"stereographic", {"+proj=stere +lat_0=52.15", "+proj=stere +lat_0=0", "+proj=stere", "+proj=stere +lat_0=89.99"}, {{"+lon_0=5.38763888888889", "+lon_0=-10", ""}, {"+k=0.9999079", "+k_0=0.95", ""}}, lonE, latE, true, true});
    for (const char* n : {"lcc", "aea"}) {
        f.push_back({n == string("lcc") ? "lambert_conformal_conic" : "albers_conical_equal_area", {string("+proj=") + n},
                     {{"+lat_1=77.5 +lat_2=77.5", "+lat_1=30 +lat_2=60", "+lat_1=63.123456789 +lat_2=64.987654321", "+lat_1=63.123456789", "+lat_1=50"}, {"+lat_0=77.5", "+lat_0=63.123456789", "+lat_0=0", ""}, {"+lon_0=-25", "+lon_0=15.123456789", ""}}, lonE, latE, true, true});
    }
    f.push_back({"lambert_azimuthal_equal_area", {"+proj=laea"}, {{"+lat_0=90", "+lat_0=52", "+lat_0=-10.123456789", ""}, {"+lon_0=10", "+lon_0=-20.987654321", ""}}, lonE, latE, true, true});
    f.push_back({"azimuthal_equidistant", {"+proj=aeqd"}, {{"+lat_0=90", "+lat_0=52", ""}, {"+lon_0=10", "+lon_0=-20.987654321", ""}}, lonE, latE, true, true});
    f.push_back({"lambert_cylindrical_equal_area", {"+proj=cea"}, {{"+lon_0=10", "+lon_0=-20.987654321", ""}, {"+lat_ts=30", "+lat_ts=45.123456789", "+k=0.9", "+k_0=0.75", ""}}, lonE, latE, true, true});
    f.push_back({"mercator", {"+proj=merc"}, {{"+lon_0=10", "+lon_0=-20.987654321", ""}, {"+lat_ts=30", "+lat_ts=45.123456789", "+k=0.9", "+k_0=0.75", ""}}, lonE, latE, true, true});
    f.push_back({"transverse_mercator", {"+proj=tmerc", "+proj=etmerc"}, {{"+lon_0=9", "+lon_0=-10.5", ""}, {"+lat_0=49", "+lat_0=-2.123456789", ""}, {"+k=0.9996", "+k_0=0.9996012717", ""}}, lonE, latE, false, true});
    f.push_back({"transverse_mercator", {"+proj=utm"}, {{"+zone=32", "+zone=33", "+zone=31 +south", "+lon_0=9", "+lon_0=15", "+lon_0=-3"}}, lonE, latE, false, false});
    f.push_back({"sinusoidal", {"+proj=sinu"}, {{"+lon_0=10", "+lon_0=-20.987654321", ""}}, lonE, latE, true, true});
    f.push_back({"orthographic", {"+proj=ortho"}, {{"+lat_0=60", "+lat_0=45.123456789", "+lat_0=90"}, {"+lon_0=10", "+lon_0=-20.987654321", ""}}, lonE, latE, true, true});
    f.push_back({"vertical_perspective", {"+proj=nsper"}, {{"+h=5500000", "+h=35785831.123"}, {"+lat_0=60", "+lat_0=45.123456789"}, {"+lon_0=10", "+lon_0=-5.987654321", ""}}, lonE, latE, true, true});
    f.push_back({"geostationary", {"+proj=geos"}, {{"+h=35785831", "+h=35785863.123"}, {"+lon_0=0", "+lon_0=9.5", ""}, {"+sweep=x", "+sweep=y", ""}}, lonE, {55, 50.25, -60, 48}, true, true});
    f.push_back({"oblique_mercator", {"+proj=omerc"}, {{"+lonc=10", "+lonc=-7.123456789"}, {"+lat_0=52", "+lat_0=46.952405"}, {"+alpha=30", "+alpha=-30.285"}, {"+gamma=0", "+gamma=53.125"}, {"+k=0.99984", "+k_0=1", ""}, {"", "+no_rot"}}, {5, 10.5, 16, -3}, latE, true, true});
    f.push_back({"unknown_to_fgdc", {"+proj=moll", "+proj=eqc +lat_ts=10", "+proj=gnom +lat_0=60"}, {{"+lon_0=10", ""}}, lonE, latE, true, true});
    return f;
}

string joinParts(const vector<string>& parts)
{
    string s;
    for (const string& p : parts) {
        if (!p.empty())
            s += (s.empty() ? "" : " ") + p;
    }
    return s;
}

void checkProj4()
{
    const vector<string> falses = {"", "+x_0=400000 +y_0=-1000.5", "+x_0=0.123456789", "+y_0=4321000"};
    for (const Family& f : families()) {
        EX->space("proj4 strings of " + f.name);
        size_t n = 1;
        for (const auto& o : f.optional)
            n *= o.size();
        for (const string& base : f.base)
            for (size_t k = 0; k < n; ++k) {
                vector<string> parts = {base};
                size_t r = k;
                for (const auto& o : f.optional) {
                    parts.push_back(o[r % o.size()]);
                    r /= o.size();
                }
                for (size_t e = 0; e < earths.size(); ++e) {
                    if (earths[e].sphere && !f.sphereOk)
                        continue;
                    if (k > 0 && (k + e) % 5 != 0 && !EX->thorough())
                        continue;
                    if (f.name == "unknown_to_fgdc" && earths[e].proj.find("datum") != string::npos)
                        continue;
                    for (size_t fe = 0; fe < (f.falseOk ? falses.size() : 1); ++fe) {
                        // all earths with the first false values, all false values with two earths
                        if (fe > 0 && e != 0 && e != 3 && !EX->thorough())
                            continue;
                        for (int order = 0; order < 3; ++order) {
                            if (order == 1 && f.name == "unknown_to_fgdc") // used as given, not accepted by libproj
                                continue;
                            if (order > 0 && !EX->thorough() && (e + k) % 3 != 0)
                                continue;
                            vector<string> pp = parts;
                            pp.push_back(falses[fe]);
                            pp.push_back(earths[e].proj);
                            if (order == 1)
                                std::reverse(pp.begin(), pp.end());
                            if (order == 2)
                                pp.push_back("+no_defs");
                            const string proj = joinParts(pp);
                            EX->run([=] { return proj; }, [&] {
                                Projection_p p = Projection::createByProj4(proj);
                                VF_CHECK(p->getName() == f.name, "projection is called " + p->getName() + " instead of " + f.name);
                                string expected = proj;
                                const size_t utm = proj.find("+lon_0=");
                                if (proj.find("+proj=utm") != string::npos && utm != string::npos) // same as the zone of this meridian
                                    expected = proj.substr(0, utm) + "+zone=" + S(int((std::atof(proj.c_str() + utm + 7) + 183) / 6)) + proj.substr(proj.find_first_of(" ", utm) == string::npos ? proj.size() : proj.find_first_of(" ", utm));
                                verifyAll(p, expected, {f.lon, f.lat}, "createByProj4");
                                EX->state(p->toString());
                            });
                        }
                    }
                }
            }
    }
}

// ---------- CF attributes
struct CfAtt
{
    string name;
    VD values;
    string text; ///< if values empty
    string proj; ///< equivalent; "@" replaced by the value(s)
};
struct CfFamily
{
    string name, proj;
    vector<vector<CfAtt>> atts; ///< alternatives per position; an empty name means absent
    VD lon, lat;
    bool sphereOk;
};

string num(double d)
{
    std::ostringstream o;
    o.precision(17);
    o << d;
    return o.str();
}
CfAtt A(const string& n, double v, const string& key) { return {n, {v}, "", "+" + key + "=" + num(v)}; }
CfAtt none() { return {"", {}, "", ""}; }

vector<CfFamily> cfFamilies()
{
    const VD lonE = {5, 10.5, 16, -3}, latE = {55, 60.25, 70, 48};
    vector<CfFamily> f;
    const vector<CfAtt> lonO = {A("longitude_of_projection_origin", -20, "lon_0"), A("longitude_of_projection_origin", 10.123456789, "lon_0"), none()};
    const vector<CfAtt> lonC = {A("longitude_of_central_meridian", -20, "lon_0"), A("longitude_of_central_meridian", 10.123456789, "lon_0"), none()};
    const vector<CfAtt> latO = {A("latitude_of_projection_origin", 63, "lat_0"), A("latitude_of_projection_origin", 45.987654321, "lat_0"), none()};
    vector<CfAtt> latM = latO;
    latM.pop_back();
    auto two = [](double a, double b) { return CfAtt{"standard_parallel", {a, b}, "", "+lat_1=" + num(a) + " +lat_2=" + num(b)}; };
    auto one = [](double a) { return CfAtt{"standard_parallel", {a}, "", "+lat_1=" + num(a) + " +lat_2=" + num(a)}; };
    const vector<CfAtt> sps = {two(30, 60), two(63, 63), two(77.5, 70.25), two(61.123456789, 67.987654321), one(63), one(61.123456789)};
    f.push_back({"lambert_conformal_conic", "+proj=lcc", {sps, lonC, latO}, lonE, latE, true});
    f.push_back({"albers_conical_equal_area", "+proj=aea", {sps, lonC, latO}, lonE, latE, true});
    f.push_back({"azimuthal_equidistant", "+proj=aeqd", {lonO, latO}, lonE, latE, true});
    f.push_back({"lambert_azimuthal_equal_area", "+proj=laea", {lonO, latO}, lonE, latE, true});
    const vector<CfAtt> ts = {A("standard_parallel", 30, "lat_ts"), A("standard_parallel", 45.123456789, "lat_ts"), A("scale_factor_at_projection_origin", 0.9, "k_0"), A("scale_factor_at_projection_origin", 0.912345678901, "k_0"), none()};
    f.push_back({"lambert_cylindrical_equal_area", "+proj=cea", {lonC, ts}, lonE, latE, true});
    f.push_back({"mercator", "+proj=merc", {lonO, ts}, lonE, latE, true});
    f.push_back({"latitude_longitude", "+proj=longlat", {}, lonE, latE, true});
    f.push_back({"rotated_latitude_longitude", "+proj=ob_tran +o_proj=longlat",
                 {{{"grid_north_pole_longitude", {140}, "", "+lon_0=-40"}, {"grid_north_pole_longitude", {-170.123456789}, "", "+lon_0=" + num(9.876543211)}, {"grid_north_pole_longitude", {180}, "", "+lon_0=0"}},
                  {A("grid_north_pole_latitude", 22, "o_lat_p"), A("grid_north_pole_latitude", 39.123456789, "o_lat_p")},
                  {none(), A("north_pole_grid_longitude", 15, "o_lon_p"), A("north_pole_grid_longitude", -15.5, "o_lon_p")}}, lonE, latE, true});
    f.push_back({"polar_stereographic", "+proj=stere",
                 {{A("straight_vertical_longitude_from_pole", -32, "lon_0"), A("straight_vertical_longitude_from_pole", 70.123456789, "lon_0")},
                  {A("latitude_of_projection_origin", 90, "lat_0")},
                  {A("standard_parallel", 60, "lat_ts"), A("standard_parallel", 71.123456789, "lat_ts"), A("scale_factor_at_projection_origin", 0.93, "k_0")}}, lonE, latE, true});
    f.push_back({"stereographic", "+proj=stere", {lonO, latO, {A("scale_factor_at_projection_origin", 0.99990790123, "k_0"), none()}}, lonE, latE, true});
    f.push_back({"transverse_mercator", "+proj=tmerc", {lonC, {A("latitude_of_projection_origin", 49, "lat_0"), A("latitude_of_projection_origin", -2.123456789, "lat_0"), none()}, {A("scale_factor_at_central_meridian", 0.9996, "k_0"), A("scale_factor_at_central_meridian", 0.999601271712, "k_0"), none()}}, lonE, latE, false});
    f.push_back({"sinusoidal", "+proj=sinu", {lonO}, lonE, latE, true});
    f.push_back({"orthographic", "+proj=ortho", {lonO, latM}, lonE, latE, true});
    const vector<CfAtt> heights = {A("perspective_point_height", 35785831, "h"), A("perspective_point_height", 5500000.123, "h")};
    f.push_back({"vertical_perspective", "+proj=nsper", {lonO, latM, heights}, lonE, latE, true});
    f.push_back({"geostationary", "+proj=geos", {{A("longitude_of_projection_origin", 0, "lon_0"), A("longitude_of_projection_origin", 9.5, "lon_0")}, {A("latitude_of_projection_origin", 0, "lat_0"), none()}, {heights[0], A("perspective_point_height", 35785863.123, "h")}, {{"sweep_angle_axis", {}, "x", "+sweep=x"}, {"sweep_angle_axis", {}, "y", "+sweep=y"}, none()}}, lonE, {55, 50.25, -60, 48}, true});
    f.push_back({"oblique_mercator", "+proj=omerc +gamma=0", {{A("longitude_of_projection_origin", 10, "lonc"), A("longitude_of_projection_origin", -7.123456789, "lonc")}, latM, {A("azimuth_of_central_line", 30, "alpha"), A("azimuth_of_central_line", -30.285, "alpha")}, {A("gamma", 0, "gamma"), A("gamma", 53.125, "gamma")}, {A("scale_factor_at_projection_origin", 0.99984, "k_0"), none()}}, lonE, latE, true});
    f.back().proj = "+proj=omerc";
    return f;
}

struct CfEarth
{
    vector<std::pair<string, double>> atts;
    string proj;
    bool sphere;
};
const vector<CfEarth> cfEarths = {
    {{}, "+R=6371000", true},
    {{{"earth_radius", 6371229}}, "+R=6371229", true},
    {{{"earth_radius", 6370997.123456}}, "+R=6370997.123456", true},
    {{{"semi_major_axis", 6370000}}, "+R=6370000", true},
    {{{"semi_major_axis", 6378137}, {"semi_minor_axis", 6356752.3142}}, "+a=6378137 +b=6356752.3142", false},
    {{{"semi_major_axis", 6377397.155}, {"inverse_flattening", 299.1528128}}, "+a=6377397.155 +rf=299.1528128", false},
    {{{"semi_major_axis", 6378137}, {"semi_minor_axis", 6356752.3142}, {"inverse_flattening", 298.257223563}}, "+a=6378137 +rf=298.257223563", false},
    {{{"semi_major_axis", 6371000}, {"inverse_flattening", 0}}, "+R=6371000", true},
};

CDMAttribute makeAtt(const CfAtt& a, CDMDataType type)
{
    if (a.values.empty())
        return CDMAttribute(a.name, a.text);
    return CDMAttribute(a.name, mk(type, a.values));
}

void checkCF()
{
    const vector<CDMDataType> types = {CDM_DOUBLE, CDM_FLOAT, CDM_INT};
    for (const CfFamily& f : cfFamilies()) {
        EX->space("CF attributes of " + f.name);
        size_t n = 1;
        for (const auto& o : f.atts)
            n *= o.size();
        for (size_t k = 0; k < n; ++k)
            for (size_t e = 0; e < cfEarths.size(); ++e) {
                if (cfEarths[e].sphere && !f.sphereOk)
                    continue;
                for (size_t ti = 0; ti < types.size(); ++ti)
                    for (int fals = 0; fals < 2; ++fals)
                        for (int order = 0; order < 3; ++order) {
                            if (!EX->thorough() && (k + e + ti + fals + order) % 7)
                                continue;
                            if (fals && (f.name == "latitude_longitude" || f.name == "rotated_latitude_longitude"))
                                continue;
                            vector<CfAtt> atts;
                            vector<string> parts = {f.proj};
                            size_t r = k;
                            bool exact = true;
                            for (const auto& o : f.atts) {
                                const CfAtt& a = o[r % o.size()];
                                r /= o.size();
                                if (a.name.empty())
                                    continue;
                                atts.push_back(a);
                                parts.push_back(a.proj);
                                for (double v : a.values)
                                    exact = exact && v == (ti == 1 ? double(float(v)) : double(int(v)));
                            }
                            if (ti > 0 && !exact)
                                continue;
                            if (fals) {
                                atts.push_back(A("false_easting", 400000, "x_0"));
                                atts.push_back(A("false_northing", -1000, "y_0"));
                                parts.push_back("+x_0=400000 +y_0=-1000");
                            }
                            parts.push_back(cfEarths[e].proj);
                            const string proj = joinParts(parts);
                            EX->run([=] { return f.name + " [" + proj + "] attribute type " + S(ti) + " order " + S(order); }, [&] {
                                vector<CDMAttribute> as;
                                as.push_back(CDMAttribute("grid_mapping_name", f.name));
                                for (const auto& a : atts)
                                    as.push_back(makeAtt(a, types[ti]));
                                for (const auto& a : cfEarths[e].atts)
                                    as.push_back(CDMAttribute(a.first, mk(CDM_DOUBLE, {a.second})));
                                if (order == 1)
                                    std::reverse(as.begin(), as.end());
                                if (order == 2)
                                    std::rotate(as.begin(), as.begin() + as.size() / 2, as.end());
                                Projection_p p = Projection::create(as);
                                VF_CHECK(p->getName() == f.name, "projection is called " + p->getName());
                                verifyAll(p, proj, {f.lon, f.lat}, "create");
                                // all given attributes are kept
                                const vector<CDMAttribute> kept = p->getParameters();
                                for (const CDMAttribute& a : as) {
                                    auto it = std::find_if(kept.begin(), kept.end(), [&](const CDMAttribute& c) { return c.getName() == a.getName(); });
                                    VF_CHECK(it != kept.end() && it->getStringValue() == a.getStringValue(), "attribute " + a.getName() + " is lost");
                                }
                            });
                        }
            }
    }
}

// ---------- histories of parameter changes
void checkParameters()
{
    EX->space("sequences of parameter changes");
    // each operation: name, value, removal
    struct Op
    {
        string name;
        double value;
        bool remove;
    };
    const vector<Op> ops = {{"earth_radius", 6371229, false}, {"semi_major_axis", 6378137, false}, {"semi_minor_axis", 6356752.3142, false}, {"inverse_flattening", 299.1528128, false}, {"longitude_of_projection_origin", 10, false}, {"latitude_of_projection_origin", 52, false}, {"longitude_of_projection_origin", 0, true}, {"semi_minor_axis", 0, true}, {"earth_radius", 0, true}, {"false_easting", 1000, false}};
    const int depth = EX->thorough() ? 4 : 3;
    size_t total = 1;
    for (int i = 0; i < depth; ++i)
        total *= ops.size();
    for (size_t k = 0; k < total; ++k) {
        EX->run([=] { return "laea, changes " + S(k); }, [&] {
            Projection_p p = Projection::create({CDMAttribute("grid_mapping_name", "lambert_azimuthal_equal_area")});
            std::map<string, double> m = {{"earth_radius", 6371000}};
            size_t r = k;
            for (int i = 0; i < depth; ++i) {
                const Op& op = ops[r % ops.size()];
                r /= ops.size();
                if (op.remove) {
                    p->removeParameter(op.name);
                    m.erase(op.name);
                } else {
                    p->addParameter(CDMAttribute(op.name, op.value));
                    if (op.name == "earth_radius") {
                        m.erase("semi_major_axis");
                        m.erase("semi_minor_axis");
                        m.erase("inverse_flattening");
                    }
                    if (op.name == "semi_major_axis" || op.name == "semi_minor_axis" || op.name == "inverse_flattening")
                        m.erase("earth_radius");
                    m[op.name] = op.value;
                }
                std::map<string, double> got;
                for (const CDMAttribute& a : p->getParameters()) {
                    if (a.getName() == "grid_mapping_name")
                        continue;
                    VF_CHECK(got.insert({a.getName(), a.getData()->getDouble(0)}).second, "parameter " + a.getName() + " twice");
                }
                VF_CHECK(got == m, "parameters after step " + S(i));
                string proj = "+proj=laea";
                auto add = [&](const string& n, const string& key) {
                    if (m.count(n))
                        proj += " +" + key + "=" + num(m[n]);
                };
                add("longitude_of_projection_origin", "lon_0");
                add("latitude_of_projection_origin", "lat_0");
                add("false_easting", "x_0");
                if (m.count("earth_radius"))
                    add("earth_radius", "R");
                else if (m.count("semi_major_axis")) {
                    add("semi_major_axis", "a");
                    if (m.count("inverse_flattening"))
                        add("inverse_flattening", "rf");
                    else if (m.count("semi_minor_axis"))
                        add("semi_minor_axis", "b");
                    else
                        proj += " +e=0";
                } else
                    proj += " +R=6371000";
                verify(p, proj, {{5, 10.5}, {55, 60.25}}, "after step " + S(i));
                bool thrown = throws([&] { p->addParameter(CDMAttribute("grid_mapping_name", "mercator")); });
                VF_CHECK(thrown, "the name of the projection cannot be changed");
                EX->step(1);
            }
            EX->state(p->toString());
        });
    }
}

void checkEarthReplacement()
{
    EX->space("replacing the earth figure");
    for (const char* base : {"+proj=stere +lat_0=90 +lon_0=10 +lat_ts=60", "+proj=lcc +lat_1=30 +lat_2=60 +lat_0=63 +lon_0=15 +x_0=1000", "+proj=longlat"})
        for (const Earth& from : earths)
            for (const Earth& to : earths)
                for (int pos = 0; pos < 3; ++pos) {
                    if (!EX->thorough() && (int(&from - &earths[0]) + int(&to - &earths[0])) % 3 != pos)
                        continue;
                    const string b = base;
                    const size_t sp = b.find(' ');
                    const string proj = pos == 0 ? b + " " + from.proj + " +no_defs" : (pos == 1 || sp == string::npos) ? from.proj + " " + b : b.substr(0, sp) + " " + from.proj + b.substr(sp);
                    EX->run([=] { return proj + " with " + to.proj; }, [&] {
                        const string r = replaceProj4Earthfigure(proj, to.proj);
                        VD wx = {5, 10.5}, wy = {55, 60.25}, gx = wx, gy = wy;
                        VF_CHECK(reference(b + " " + to.proj, wx, wy), "harness reference");
                        VF_CHECK(reference(r, gx, gy), "unusable result " + r);
                        comparePositions(isDegree(b), gx, gy, wx, wy, "positions of " + r);
                        verify(Projection::createByProj4(r), b + " " + to.proj, {{5, 10.5}, {55, 60.25}}, "projection of " + r);
                        VF_CHECK(replaceProj4Earthfigure(proj, "") == proj, "no new earth figure");
                    });
                }
}

void checkRefused()
{
    EX->space("refused definitions");
    for (const char* s : {"", "lat_0=90", "proj=stere", "+lat_0=90 +lon_0=0", "+init=epsg:4326"})
        EX->run([=] { return string("proj4 '") + s + "'"; }, [=] { VF_CHECK(throws([=] { Projection::createByProj4(s); }), "a string without +proj is refused"); });
    for (const char* s : {"", "mercator2", "Mercator", "rotated"})
        EX->run([=] { return string("grid mapping '") + s + "'"; }, [=] { VF_CHECK(throws([=] { Projection::create({CDMAttribute("grid_mapping_name", s)}); }), "an unknown projection is refused"); });
    EX->run([] { return string("no grid mapping"); }, [] { verify(Projection::create({CDMAttribute("earth_radius", 6371229.)}), "+proj=longlat +R=6371229", {{5, 10.5}, {55, 60.25}}, "default"); });
    EX->run([] { return string("sizes"); }, [] {
        Projection_p p = Projection::createByProj4("+proj=stere +lat_0=90 +R=6371000");
        VD x = {1, 2}, y = {50};
        VF_CHECK(throws([&] { p->convertFromLonLat(x, y); }) && throws([&] { p->convertToLonLat(x, y); }), "different sizes are refused");
        VD e1, e2;
        p->convertFromLonLat(e1, e2);
        p->convertToLonLat(e1, e2);
        VF_CHECK(e1.empty() && e2.empty(), "nothing to convert");
    });
}
} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    proj_log_level(PJ_DEFAULT_CTX, PJ_LOG_NONE);
    checkRefused();
    checkParameters();
    checkProj4();
    checkCF();
    checkEarthReplacement();
}
