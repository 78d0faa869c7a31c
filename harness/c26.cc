// C26: the coordinate systems found describe the variables as the metadata say.
#include "fx.h"

#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/coordSys/Projection.h"
#include "fimex/coordSys/verticalTransform/VerticalTransformation.h"

#include <proj.h>

#include <algorithm>
#include <cstring>
#include <set>

using namespace fx;
using std::set;
using std::to_string;

namespace {

typedef CoordinateAxis CA;

string names(const set<string>& s)
{
    string o;
    for (auto& x : s)
        o += x + " ";
    return o;
}

set<string> axesOf(CoordinateSystem_cp cs)
{
    set<string> o;
    for (auto& a : cs->getAxes())
        VF_CHECK(o.insert(a->getName()).second, "axis " << a->getName() << " twice in a coordinate system");
    return o;
}

string nm(CoordinateAxis_cp a)
{
    return a ? a->getName() : "-";
}

// ---------------------------------------------------------------- types of axes
struct Hint
{
    string val;
    set<int> types; // empty: says nothing
};

/// declarative: every attribute admits a set of types, the most specific common one is the type of the axis
void typeCase(vf::Explorer& ex, const Hint& sn, const Hint& un, const string& positive, const string& axisAtt, bool aux, int order)
{
    // every attribute admits some types
    const set<int> ALL{CA::GeoX, CA::GeoY, CA::GeoZ, CA::Time, CA::Lon, CA::Lat, CA::Pressure, CA::Height, CA::Depth, CA::ReferenceTime, CA::Realization};
    set<int> t = ALL;
    bool any = false;
    auto meet = [&](const set<int>& s) {
        set<int> o;
        std::set_intersection(t.begin(), t.end(), s.begin(), s.end(), std::inserter(o, o.begin()));
        t = o;
        any = true;
    };
    if (!sn.types.empty())
        meet(sn.types);
    if (!un.types.empty())
        meet(un.types);
    const bool metre = un.val == "m" || un.val == "km";
    if (!positive.empty())
        meet(metre ? set<int>{positive == "up" ? CA::Height : CA::Depth, CA::GeoZ} : set<int>{CA::GeoZ, CA::Pressure});
    if (!axisAtt.empty()) {
        if (axisAtt == "X")
            meet({CA::GeoX, CA::Lon});
        else if (axisAtt == "Y")
            meet({CA::GeoY, CA::Lat});
        else if (axisAtt == "T")
            meet({CA::Time, CA::ReferenceTime});
        else
            meet({CA::GeoZ, CA::Pressure, CA::Height, CA::Depth});
    }
    if (t.empty())
        return; // contradicting metadata: nothing claimed
    int want = CA::Undefined;
    if (any) {
        if (t.size() == 1)
            want = *t.begin();
        else if (t.count(CA::GeoX))
            want = CA::GeoX;
        else if (t.count(CA::GeoY))
            want = CA::GeoY;
        else if (axisAtt == "T" && t.count(CA::Time))
            want = CA::Time;
        else if (metre && positive.empty() && axisAtt == "Z" && t.count(CA::Height))
            want = CA::Height;
        else if (metre && !positive.empty() && t.count(positive == "up" ? CA::Height : CA::Depth))
            want = positive == "up" ? CA::Height : CA::Depth;
        else if (t.count(CA::GeoZ))
            want = CA::GeoZ;
        else
            return;
    }
    // the standard names of projection and hybrid coordinates are specific, units say no more
    auto r = std::make_shared<TestReader>();
    r->att("", "Conventions", "CF-1.6");
    r->dim("d", 3);
    const string a = aux ? "other" : "d";
    r->var(a, CDM_DOUBLE, {"d"}, {1, 2, 3});
    vector<std::pair<string, string>> atts;
    if (!sn.val.empty())
        atts.push_back({"standard_name", sn.val});
    if (!un.val.empty())
        atts.push_back({"units", un.val});
    if (!positive.empty())
        atts.push_back({"positive", positive});
    if (!axisAtt.empty())
        atts.push_back({"axis", axisAtt});
    if (order)
        std::reverse(atts.begin(), atts.end());
    for (auto& x : atts)
        r->att(a, x.first, x.second);
    r->var("v", CDM_DOUBLE, {"d"}, {1, 2, 3});
    if (aux)
        r->att("v", "coordinates", "other");
    auto css = listCoordinateSystems(CDMReader_p(r));
    auto cs = findCompleteCoordinateSystemFor(css, "v");
    VF_CHECK(cs, "no coordinate system for the variable");
    CoordinateAxis_cp ax;
    for (auto& x : cs->getAxes())
        if (x->getName() == a)
            ax = x;
    VF_CHECK(ax, "the axis is not in the coordinate system");
    VF_CHECK(ax->getAxisType() == want, "axis of type " << ax->getAxisTypeStr() << " instead of " << CA::type2string(CA::AxisType(want)));
    VF_CHECK(ax->isExplicit() == !aux, "dimension or auxiliary");
    ex.step();
    ex.state(CA::type2string(CA::AxisType(want)) + sn.val + un.val);
}

void types(vf::Explorer& ex)
{
    ex.space("types of axes");
    vector<Hint> sn{{"", {}}, {"longitude", {CA::Lon}}, {"latitude", {CA::Lat}}, {"Longitude", {CA::Lon}}, {"forecast_reference_time", {CA::ReferenceTime}}, {"realization", {CA::Realization}},
                    {"projection_x_coordinate", {CA::GeoX}}, {"projection_y_coordinate", {CA::GeoY}}, {"grid_longitude", {CA::GeoX}}, {"grid_latitude", {CA::GeoY}},
                    {"time", {}}, {"height", {}}, {"air_pressure", {}}, {"air_temperature", {}}};
    for (const char* n : {"atmosphere_sigma_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_height_coordinate", "atmosphere_sleve_coordinate",
                          "ocean_sigma_coordinate", "ocean_s_coordinate", "ocean_sigma_z_coordinate", "ocean_double_sigma_coordinate", "ocean_s_coordinate_g1", "ocean_s_coordinate_g2"})
        sn.push_back(Hint{n, {CA::GeoZ}});
    vector<Hint> un{{"", {}}, {"1", {}}, {"m", {}}, {"km", {}}, {"degree", {}}, {"K", {}}};
    for (const char* n : {"degrees_east", "degree_east", "degrees_E", "degree_E", "degreeE", "degreesE"})
        un.push_back(Hint{n, {CA::Lon}});
    for (const char* n : {"degrees_north", "degree_north", "degrees_N", "degree_N", "degreeN", "degreesN"})
        un.push_back(Hint{n, {CA::Lat}});
    for (const char* n : {"hPa", "Pa", "mbar", "bar", "atm"})
        un.push_back(Hint{n, {CA::Pressure}});
    for (const char* n : {"level", "layer", "sigma_level"})
        un.push_back(Hint{n, {CA::GeoZ}});
    for (const char* n : {"seconds since 1970-01-01 00:00:00 +00:00", "hours since 2020-02-28", "days since 1900-01-01 12:00"})
        un.push_back(Hint{n, {CA::Time, CA::ReferenceTime}});
    for (auto& s : sn)
        for (auto& u : un)
            for (const char* p : {"", "up", "down"})
                for (const char* a : {"", "X", "Y", "Z", "T", "z"})
                    for (bool aux : {false, true})
                        for (int order : {0, 1}) {
                            if (!ex.thorough() && aux && order)
                                continue;
                            // time units without any other hint are a time
                            Hint uu = u;
                            if (u.types.count(CA::Time) && s.val != "forecast_reference_time")
                                uu.types = {CA::Time};
                            const string ps = p, as = a;
                            ex.run(
                                [=] {
                                    return "standard_name '" + s.val + "' units '" + uu.val + "' positive '" + ps + "' axis '" + as + "'" + (aux ? " auxiliary" : "") + (order ? " reversed" : "");
                                },
                                [=, &ex] { typeCase(ex, s, uu, ps, as == "z" ? "Z" : as, aux, order); });
                        }
}

// ---------------------------------------------------------------- sets of variables
struct AxDef
{
    string id;
    vector<string> dims; // ids
    int type;
    string units, sn, positive;
    bool var = true; // false: dimension without variable
    bool isDim;
};

const vector<AxDef>& defs()
{
    static const vector<AxDef> D{
        {"x", {"x"}, CA::GeoX, "m", "projection_x_coordinate", "", true, true},
        {"y", {"y"}, CA::GeoY, "m", "projection_y_coordinate", "", true, true},
        {"lo", {"lo"}, CA::Lon, "degrees_east", "longitude", "", true, true},
        {"la", {"la"}, CA::Lat, "degrees_north", "latitude", "", true, true},
        {"p", {"p"}, CA::Pressure, "hPa", "air_pressure", "down", true, true},
        {"h", {"h"}, CA::Height, "m", "height", "up", true, true},
        {"d", {"d"}, CA::Depth, "m", "depth", "down", true, true},
        {"t", {"t"}, CA::Time, "hours since 2020-02-28", "time", "", true, true},
        {"r", {"r"}, CA::ReferenceTime, "hours since 2020-02-28", "forecast_reference_time", "", true, true},
        {"e", {"e"}, CA::Realization, "1", "realization", "", true, true},
        {"n", {"n"}, CA::Undefined, "", "", "", false, true},
        // auxiliary
        {"lon", {"x", "y"}, CA::Lon, "degrees_east", "longitude", "", true, false},
        {"lat", {"x", "y"}, CA::Lat, "degrees_north", "latitude", "", true, false},
        {"frt", {}, CA::ReferenceTime, "hours since 2020-02-28", "forecast_reference_time", "", true, false},
        {"period", {"t"}, CA::Undefined, "hours", "forecast_period", "", true, false},
        {"zt", {"t"}, CA::Time, "days since 2020-02-28", "time", "", true, false},
        {"h2", {}, CA::Height, "m", "height", "up", true, false},
        {"label", {"x"}, CA::Undefined, "1", "", "", true, false},
        {"t2", {"t", "r"}, CA::Time, "hours since 2020-02-28", "time", "", true, false},
    };
    return D;
}
const AxDef& def(const string& id)
{
    for (auto& d : defs())
        if (d.id == id)
            return d;
    VF_FAIL("HARNESS: no axis " << id);
}

struct V
{
    vector<string> dims, coords;
    bool mapping;
};

string vstr(const V& v)
{
    string s = "(";
    for (auto& d : v.dims)
        s += d + " ";
    s += "|";
    for (auto& d : v.coords)
        s += " " + d;
    return s + (v.mapping ? "; mapped)" : ")");
}

/// names: the order of the names must not matter
string rename(const string& id, int scheme)
{
    static const string ORD = "xyloaphdtrenlatonfrtperiodhlabel";
    switch (scheme) {
    case 0:
        return id;
    case 1: // dimensions first
        return (def(id).isDim ? "A" : "Z") + id;
    case 2: // auxiliary first
        return (def(id).isDim ? "Z" : "A") + id;
    default: { // opposite order
        string o;
        for (char c : id)
            o += char('a' + ('z' - (c == '2' ? 'b' : c)));
        return o;
    }
    }
}

/// axes of the variable: the dimensions and the coordinates, without those of a type that a dimension has
set<string> axesOf(const V& v)
{
    set<string> a(v.dims.begin(), v.dims.end());
    for (auto& c : v.coords) {
        bool taken = false;
        for (auto& d : v.dims)
            taken |= def(c).type != CA::Undefined && def(c).type == def(d).type;
        if (!taken)
            a.insert(c);
    }
    return a;
}

string first(const set<string>& axes, const vector<int>& types)
{
    for (int t : types)
        for (int dim : {1, 0})
            for (auto& a : axes)
                if (def(a).type == t && def(a).isDim == bool(dim))
                    return a;
    return "";
}

const char* CONV[] = {"CF-1.0", "CF-1.6", "COARDS", "cf-1.8", ""};

void setCase(vf::Explorer& ex, const vector<V>& vs, int scheme, int conv, bool varsFirst)
{
    auto R = [&](const string& id) { return rename(id, scheme); };
    auto r = std::make_shared<TestReader>();
    if (*CONV[conv])
        r->att("", "Conventions", CONV[conv]);
    set<string> used;
    for (auto& v : vs) {
        used.insert(v.dims.begin(), v.dims.end());
        for (auto& c : v.coords) {
            used.insert(c);
            for (auto& d : def(c).dims)
                used.insert(d);
        }
    }
    set<string> U;
    for (auto& u : used)
        U.insert(R(u));
    for (auto& d : defs())
        if (used.count(d.id) && d.isDim)
            r->dim(R(d.id), 2);
    auto addAxes = [&] {
        for (auto& d : defs())
            if (used.count(d.id) && d.var) {
                vector<string> sh;
                size_t n = 1;
                for (auto& x : d.dims) {
                    sh.push_back(R(x));
                    n *= 2;
                }
                r->var(R(d.id), CDM_DOUBLE, sh, iota(n));
                r->att(R(d.id), "units", d.units);
                if (!d.sn.empty())
                    r->att(R(d.id), "standard_name", d.sn);
                if (!d.positive.empty())
                    r->att(R(d.id), "positive", d.positive);
            }
    };
    auto addVars = [&] {
        bool m = false;
        for (size_t i = 0; i < vs.size(); ++i) {
            vector<string> sh;
            size_t n = 1;
            for (auto& x : vs[i].dims) {
                sh.push_back(R(x));
                n *= 2;
            }
            const string name = "v" + to_string(i);
            r->var(name, CDM_DOUBLE, sh, iota(n));
            string c;
            for (auto& x : vs[i].coords)
                c += (c.empty() ? "" : " ") + R(x);
            if (!c.empty())
                r->att(name, "coordinates", c);
            if (vs[i].mapping) {
                r->att(name, "grid_mapping", "mapping");
                m = true;
            }
        }
        if (m) {
            r->var("mapping", CDM_INT, {}, {0});
            r->att("mapping", "grid_mapping_name", "polar_stereographic");
            r->att("mapping", "straight_vertical_longitude_from_pole", CDM_DOUBLE, {10});
            r->att("mapping", "latitude_of_projection_origin", CDM_DOUBLE, {90});
            r->att("mapping", "standard_parallel", CDM_DOUBLE, {60});
            r->att("mapping", "earth_radius", CDM_DOUBLE, {6371000});
        }
    };
    if (varsFirst) {
        addVars();
        addAxes();
    } else {
        addAxes();
        addVars();
    }
    auto css = listCoordinateSystems(CDMReader_p(r));
    // expected systems
    auto ren = [&](const set<string>& s) {
        set<string> o;
        for (auto& x : s)
            o.insert(R(x));
        return o;
    };
    std::map<set<string>, set<string>> want; // renamed -> ids
    for (auto& v : vs)
        if (!axesOf(v).empty())
            want[ren(axesOf(v))] = axesOf(v);
    set<set<string>> have;
    for (auto& cs : css) {
        VF_CHECK(have.insert(axesOf(cs)).second, "the same coordinate system twice");
        VF_CHECK(want.count(axesOf(cs)), "a coordinate system " << names(axesOf(cs)) << " that no variable has");
    }
    VF_CHECK(have.size() == want.size(), have.size() << " coordinate systems instead of " << want.size());
    // all pairs
    std::map<string, V> all;
    for (auto& d : defs())
        if (used.count(d.id) && d.var)
            all[R(d.id)] = V{d.dims, {}, false};
    for (size_t i = 0; i < vs.size(); ++i)
        all["v" + to_string(i)] = vs[i];
    for (auto& cs : css) {
        const set<string> ids = want.at(axesOf(cs));
        const string what = "system " + names(axesOf(cs)) + ": ";
        for (auto& a : cs->getAxes())
            for (auto& d : defs())
                if (R(d.id) == a->getName()) {
                    VF_CHECK(a->getAxisType() == d.type, what << "axis " << a->getName() << " is " << a->getAxisTypeStr());
                    VF_CHECK(a->isExplicit() == d.isDim, what << "axis " << a->getName() << " explicit " << a->isExplicit());
                }
        auto same = [&](CoordinateAxis_cp got, const vector<int>& types, const char* kind) {
            const string w = first(ids, types);
            // several auxiliary axes of one type: any
            VF_CHECK(bool(got) == !w.empty() && (!got || got->getName() == R(w)), what << kind << " axis " << nm(got) << " instead of " << (w.empty() ? "-" : R(w)));
        };
        same(cs->getGeoXAxis(), {CA::GeoX, CA::Lon}, "x");
        same(cs->getGeoYAxis(), {CA::GeoY, CA::Lat}, "y");
        same(cs->getGeoZAxis(), {CA::GeoZ, CA::Height, CA::Depth, CA::Pressure}, "z");
        same(cs->getTimeAxis(), {CA::Time}, "time");
        for (int t : {CA::Lon, CA::Lat, CA::ReferenceTime, CA::Realization, CA::Height})
            same(cs->findAxisOfType(CA::AxisType(t)), {t}, CA::type2string(CA::AxisType(t)).c_str());
        const string x = first(ids, {CA::GeoX, CA::Lon}), y = first(ids, {CA::GeoY, CA::Lat});
        const bool simple = !x.empty() && !y.empty() && def(x).isDim && def(y).isDim;
        VF_CHECK(cs->isSimpleSpatialGridded() == simple, what << "simple grid " << cs->isSimpleSpatialGridded());
        bool mapped = false;
        for (auto& v : vs)
            mapped |= axesOf(v) == ids && v.mapping;
        const bool ll = simple && x == "lo" && y == "la";
        VF_CHECK(cs->hasProjection() == (mapped || ll), what << "projection " << cs->hasProjection());
        if (mapped || ll) {
            const string pn = cs->getProjection()->getName();
            VF_CHECK(mapped && ll ? true : pn == (mapped ? "polar_stereographic" : "latitude_longitude"), what << "projection " << pn);
        }
        const string z = first(ids, {CA::GeoZ, CA::Height, CA::Depth, CA::Pressure});
        VF_CHECK(cs->hasVerticalTransformation() == !z.empty(), what << "vertical transformation " << cs->hasVerticalTransformation());
        if (!z.empty()) {
            const string n = cs->getVerticalTransformation()->getName();
            const int t = def(z).type;
            VF_CHECK(n == (t == CA::Height ? "height" : t == CA::Depth ? "depth" : "pressure"), what << "vertical transformation " << n);
        }
        for (auto& v : all) {
            const set<string> va = ren(axesOf(v.second)), ca = axesOf(cs);
            VF_CHECK(cs->isComplete(v.first) == std::includes(va.begin(), va.end(), ca.begin(), ca.end()), what << "complete for " << v.first << ": " << cs->isComplete(v.first));
            VF_CHECK(cs->isCSFor(v.first) == std::includes(ca.begin(), ca.end(), va.begin(), va.end()), what << "describes " << v.first << ": " << cs->isCSFor(v.first));
        }
        const set<string> deps = cs->getDependencyVariables();
        for (auto& v : vs)
            if (axesOf(v) == ids) {
                for (auto& c : v.coords)
                    VF_CHECK(deps.count(R(c)), what << "does not depend on the coordinate " << R(c));
                if (v.mapping && !ll)
                    VF_CHECK(deps.count("mapping"), what << "does not depend on the grid mapping");
            }
    }
    for (size_t i = 0; i < vs.size(); ++i) {
        auto cs = findCompleteCoordinateSystemFor(css, "v" + to_string(i));
        VF_CHECK(bool(cs) == !axesOf(vs[i]).empty(), "coordinate system of v" << i);
        if (cs)
            VF_CHECK(axesOf(cs) == ren(axesOf(vs[i])), "v" << i << " has the axes " << names(axesOf(cs)) << "instead of " << names(ren(axesOf(vs[i]))));
    }
    // horizontal systems
    for (bool withProjection : {true, false}) {
        std::map<string, CoordinateSystem_cp> systems;
        std::map<string, string> variables;
        vector<string> incompatible;
        const int n = findBestHorizontalCoordinateSystems(withProjection, CDMReader_p(r), systems, variables, incompatible);
        std::map<string, std::pair<string, string>> wantH; // id -> x, y
        auto hid = [&](const set<string>& ids) {
            const string x = first(ids, {CA::GeoX, CA::Lon}), y = first(ids, {CA::GeoY, CA::Lat});
            return x.empty() && y.empty() ? "" : x.empty() ? R(y) : y.empty() ? R(x) : R(x) + "," + R(y);
        };
        for (auto& cs : css) {
            const set<string> ids = want.at(axesOf(cs));
            const bool ok = withProjection ? cs->isSimpleSpatialGridded() && cs->hasProjection() : !first(ids, {CA::Lon}).empty() && !first(ids, {CA::Lat}).empty();
            if (ok)
                wantH[hid(ids)] = {first(ids, {CA::GeoX, CA::Lon}), first(ids, {CA::GeoY, CA::Lat})};
        }
        const string what = withProjection ? "with projection: " : "without projection: ";
        VF_CHECK(n == int(wantH.size()) && systems.size() == wantH.size(), what << n << " horizontal systems instead of " << wantH.size());
        set<string> geo;
        for (auto& h : wantH) {
            VF_CHECK(systems.count(h.first) && systems[h.first], what << "no system " << h.first);
            VF_CHECK(nm(systems[h.first]->getGeoXAxis()) == R(h.second.first) && nm(systems[h.first]->getGeoYAxis()) == R(h.second.second), what << "axes of " << h.first);
            if (withProjection)
                VF_CHECK(systems[h.first]->hasProjection(), what << "the system has no projection");
            for (auto& a : {h.second.first, h.second.second})
                for (auto& d : def(a).dims)
                    geo.insert(d);
        }
        if (wantH.empty())
            continue;
        const set<string> inc(incompatible.begin(), incompatible.end());
        for (size_t i = 0; i < vs.size(); ++i) {
            const string name = "v" + to_string(i);
            const string h = hid(axesOf(vs[i]));
            const bool in = !axesOf(vs[i]).empty() && wantH.count(h);
            VF_CHECK(variables.count(name) == size_t(in) && (!in || variables[name] == h), what << name << " assigned " << variables.count(name));
            bool shares = false;
            for (auto& d : vs[i].dims)
                shares |= geo.count(d) > 0;
            VF_CHECK(inc.count(name) == size_t(!in && shares) || (in && wantH.size() > 1), what << name << " incompatible " << inc.count(name));
            for (auto& s : systems)
                VF_CHECK(s.second->isCSFor(name) == (in && s.first == h), what << name << " in " << s.first << ": " << s.second->isCSFor(name));
        }
    }
    ex.step(css.size());
    ex.state(to_string(css.size()) + "," + to_string(want.size()) + vstr(vs[0]));
}

// ---------------------------------------------------------------- vertical coordinates with formula
struct Term
{
    string name;
    vector<string> dims;
};
struct Formula
{
    string sn, transformation;
    vector<Term> terms;
};

void formulaCase(vf::Explorer& ex, const Formula& f, int wrong, int sep, int extraLen, const vector<string>& shape)
{
    auto r = std::make_shared<TestReader>();
    r->att("", "Conventions", "CF-1.6");
    axis(*r, "x", {0, 1}, "m", "projection_x_coordinate");
    axis(*r, "y", {0, 1}, "m", "projection_y_coordinate");
    axis(*r, "lev", {1, 2, 3}, "1", f.sn);
    axis(*r, "time", {0, 1}, "hours since 2020-02-28", "time");
    r->dim("extra", extraLen);
    string ft;
    for (size_t i = 0; i < f.terms.size(); ++i) {
        vector<string> d = f.terms[i].dims;
        if (int(i) == wrong)
            d.push_back("extra");
        size_t n = 1;
        for (auto& x : d)
            n *= x == "lev" ? 3 : x == "extra" ? extraLen : 2;
        r->var("term_" + f.terms[i].name, CDM_DOUBLE, d, iota(n));
        ft += (sep == 2 && i ? "\n " : i ? " " : "") + f.terms[i].name + (sep == 1 ? " : " : ": ") + "term_" + f.terms[i].name;
    }
    r->att("lev", "formula_terms", ft);
    r->att("lev", "positive", "down");
    size_t n = 1;
    for (auto& x : shape)
        n *= x == "lev" ? 3 : 2;
    r->var("v", CDM_DOUBLE, shape, iota(n));
    auto css = listCoordinateSystems(CDMReader_p(r));
    auto cs = findCompleteCoordinateSystemFor(css, "v");
    VF_CHECK(cs, "no coordinate system");
    bool ok = wrong < 0 || extraLen == 1;
    for (auto& t : f.terms)
        for (auto& d : t.dims)
            ok &= std::find(shape.begin(), shape.end(), d) != shape.end();
    VF_CHECK(cs->hasVerticalTransformation() == ok, "vertical transformation " << cs->hasVerticalTransformation() << ", terms '" << ft << "'");
    if (ok) {
        auto vt = cs->getVerticalTransformation();
        VF_CHECK(vt->getName() == f.transformation, "transformation " << vt->getName());
        // the variables of the terms are the ones of the formula, each in its role
        const string p = vt->getParameterString();
        for (auto& t : f.terms) {
            VF_CHECK(p.find(t.name + "=term_" + t.name) != string::npos, "parameters " << p << " do not assign " << t.name);
            VF_CHECK(cs->getDependencyVariables().count("term_" + t.name), "does not depend on " << t.name);
        }
    }
    ex.step();
    ex.state(f.transformation + to_string(ok));
}

/// several vertical coordinates in one dataset: each has its own formula
void twoFormulas(vf::Explorer& ex, const vector<Formula>& fs, const vector<string>& levs, bool shared, bool bounds)
{
    auto r = std::make_shared<TestReader>();
    r->att("", "Conventions", "CF-1.6");
    axis(*r, "x", {0, 1}, "m", "projection_x_coordinate");
    axis(*r, "y", {0, 1}, "m", "projection_y_coordinate");
    axis(*r, "time", {0, 1}, "hours since 2020-02-28", "time");
    r->dim("nv", 2);
    vector<std::map<string, string>> roles;
    for (size_t i = 0; i < fs.size(); ++i) {
        axis(*r, levs[i], {1, 2, 3}, "1", fs[i].sn);
        std::map<string, string> role;
        string ft;
        for (auto& t : fs[i].terms) {
            const bool lev = !t.dims.empty() && t.dims[0] == "lev";
            string tn = shared && !lev ? "term_" + t.name + to_string(t.dims.size()) : levs[i] + "_" + t.name;
            vector<string> d = t.dims;
            if (lev)
                d = {levs[i]};
            if (!r->getCDM().hasVariable(tn)) {
                size_t n = 1;
                for (auto& x : d)
                    n *= x == levs[i] ? 3 : 2;
                r->var(tn, CDM_DOUBLE, d, iota(n));
            }
            ft += (ft.empty() ? "" : " ") + t.name + ": " + tn;
            role[t.name] = tn;
        }
        roles.push_back(role);
        r->att(levs[i], "formula_terms", ft);
        if (bounds) {
            r->var(levs[i] + "_bnds", CDM_DOUBLE, {"nv", levs[i]}, iota(6));
            r->att(levs[i], "bounds", levs[i] + "_bnds");
        }
    }
    for (size_t i = 0; i < fs.size(); ++i)
        r->var("v" + to_string(i), CDM_DOUBLE, {"x", "y", levs[i], "time"}, iota(24));
    auto css = listCoordinateSystems(CDMReader_p(r));
    for (size_t i = 0; i < fs.size(); ++i) {
        auto cs = findCompleteCoordinateSystemFor(css, "v" + to_string(i));
        VF_CHECK(cs && cs->hasVerticalTransformation(), "no vertical transformation for " << levs[i]);
        auto vt = cs->getVerticalTransformation();
        VF_CHECK(vt->getName() == fs[i].transformation, levs[i] << ": transformation " << vt->getName() << " instead of " << fs[i].transformation);
        const string p = vt->getParameterString() + ",";
        for (auto& t : roles[i]) {
            VF_CHECK(p.find(t.first + "=" + t.second) != string::npos, levs[i] << ": parameters " << p << " do not assign " << t.first);
            VF_CHECK(cs->getDependencyVariables().count(t.second), levs[i] << " does not depend on " << t.second);
        }
        for (auto& d : cs->getDependencyVariables())
            for (size_t j = 0; j < fs.size(); ++j)
                if (j != i)
                    VF_CHECK(d.compare(0, levs[j].size(), levs[j]), levs[i] << " depends on " << d);
        if (bounds)
            VF_CHECK(cs->getDependencyVariables().count(levs[i] + "_bnds"), levs[i] << " does not depend on its bounds");
        // no parameter beyond those of the formula
        for (const char* n : {"ap=", "a=", "p0=", "ptop=", "depth_c="}) {
            const size_t at = p.find(n);
            const bool start = at != string::npos && (at == 0 || !isalnum(p[at - 1]));
            if (start && !roles[i].count(string(n, strlen(n) - 1)))
                VF_CHECK(at + strlen(n) >= p.size() || p[at + strlen(n)] == ',', levs[i] << ": parameters " << p << " assign " << n << " which is not a term");
        }
    }
    ex.step(fs.size());
    ex.state(fs[0].transformation + fs.back().transformation + to_string(shared) + to_string(fs[0].terms.size()) + to_string(fs.back().terms.size()));
}

/// heights above the ground and above the sea level are different things
void altitudeCase(vf::Explorer& ex, const string& name, const string& att, const string& val, bool aux)
{
    auto r = std::make_shared<TestReader>();
    r->att("", "Conventions", "CF-1.6");
    axis(*r, "x", {0, 1}, "m", "projection_x_coordinate");
    axis(*r, "y", {0, 1}, "m", "projection_y_coordinate");
    if (!aux)
        r->dim(name, 2);
    r->var(name, CDM_DOUBLE, aux ? vector<string>{} : vector<string>{name}, iota(aux ? 1 : 2));
    r->att(name, "units", "m");
    r->att(name, "positive", "up");
    if (!att.empty())
        r->att(name, att, val);
    r->var("v", CDM_DOUBLE, aux ? vector<string>{"x", "y"} : vector<string>{"x", "y", name}, iota(aux ? 4 : 8));
    if (aux)
        r->att("v", "coordinates", name);
    auto alt = [](const string& s) {
        return s == "altitude" || s == "height_above_msl" || s == "height_above_mean_sea_level" || s == "height_above_geopotential_datum" || s == "height_above_reference_ellipsoid";
    };
    const bool want = alt(name) || alt(val);
    auto cs = findCompleteCoordinateSystemFor(listCoordinateSystems(CDMReader_p(r)), "v");
    VF_CHECK(cs && cs->hasVerticalTransformation(), "no vertical transformation");
    VF_CHECK(cs->getVerticalTransformation()->getName() == (want ? "altitude" : "height"), "transformation " << cs->getVerticalTransformation()->getName());
    const string p = cs->getVerticalTransformation()->getParameterString();
    VF_CHECK(p == (want ? "a=" : "h=") + name, "height described as " << p);
    ex.step();
    ex.state(p);
}

void formulas(vf::Explorer& ex)
{
    for (const char* n : {"lev", "height", "altitude", "height_above_msl", "height_above_mean_sea_level", "height_above_geopotential_datum", "height_above_reference_ellipsoid", "k"})
        for (const char* a : {"", "standard_name", "computed_standard_name"})
            for (const char* v : {"height", "altitude", "height_above_msl", "height_above_mean_sea_level", "height_above_geopotential_datum", "height_above_reference_ellipsoid"})
                for (bool aux : {false, true}) {
                    const string ns = n, as = a, vs = *a ? v : "";
                    ex.run([=] { return "height axis " + ns + " " + as + " " + vs + (aux ? " auxiliary" : ""); }, [=, &ex] { altitudeCase(ex, ns, as, vs, aux); });
                }
    ex.space("vertical coordinates with formula terms");
    const vector<string> Z{"lev"}, H{"x", "y"}, HT{"x", "y", "time"}, S{};
    const vector<Formula> F{
        {"atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate_1", {{"ap", Z}, {"b", Z}, {"ps", HT}}},
        {"atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate_1", {{"ap", Z}, {"b", Z}, {"ps", H}, {"p0", S}}},
        {"atmosphere_hybrid_sigma_pressure_coordinate", "atmosphere_hybrid_sigma_pressure_coordinate_2", {{"a", Z}, {"b", Z}, {"ps", HT}, {"p0", S}}},
        {"atmosphere_sigma_coordinate", "atmosphere_sigma_coordinate", {{"sigma", Z}, {"ps", HT}, {"ptop", S}}},
        {"atmosphere_hybrid_height_coordinate", "atmosphere_hybrid_height_coordinate", {{"a", Z}, {"b", Z}, {"orog", H}}},
        {"ocean_s_coordinate_g1", "ocean_s_coordinate_g1", {{"s", Z}, {"C", Z}, {"eta", HT}, {"depth", H}, {"depth_c", S}}},
        {"ocean_s_coordinate_g2", "ocean_s_coordinate_g2", {{"s", Z}, {"C", Z}, {"eta", HT}, {"depth", H}, {"depth_c", S}}},
    };
    const vector<vector<string>> LV{{"lev", "mid"}, {"mid", "lev"}, {"a", "zzz"}, {"zzz", "a"}};
    for (auto& f : F)
        for (auto& g : F)
            for (size_t l = 0; l < LV.size(); ++l)
                for (bool shared : {false, true})
                    for (bool bounds : {false, true})
                        ex.run(
                            [=] { return f.transformation + to_string(f.terms.size()) + " and " + g.transformation + to_string(g.terms.size()) + " levels " + LV[l][0] + (shared ? " shared terms" : "") + (bounds ? " bounds" : ""); },
                            [=, &ex] { twoFormulas(ex, {f, g}, LV[l], shared, bounds); });
    for (auto& f : F)
        for (auto& g : F)
            for (auto& h : F)
                for (bool shared : {false, true})
                    ex.run([=] { return f.transformation + to_string(f.terms.size()) + " and " + g.transformation + to_string(g.terms.size()) + " and " + h.transformation + to_string(h.terms.size()) + (shared ? " shared terms" : ""); },
                           [=, &ex] { twoFormulas(ex, {f, g, h}, {"kk", "bb", "mm"}, shared, false); });
    const vector<vector<string>> SH{{"x", "y", "lev", "time"}, {"x", "y", "lev"}, {"lev"}, {"time", "lev", "y", "x"}, {"lev", "time"}};
    for (auto& f0 : F) {
        vector<size_t> p;
        int nperm = 0;
        for (size_t i = 0; i < f0.terms.size(); ++i)
            p.push_back(i);
        do {
            ++nperm;
            Formula f = f0;
            string d;
            for (size_t i = 0; i < p.size(); ++i) {
                f.terms[i] = f0.terms[p[i]];
                d += f.terms[i].name + " ";
            }
            for (int wrong = -1; wrong < int(p.size()); ++wrong) {
                if (wrong >= 0 && f.terms[wrong].name == "b")
                    continue;
                for (int sep : {0, 1, 2})
                    for (int el : {1, 2}) {
                        if (!ex.thorough() && sep != nperm % 3)
                            continue;
                        if (wrong < 0 && el == 2)
                            continue;
                        for (size_t s = 0; s < SH.size(); ++s) {
                            if (!ex.thorough() && p.size() > 4 && (p[0] > p[2] || p[1] > p[4]))
                                continue;
                            ex.run(
                                [=] {
                                    return f.transformation + " terms " + d + "separator " + to_string(sep) + " shape " + to_string(s) +
                                           (wrong >= 0 ? ", extra dimension of length " + to_string(el) + " at " + f.terms[wrong].name : "");
                                },
                                [=, &ex] { formulaCase(ex, f, wrong, sep, el, SH[s]); });
                        }
                    }
            }
        } while (std::next_permutation(p.begin(), p.end()));
    }
}

// ---------------------------------------------------------------- vectors
void vectorCase(vf::Explorer& ex, const vector<std::pair<string, string>>& pairs, const vector<int>& order, const vector<int>& shapes, bool lonlat)
{
    auto r = std::make_shared<TestReader>();
    r->att("", "Conventions", "CF-1.6");
    axis(*r, "x", {0, 1}, "m", "projection_x_coordinate");
    axis(*r, "y", {0, 1}, "m", "projection_y_coordinate");
    axis(*r, "time", {0, 1}, "hours since 2020-02-28", "time");
    const vector<string> SH[2] = {{"x", "y"}, {"x", "y", "time"}};
    auto name = [](int i) { return "w" + to_string(i / 2) + (i % 2 ? "y" : "x"); };
    for (int i : order) {
        auto& sh = SH[shapes[i]];
        r->var(name(i), CDM_DOUBLE, sh, iota(sh.size() == 2 ? 4 : 8));
        r->att(name(i), "standard_name", i % 2 ? pairs[i / 2].second : pairs[i / 2].first);
    }
    enhanceVectorProperties(CDMReader_p(r));
    for (size_t i = 0; i < shapes.size(); ++i) {
        const CDMVariable& v = r->getCDM().getVariable(name(i));
        const int o = i ^ 1;
        const bool want = shapes[i] == shapes[o];
        VF_CHECK(v.isSpatialVector() == want, name(i) << " is a vector component: " << v.isSpatialVector());
        if (want) {
            VF_CHECK(v.getSpatialVectorCounterpart() == name(o), name(i) << " is a vector with " << v.getSpatialVectorCounterpart());
            const auto dir = v.getSpatialVectorDirection();
            VF_CHECK(dir == (lonlat ? (i % 2 ? CDMVariable::SPATIAL_VECTOR_LAT : CDMVariable::SPATIAL_VECTOR_LON) : (i % 2 ? CDMVariable::SPATIAL_VECTOR_Y : CDMVariable::SPATIAL_VECTOR_X)),
                     "direction of " << name(i) << ": " << dir);
        }
    }
    ex.step();
    ex.state(name(order[0]) + to_string(shapes[0]) + to_string(shapes[1]));
}

void vectors(vf::Explorer& ex)
{
    ex.space("vectors by standard name");
    const vector<vector<std::pair<string, string>>> XY{{{"x_wind", "y_wind"}}, {{"sea_water_x_velocity", "sea_water_y_velocity"}}, {{"x_wind", "y_wind"}, {"sea_ice_x_velocity", "sea_ice_y_velocity"}},
                                                       {{"x_wind", "y_wind"}, {"x_wind_gust", "y_wind_gust"}},
                                                       {{"sea_water_x_velocity", "sea_water_y_velocity"}, {"sea_water_x_velocity_due_to_tides", "sea_water_y_velocity_due_to_tides"}}},
        LL{{{"eastward_wind", "northward_wind"}}, {{"eastward_wind", "northward_wind"}, {"eastward_wind_shear", "northward_wind_shear"}},
           {{"eastward_sea_water_velocity", "northward_sea_water_velocity"}, {"eastward_sea_water_velocity_assuming_no_tide", "northward_sea_water_velocity_assuming_no_tide"}},
           {{"surface_downward_eastward_stress", "surface_downward_northward_stress"}}};
    for (int ll : {0, 1})
        for (auto& p : ll ? LL : XY) {
            const int n = 2 * p.size();
            vector<int> o;
            for (int i = 0; i < n; ++i)
                o.push_back(i);
            do
                for (int m = 0; m < (1 << n); ++m) {
                    vector<int> sh;
                    for (int i = 0; i < n; ++i)
                        sh.push_back(m >> i & 1);
                    ex.run(
                        [=] {
                            string d;
                            for (int i : o)
                                d += " " + (i % 2 ? p[i / 2].second : p[i / 2].first) + "/" + to_string(sh[i]);
                            return "vectors" + d;
                        },
                        [=, &ex] { vectorCase(ex, p, o, sh, ll); });
                }
            while (std::next_permutation(o.begin(), o.end()));
        }
}

} // namespace

void vf::explore(Explorer& ex)
{
    vectors(ex);
    types(ex);
    formulas(ex);
    ex.space("sets of variables");
    vector<V> vs;
    const vector<vector<string>> SH{{"x", "y"}, {"x", "y", "t"}, {"x", "y", "p", "t"}, {"x", "y", "h", "e", "t"}, {"x", "y", "d"}, {"lo", "la"}, {"lo", "la", "p", "t"}, {"t"}, {"x", "t"}, {"p", "t"},
                                    {"x", "y", "n"}, {"y", "x"}, {"x", "y", "t", "r"}, {}, {"lo", "la", "x"}};
    const vector<vector<string>> CO{{}, {"lon", "lat"}, {"lat", "lon", "frt"}, {"period"}, {"h2"}, {"label"}, {"zt", "lon", "lat"}, {"t2"}, {"t2", "lon", "lat"}};
    for (auto& s : SH)
        for (auto& c : CO) {
            bool ok = true;
            for (auto& x : c)
                for (auto& d : def(x).dims)
                    ok &= std::find(s.begin(), s.end(), d) != s.end();
            if (!ok)
                continue;
            const bool xy = std::find(s.begin(), s.end(), "x") != s.end() && std::find(s.begin(), s.end(), "y") != s.end();
            vs.push_back(V{s, c, false});
            if (xy)
                vs.push_back(V{s, c, true});
        }
    for (size_t i = 0; i < vs.size(); ++i)
        for (int scheme = 0; scheme < 4; ++scheme) {
            for (int conv = 0; conv < 5; ++conv)
                for (bool vf : {false, true})
                    ex.run([=] { return vstr(vs[i]) + " names " + to_string(scheme) + " '" + CONV[conv] + "'" + (vf ? " axes last" : ""); }, [=, &ex] { setCase(ex, {vs[i]}, scheme, conv, vf); });
            for (size_t j = 0; j < vs.size(); ++j) {
                const bool vf = (i + j) % 2;
                if (!ex.thorough() && scheme % 2 != int(i * 3 + j) / 2 % 2)
                    continue;
                ex.run([=] { return vstr(vs[i]) + " " + vstr(vs[j]) + " names " + to_string(scheme) + (vf ? " axes last" : ""); }, [=, &ex] { setCase(ex, {vs[i], vs[j]}, scheme, 1, vf); });
                if (ex.thorough() && scheme < 3)
                    for (size_t k = 0; k < vs.size(); ++k)
                        ex.run([=] { return vstr(vs[i]) + " " + vstr(vs[j]) + " " + vstr(vs[k]) + " names " + to_string(scheme); }, [=, &ex] { setCase(ex, {vs[i], vs[j], vs[k]}, scheme, 1, false); });
            }
        }
}
