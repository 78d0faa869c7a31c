// C27: the C interface delivers what the C++ interface delivers, and reports errors by its return values.
#include "fx.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/c_fimex.h"
#include "fimex/coordSys/CoordinateSystem.h"
#include "fimex/mifi_cdm_reader.h"

#include <algorithm>
#include <cstring>
#include <fstream>

using namespace fx;
using std::to_string;

namespace {

/// every call goes through here: an exception must not leave a C function
#define C(call) [&] { \
    try { \
        return (call); \
    } catch (std::exception & e_) { \
        VF_FAIL("exception leaves " #call ": " << e_.what()); \
    } \
}()

struct Reader
{
    mifi_cdm_reader* r;
    explicit Reader(mifi_cdm_reader* p) : r(p) {}
    explicit Reader(CDMReader_p p) : r(new mifi_cdm_reader(p)) {}
    Reader(const Reader&) = delete;
    ~Reader() { mifi_free_cdm_reader(r); }
    operator mifi_cdm_reader*() const { return r; }
};
struct Slice
{
    mifi_slicebuilder* s;
    explicit Slice(mifi_slicebuilder* p) : s(p) {}
    Slice(const Slice&) = delete;
    ~Slice() { mifi_free_slicebuilder(s); }
    operator mifi_slicebuilder*() const { return s; }
};

string take(const char* c)
{
    VF_CHECK(c, "null instead of a string");
    string s = c;
    free(const_cast<char*>(c));
    return s;
}

/// a function copying a string, with every capacity
template <class F>
void copies(const F& f, const string& want, const string& what, int none = 0)
{
    for (int n = 0; n <= int(want.size()) + 3; ++n) {
        vector<char> buf(n + 8, '#');
        const int got = f(buf.data() + 4, n);
        const bool fits = int(want.size()) + 1 <= n;
        for (int i = 0; i < 4; ++i)
            VF_CHECK(buf[i] == '#' && buf[n + 4 + i] == '#', what << " writes outside of the buffer of " << n);
        if (none) {
            VF_CHECK(got == none, what << " returns " << got << " instead of " << none);
            continue;
        }
        VF_CHECK(got == (fits ? int(want.size()) + 1 : 0), what << " returns " << got << " for capacity " << n << " and '" << want << "'");
        if (fits)
            VF_CHECK(want == buf.data() + 4, what << " copies '" << (buf.data() + 4) << "'");
    }
}

// ---------------------------------------------------------------- slices
struct Dim
{
    const char *name, *units, *sn;
    size_t len;
};
const Dim DIMS[] = {{"x", "m", "projection_x_coordinate", 3}, {"y", "m", "projection_y_coordinate", 2}, {"time", "hours since 2020-02-28 00:00:00", "time", 2}, {"lev", "hPa", "", 3}};

struct VarDef
{
    string name;
    vector<int> dims;
    int packing; // 0: double, 1: short with scale, offset, fill, 2: float with fill, 3: int
};

const char* unitOf(const VarDef& v)
{
    return v.packing == 3 ? "" : "K";
}

VD physical(const VarDef& v, VD& raw)
{
    size_t n = 1;
    for (int d : v.dims)
        n *= DIMS[d].len;
    VD p;
    for (size_t i = 0; i < n; ++i) {
        double x = 3 + 7 * i % 90;
        if (v.packing == 1 && i % 5 == 2)
            x = -999;
        if (v.packing == 2 && i % 4 == 3)
            x = 99;
        raw.push_back(x);
        p.push_back(v.packing == 1 ? (x == -999 ? NAN : x * 0.5 + 250) : v.packing == 2 && x == 99 ? NAN : x);
    }
    return p;
}

std::shared_ptr<TestReader> dataset(const vector<VarDef>& vs, bool coords, bool mapping, SliceMode mode = BY_BUILDER)
{
    auto r = std::make_shared<TestReader>(mode);
    r->att("", "Conventions", "CF-1.6");
    bool unlimited = true; // only as the slowest dimension
    for (auto& v : vs)
        for (size_t i = 0; i + 1 < v.dims.size(); ++i)
            unlimited &= v.dims[i] != 2;
    for (int d = 0; d < 4; ++d) {
        bool used = d < 2 && coords;
        for (auto& v : vs)
            used |= std::count(v.dims.begin(), v.dims.end(), d) > 0;
        if (!used)
            continue;
        axis(*r, DIMS[d].name, iota(DIMS[d].len, 5), DIMS[d].units, DIMS[d].sn, CDM_DOUBLE, d == 2 && unlimited);
    }
    if (coords) {
        r->var("lon", CDM_DOUBLE, {"x", "y"}, iota(6));
        r->att("lon", "units", "degrees_east");
        r->var("latitude_of_grid", CDM_DOUBLE, {"x", "y"}, iota(6));
        r->att("latitude_of_grid", "units", "degrees_north");
    }
    for (auto& v : vs) {
        VD raw;
        physical(v, raw);
        vector<string> sh;
        for (int d : v.dims)
            sh.push_back(DIMS[d].name);
        static const CDMDataType T[] = {CDM_DOUBLE, CDM_SHORT, CDM_FLOAT, CDM_INT};
        r->var(v.name, T[v.packing], sh, raw);
        if (*unitOf(v))
            r->att(v.name, "units", unitOf(v));
        if (v.packing == 1) {
            r->att(v.name, "_FillValue", CDM_SHORT, {-999});
            r->att(v.name, "scale_factor", CDM_DOUBLE, {0.5});
            r->att(v.name, "add_offset", CDM_DOUBLE, {250});
        } else if (v.packing == 2)
            r->att(v.name, "_FillValue", CDM_FLOAT, {99});
        if (coords && std::count(v.dims.begin(), v.dims.end(), 0) && std::count(v.dims.begin(), v.dims.end(), 1))
            r->att(v.name, "coordinates", "lon latitude_of_grid");
        if (mapping && std::count(v.dims.begin(), v.dims.end(), 0) && std::count(v.dims.begin(), v.dims.end(), 1))
            r->att(v.name, "grid_mapping", "crs");
    }
    if (mapping) {
        r->var("crs", CDM_INT, {}, {0});
        r->att("crs", "grid_mapping_name", "polar_stereographic");
        r->att("crs", "straight_vertical_longitude_from_pole", CDM_DOUBLE, {10});
        r->att("crs", "latitude_of_projection_origin", CDM_DOUBLE, {90});
        r->att("crs", "standard_parallel", CDM_DOUBLE, {60});
        r->att("crs", "earth_radius", CDM_DOUBLE, {6371000});
    }
    return r;
}

string vdesc(const vector<VarDef>& vs)
{
    string s;
    for (auto& v : vs) {
        s += " " + v.name + "(";
        for (int d : v.dims)
            s += string(DIMS[d].name) + " ";
        s += "packing " + to_string(v.packing) + ")";
    }
    return s;
}

bool has(const VarDef& v, int d)
{
    return std::count(v.dims.begin(), v.dims.end(), d) > 0;
}

void datasetCase(vf::Explorer& ex, const vector<VarDef>& vs, bool coords, bool mapping, SliceMode mode)
{
    auto src = dataset(vs, coords, mapping, mode);
    const string before = dump(src);
    Reader r{CDMReader_p(src)};
    // names and sizes
    const auto& vars = src->getCDM().getVariables();
    VF_CHECK(C(mifi_get_variable_number(r)) == vars.size(), "number of variables");
    for (size_t i = 0; i < vars.size(); ++i) {
        VF_CHECK(vars[i].getName() == C(mifi_get_variable_name(r, i)), "name of variable " << i);
        VF_CHECK(C(mifi_get_variable_type(r, vars[i].getName().c_str())) == unsigned(vars[i].getDataType()), "type of variable " << i);
    }
    const auto& dims = src->getCDM().getDimensions();
    VF_CHECK(C(mifi_get_dimension_number(r)) == dims.size(), "number of dimensions");
    bool unlim = false;
    for (size_t i = 0; i < dims.size(); ++i) {
        VF_CHECK(dims[i].getName() == C(mifi_get_dimension_name(r, i)), "name of dimension " << i);
        VF_CHECK(C(mifi_get_dimension_size(r, dims[i].getName().c_str())) == dims[i].getLength(), "size of dimension " << i);
        unlim |= dims[i].isUnlimited();
    }
    VF_CHECK(string(C(mifi_get_unlimited_dimension_name(r))) == (unlim ? "time" : ""), "unlimited dimension");
    for (size_t i : {vars.size(), vars.size() + 1, size_t(-1)}) {
        const char* n = C(mifi_get_variable_name(r, i));
        VF_CHECK(n && !*n, "name of a variable that does not exist");
        n = C(mifi_get_dimension_name(r, i < vars.size() + 2 ? i - vars.size() + dims.size() : i));
        VF_CHECK(n && !*n, "name of a dimension that does not exist");
    }
    VF_CHECK(C(mifi_get_variable_type(r, "nothere")) == CDM_NAT, "type of a variable that does not exist");
    VF_CHECK(C(mifi_get_dimension_size(r, "nothere")) == 0, "size of a dimension that does not exist");
    VF_CHECK(C(mifi_new_slicebuilder(r, "nothere")) == nullptr, "slice of a variable that does not exist");
    double* dd = nullptr;
    size_t nn = 77;
    VF_CHECK(C(mifi_get_double_data(r, "nothere", &dd, &nn)) != 0, "data of a variable that does not exist");
    VF_CHECK(C(mifi_get_double_dataslice(r, "nothere", 0, &dd, &nn)) != 0, "data of a variable that does not exist");
    VF_CHECK(C(mifi_get_var_longitude(r, "nothere")) == nullptr && C(mifi_get_var_latitude(r, "nothere")) == nullptr, "coordinates of a variable that does not exist");
    for (auto& v : vs) {
        VD raw;
        const VD all = physical(v, raw);
        const char* vn = v.name.c_str();
        // longitude and latitude
        const bool ll = coords && has(v, 0) && has(v, 1);
        char* lo = C(mifi_get_var_longitude(r, vn));
        char* la = C(mifi_get_var_latitude(r, vn));
        VF_CHECK(ll ? lo && string(lo) == "lon" : !lo, "longitude of " << v.name << " is " << (lo ? lo : "null"));
        VF_CHECK(ll ? la && string(la) == "latitude_of_grid" : !la, "latitude of " << v.name << " is " << (la ? la : "null"));
        free(lo);
        free(la);
        copies([&](char* b, int n) { return C(mifi_get_var_longitude_cpy(r, vn, b, n)); }, ll ? "lon" : "", "longitude", ll ? 0 : -1);
        copies([&](char* b, int n) { return C(mifi_get_var_latitude_cpy(r, vn, b, n)); }, ll ? "latitude_of_grid" : "", "latitude", ll ? 0 : -1);
        // all data and one position of the unlimited dimension
        VF_CHECK(C(mifi_get_double_data(r, vn, &dd, &nn)) == 0, "reading " << v.name);
        expectClose(VD(dd, dd + nn), all, "all of " + v.name, 1e-12);
        free(dd);
        VS len, st(v.dims.size(), 0), sz;
        for (int d : v.dims)
            len.push_back(DIMS[d].len);
        for (size_t t = 0; t < 2; ++t) {
            VS s = st, z = len;
            for (size_t i = 0; i < v.dims.size() && unlim; ++i)
                if (v.dims[i] == 2) {
                    s[i] = t;
                    z[i] = 1;
                }
            if (!(has(v, 2) && unlim) && t)
                continue;
            VF_CHECK(C(mifi_get_double_dataslice(r, vn, t, &dd, &nn)) == 0, "reading a slice of " << v.name);
            expectClose(VD(dd, dd + nn), refSlice(all, len, s, z), "position " + to_string(t) + " of " + v.name, 1e-12);
            free(dd);
        }
        // slice builder
        Slice sb(C(mifi_new_slicebuilder(r, vn)));
        VF_CHECK(sb, "no slice for " << v.name);
        VF_CHECK(C(mifi_slicebuilder_ndims(sb)) == int(v.dims.size()), "number of dimensions of " << v.name);
        for (size_t i = 0; i < v.dims.size(); ++i) {
            VF_CHECK(take(C(mifi_slicebuilder_dimname(sb, i))) == DIMS[v.dims[i]].name, "dimension " << i << " of " << v.name);
            copies([&](char* b, int n) { return C(mifi_slicebuilder_dimname_cpy(sb, i, b, n)); }, DIMS[v.dims[i]].name, "dimension name");
        }
        for (int bad : {int(v.dims.size()), -1})
            VF_CHECK(take(C(mifi_slicebuilder_dimname(sb, bad))).empty(), "name of a dimension that does not exist");
        VF_CHECK(C(mifi_slicebuilder_has_CS(sb)) == (v.dims.empty() ? 0 : 1), "coordinate system of " << v.name);
        int types[8];
        VF_CHECK((C(mifi_slicebuilder_get_axistype(sb, types)) == 0) == !v.dims.empty(), "types of axes");
        for (size_t i = 0; i < v.dims.size(); ++i) {
            static const CoordinateAxis::AxisType T[] = {CoordinateAxis::GeoX, CoordinateAxis::GeoY, CoordinateAxis::Time, CoordinateAxis::Pressure};
            VF_CHECK(types[i] == CoordinateAxis::type2int(T[v.dims[i]]), "type of axis " << DIMS[v.dims[i]].name << " of " << v.name);
        }
        const bool pr = mapping && has(v, 0) && has(v, 1);
        string wantProj;
        if (pr)
            wantProj = findCompleteCoordinateSystemFor(listCoordinateSystems(CDMReader_p(src)), v.name)->getProjection()->getProj4String();
        VF_CHECK(take(C(mifi_slicebuilder_get_proj4(sb))) == wantProj, "projection");
        copies([&](char* b, int n) { return C(mifi_slicebuilder_get_proj4_cpy(sb, b, n)); }, wantProj, "projection");
        VF_CHECK(C(mifi_slicebuilder_set_dim_start_size(sb, "nothere", 0, 1)) != 0, "slice of a dimension that does not exist");
        // all slices
        vector<std::pair<size_t, size_t>> none;
        std::function<void(size_t, VS, VS)> rec = [&](size_t i, VS s, VS z) {
            if (i < v.dims.size()) {
                for (size_t a = 0; a < len[i]; ++a)
                    for (size_t n = 1; a + n <= len[i]; ++n) {
                        s.push_back(a);
                        z.push_back(n);
                        rec(i + 1, s, z);
                        s.pop_back();
                        z.pop_back();
                    }
                return;
            }
            for (size_t k = 0; k < s.size(); ++k)
                VF_CHECK(C(mifi_slicebuilder_set_dim_start_size(sb, DIMS[v.dims[k]].name, s[k], z[k])) == 0, "setting a slice");
            unsigned gs[8], gz[8];
            VF_CHECK(C(mifi_slicebuilder_get_start_size(sb, gs, gz)) == 0, "asking for the slice");
            for (size_t k = 0; k < s.size(); ++k)
                VF_CHECK(gs[k] == s[k] && gz[k] == z[k], "start and size of dimension " << k);
            VD want = refSlice(all, len, s, z);
            for (const char* unit : {"", "degC", "K", "m"}) {
                VD buf(want.size() + 2, -12345);
                nn = 99;
                const bool bad = *unit && (string(unit) == "m" || !*unitOf(v));
                const int rc = C(mifi_fill_scaled_double_dataslice(r, vn, sb, unit, buf.data() + 1, &nn));
                VF_CHECK(bad ? rc != 0 : rc == 0, "reading in unit '" << unit << "' returns " << rc);
                VF_CHECK(buf.front() == -12345 && buf.back() == -12345, "written outside of the buffer");
                if (bad)
                    continue;
                VF_CHECK(nn == want.size(), nn << " values");
                VD w = want;
                if (string(unit) == "degC")
                    for (double& x : w)
                        x -= 273.15;
                expectClose(VD(buf.begin() + 1, buf.end() - 1), w, "slice of " + v.name + " in unit '" + unit + "'", 1e-9);
                ex.step();
            }
        };
        rec(0, {}, {});
        // beyond the dimension
        for (size_t k = 0; k < v.dims.size(); ++k) {
            unsigned s0[8], z0[8], s1[8], z1[8];
            mifi_slicebuilder_get_start_size(sb, s0, z0);
            for (auto& p : vector<std::pair<unsigned, unsigned>>{{0, unsigned(len[k]) + 1}, {unsigned(len[k]), 1}, {1, unsigned(len[k])}, {unsigned(-1), 2}, {2, unsigned(-1)}})
                VF_CHECK(C(mifi_slicebuilder_set_dim_start_size(sb, DIMS[v.dims[k]].name, p.first, p.second)) != 0, "slice " << p.first << "+" << p.second << " of a dimension of " << len[k]);
            mifi_slicebuilder_get_start_size(sb, s1, z1);
            for (size_t i = 0; i < v.dims.size(); ++i)
                VF_CHECK(s0[i] == s1[i] && z0[i] == z1[i], "a rejected slice changes the slice");
        }
    }
    VF_CHECK(dump(src) == before, "reading changes the dataset");
    ex.state(vdesc(vs) + to_string(coords) + to_string(mapping));
}

// ---------------------------------------------------------------- callbacks
int calls;
VD given;
int addOne(mifi_cdm_reader*, const char*, size_t, double* d, size_t n)
{
    ++calls;
    given.assign(d, d + n);
    for (size_t i = 0; i < n; ++i)
        d[i] = std::isnan(d[i]) ? -1 : d[i] + 1;
    return 0;
}
int missing(mifi_cdm_reader*, const char*, size_t, double* d, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        d[i] = i % 2 ? NAN : -999;
    return 0;
}
int failing(mifi_cdm_reader*, const char*, size_t, double*, size_t)
{
    return 5;
}
/// reads a second variable within the callback
int sumWithB(mifi_cdm_reader* r, const char*, size_t pos, double* d, size_t n)
{
    double* o = nullptr;
    size_t m = 0;
    if (mifi_get_double_dataslice(r, "b", pos, &o, &m) || m != n)
        return 1;
    for (size_t i = 0; i < n; ++i)
        d[i] += o[i];
    free(o);
    return 0;
}

void callbackCase(vf::Explorer& ex, const vector<VarDef>& vs, int cb, SliceMode mode, bool inMemory, bool chained)
{
    auto src = dataset(vs, false, false, mode);
    const VarDef& v = vs[0];
    VD raw, rawB;
    const VD all = physical(v, raw), allB = physical(vs[1], rawB);
    if (inMemory) // data kept in the description of the dataset
        const_cast<CDM&>(src->getCDM()).getVariable(v.name).setData(src->full[v.name]);
    const string before = dump(src);
    mifi_cdm_reader* plain = new mifi_cdm_reader(CDMReader_p(src));
    VF_CHECK(C(mifi_set_callback_double(plain, v.name.c_str(), addOne)) != 0, "a callback for another kind of reader");
    Reader r(C(mifi_new_c_reader(plain)));
    VF_CHECK(r, "no reader");
    mifi_free_cdm_reader(plain); // the reader in use remains
    VF_CHECK(C(mifi_set_callback_double(r, "nothere", addOne)) != 0, "a callback for a variable that does not exist");
    static const doubleDatasliceCallbackPtr CB[] = {addOne, missing, failing, sumWithB};
    VF_CHECK(C(mifi_set_callback_double(r, v.name.c_str(), CB[cb])) == 0, "setting the callback");
    VF_CHECK(C(mifi_get_variable_type(r, v.name.c_str())) == CDM_DOUBLE, "type with callback");
    mifi_cdm_reader* q = r;
    if (chained) {
        q = C(mifi_new_c_reader(r));
        VF_CHECK(q, "no reader");
    }
    VS len, zero(v.dims.size(), 0);
    for (int d : v.dims)
        len.push_back(DIMS[d].len);
    const size_t nt = has(v, 2) ? 2 : 1;
    auto expect = [&](const VD& x, const VD& b) {
        VD w;
        for (size_t i = 0; i < x.size(); ++i)
            w.push_back(cb == 0 ? (std::isnan(x[i]) ? -1 : x[i] + 1) : cb == 1 ? (i % 2 ? NAN : -999) : x[i] + b[i]);
        return w;
    };
    auto slice = [&](const VD& x, size_t t) {
        VS s = zero, z = len;
        for (size_t i = 0; i < v.dims.size(); ++i)
            if (v.dims[i] == 2) {
                s[i] = t;
                z[i] = 1;
            }
        return refSlice(x, len, s, z);
    };
    for (int round = 0; round < 2; ++round) { // twice: the data of the source is not changed
        for (size_t t = 0; t < nt; ++t) {
            double* d = nullptr;
            size_t n = 0;
            calls = 0;
            const int rc = C(mifi_get_double_dataslice(q, v.name.c_str(), t, &d, &n));
            VF_CHECK((rc == 0) == (cb != 2), "reading with callback returns " << rc);
            if (cb == 2)
                continue;
            expectClose(VD(d, d + n), expect(slice(all, t), slice(allB, t)), "slice with callback", 1e-12);
            free(d);
            if (cb == 0) {
                VF_CHECK(calls == 1, calls << " calls");
                expectClose(given, slice(all, t), "values given to the callback", 1e-12);
            }
        }
        // other variables are not touched
        double* d = nullptr;
        size_t n = 0;
        VF_CHECK(C(mifi_get_double_data(q, "b", &d, &n)) == 0, "reading the other variable");
        expectClose(VD(d, d + n), allB, "the other variable", 1e-12);
        free(d);
        // slices
        if (cb == 0) {
            Slice sb(C(mifi_new_slicebuilder(q, v.name.c_str())));
            VS s, z;
            for (size_t k = 0; k < len.size(); ++k) {
                s.push_back(len[k] - 1);
                z.push_back(1);
                mifi_slicebuilder_set_dim_start_size(sb, DIMS[v.dims[k]].name, s[k], 1);
            }
            VD buf(1);
            VF_CHECK(C(mifi_fill_scaled_double_dataslice(q, v.name.c_str(), sb, "", buf.data(), &n)) == 0, "reading a slice with callback");
            expectClose(buf, refSlice(expect(all, allB), len, s, z), "last value with callback", 1e-12);
        }
        ex.step();
    }
    if (q != r.r)
        mifi_free_cdm_reader(q);
    VF_CHECK(dump(src) == before, "the callback changes the source");
    ex.state(vdesc(vs) + to_string(cb));
}

// ---------------------------------------------------------------- files
void writeText(const string& fn, const string& s)
{
    std::ofstream(fn) << s;
}

void fileCase(vf::Explorer& ex, const vector<VarDef>& vs, const string& type, const string& ext, const string& readType)
{
    const string fn = ex.scratch() + "/f" + ext, cfg = ex.scratch() + "/c.ncml";
    auto src = dataset(vs, true, true);
    unlink(fn.c_str());
    {
        Reader r{CDMReader_p(src)};
        VF_CHECK(C(mifi_writer(r, type.c_str(), fn.c_str(), nullptr)) == 0, "writing " << type);
        VF_CHECK(C(mifi_writer(r, type.c_str(), (ex.scratch() + "/no/such/dir.nc").c_str(), "")) != 0, "writing to a missing directory");
        VF_CHECK(C(mifi_writer(r, "unknown_type", (ex.scratch() + "/x.unknown").c_str(), "")) != 0, "writing an unknown type");
        VF_CHECK(C(mifi_writer(r, type.c_str(), (ex.scratch() + "/y.nc").c_str(), (ex.scratch() + "/nothere.xml").c_str())) != 0, "writing with a missing configuration");
    }
    writeText(cfg, "<?xml version=\"1.0\"?><netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\" location=\"" + fn +
                       "\"><variable name=\"renamed\" orgName=\"a\"/></netcdf>");
    const VarDef& v = vs[0];
    VD raw;
    const VD all = physical(v, raw);
    auto expect = [&](mifi_cdm_reader* r, const char* name, const VD& want) {
        VF_CHECK(r, "no reader for the file");
        double* d = nullptr;
        size_t n = 0;
        VF_CHECK(C(mifi_get_double_data(r, name, &d, &n)) == 0, "reading " << name);
        expectClose(VD(d, d + n), want, string("data of ") + name, 1e-9);
        free(d);
        ex.step();
    };
    {
        Reader r(C(mifi_new_io_reader(readType.c_str(), fn.c_str(), "")));
        expect(r, "a", all);
        Reader m(C(mifi_new_ncml_modifier(r, cfg.c_str())));
        expect(m, "renamed", all);
        VF_CHECK(C(mifi_get_variable_type(m, "a")) == CDM_NAT, "the old name");
        Reader c(C(mifi_new_io_reader(readType.c_str(), fn.c_str(), cfg.c_str())));
        expect(c, "renamed", all);
        Reader x(C(mifi_new_io_reader("ncml", cfg.c_str(), "")));
        expect(x, "renamed", all);
        VF_CHECK(C(mifi_new_ncml_modifier(r, (ex.scratch() + "/nothere.ncml").c_str())) == nullptr, "a missing NcML document");
        VF_CHECK(C(mifi_new_io_reader(readType.c_str(), (ex.scratch() + "/nothere" + ext).c_str(), "")) == nullptr, "a missing file");
        VF_CHECK(C(mifi_new_io_reader(readType.c_str(), fn.c_str(), (ex.scratch() + "/nothere.ncml").c_str())) == nullptr, "a missing configuration");
        Slice sb(C(mifi_new_slicebuilder(r, "a")));
        double one = 1;
        VF_CHECK(C(mifi_write_scaled_double_dataslice(r, "a", sb, "K", &one, 1)) != 0, "writing to a file opened for reading");
    }
    // updates in place
    VD now = all;
    VS len;
    for (int d : v.dims)
        len.push_back(DIMS[d].len);
    {
        Reader w(C(mifi_new_io_reader("netcdf+rw", fn.c_str(), "")));
        VF_CHECK(w, "no writable reader");
        int k = 0;
        for (const char* unit : {"K", "degC", "", "m"})
            for (size_t a = 0; a < prod(len); ++a) {
                Slice sb(C(mifi_new_slicebuilder(w, "a")));
                size_t rest = a;
                for (size_t i = 0; i < len.size(); ++i) {
                    VF_CHECK(C(mifi_slicebuilder_set_dim_start_size(sb, DIMS[v.dims[i]].name, rest % len[i], 1)) == 0, "slice");
                    rest /= len[i];
                }
                double val = ++k % 7 == 0 && v.packing ? NAN : 260 + k % 9;
                if (v.packing == 3)
                    val = 260 + k % 9;
                const bool bad = *unit && (string(unit) == "m" || !*unitOf(v));
                double give = string(unit) == "degC" ? val - 273.15 : val;
                const int rc = C(mifi_write_scaled_double_dataslice(w, "a", sb, unit, &give, 1));
                VF_CHECK(bad ? rc != 0 : rc == 0, "writing in unit '" << unit << "' returns " << rc);
                VF_CHECK(C(mifi_write_scaled_double_dataslice(w, "a", sb, unit, nullptr, 1)) != 0, "writing without data");
                double two[2] = {1, 2};
                VF_CHECK(C(mifi_write_scaled_double_dataslice(w, "a", sb, *unitOf(v) ? "K" : "", two, 2)) != 0, "writing two values to a slice of one");
                VF_CHECK(C(mifi_write_scaled_double_dataslice(w, "nothere", sb, "K", two, 1)) != 0, "writing to a variable that does not exist");
                if (!bad)
                    now[a] = v.packing == 2 && val == 99 ? NAN : val;
                expect(w, "a", now);
            }
    }
    Reader r(C(mifi_new_io_reader(readType.c_str(), fn.c_str(), "")));
    expect(r, "a", now);
    if (vs.size() > 1) {
        VD rb;
        expect(r, "b", physical(vs[1], rb));
    }
    unlink(fn.c_str());
    ex.state(vdesc(vs) + type + ext + readType);
}

// ---------------------------------------------------------------- interpolation
void interpolationCase(vf::Explorer& ex, int method, int kind, const string& xs, const string& ys)
{
    auto src = dataset({{"a", {0, 1, 2}, 0}, {"b", {1, 0}, 1}}, false, true);
    const string proj = kind == 1 ? "+proj=stere +lat_0=90 +lon_0=20 +lat_ts=60 +R=6371000" : "+proj=latlong +R=6371000";
    const char *ux = kind == 1 ? "m" : "degrees_east", *uy = kind == 1 ? "m" : "degrees_north";
    VD lon{10, 15, 170.5}, lat{90, 89.99999, 60};
    auto ref = std::make_shared<CDMInterpolator>(CDMReader_p(src));
    const bool fails = throws([&] {
        if (kind == 2)
            ref->changeProjection(method, lon, lat);
        else
            ref->changeProjection(method, proj, xs, ys, ux, uy);
    });
    mifi_cdm_reader* plain = new mifi_cdm_reader(CDMReader_p(src));
    mifi_cdm_reader* p = kind == 2 ? C(mifi_new_lonlat_interpolator(plain, method, 3, lon.data(), lat.data())) : C(mifi_new_cdminterpolator(plain, method, proj.c_str(), xs.c_str(), ys.c_str(), ux, uy));
    mifi_free_cdm_reader(plain);
    VF_CHECK((p == nullptr) == fails, "interpolation " << (fails ? "delivers a reader" : "refused"));
    if (p) {
        Reader r(p);
        VF_CHECK(C(mifi_get_variable_number(r)) == ref->getCDM().getVariables().size(), "number of variables");
        for (auto& v : ref->getCDM().getVariables()) {
            double* d = nullptr;
            size_t n = 0;
            string name = v.getName();
            VD want;
            const bool ft = throws([&] { want = values(ref->getScaledData(name)); });
            const int rc = C(mifi_get_double_data(r, name.c_str(), &d, &n));
            VF_CHECK((rc != 0) == ft, "reading " << name << " returns " << rc);
            if (rc)
                continue;
            expectClose(VD(d, d + n), want, "interpolated " + name, 0, 0);
            free(d);
            ex.step();
        }
    }
    ex.state(to_string(method) + "," + to_string(kind) + xs);
}

// ---------------------------------------------------------------- reference time
void refTimeCase(vf::Explorer& ex, const string& name, const string& sn, const VD& vals, const string& unit, const string& ask, double want)
{
    auto r = std::make_shared<TestReader>();
    r->att("", "Conventions", "CF-1.6");
    axis(*r, "time", {0, 1}, "hours since 2020-02-28 00:00:00", "time", CDM_DOUBLE, true);
    if (vals.size() > 1)
        r->dim("n", vals.size());
    if (!name.empty()) {
        r->var(name, CDM_DOUBLE, vals.size() > 1 ? vector<string>{"n"} : vector<string>{}, vals);
        r->att(name, "units", unit);
        r->att(name, "standard_name", sn);
    }
    Reader c{CDMReader_p(r)};
    const double got = C(mifi_get_unique_forecast_reference_time(c, ask.c_str()));
    VF_CHECK(closeD(got, want, 1e-12, 1e-9), "reference time " << got << " instead of " << want);
    ex.step();
    ex.state(name + unit + ask);
}

} // namespace

void vf::explore(Explorer& ex)
{
    ex.space("datasets");
    // all orders of the dimensions of two variables of one coordinate system
    vector<vector<int>> perms3, perms4;
    vector<int> p{0, 1, 2};
    do
        perms3.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    p = {0, 1, 2, 3};
    do
        perms4.push_back(p);
    while (std::next_permutation(p.begin(), p.end()));
    auto data = [&](const vector<VarDef>& vs) {
        for (bool co : {false, true})
            for (bool ma : {false, true})
                for (SliceMode m : {BY_BUILDER, BY_UNLIMITED})
                    ex.run([=] { return "dataset" + vdesc(vs) + (co ? " lon/lat" : "") + (ma ? " mapping" : "") + (m == BY_UNLIMITED ? " by position" : ""); },
                           [=, &ex] { datasetCase(ex, vs, co, ma, m); });
    };
    for (int pk = 0; pk < 4; ++pk)
        for (auto& d : vector<vector<int>>{{}, {0}, {2}, {1, 0}, {0, 1}, {0, 1, 2}, {2, 0, 1}, {0, 1, 3, 2}, {3}, {3, 2}, {0, 2}})
            data({{"a", d, pk}});
    for (auto& a : perms3)
        for (auto& b : perms3)
            data({{"a", a, 0}, {"b", b, 1}});
    for (size_t i = 0; i < perms4.size(); ++i)
        for (size_t j = 0; j < perms4.size(); ++j)
            if (ex.thorough() || (i * 5 + j) % 6 == 0)
                ex.run([=] { return "dataset" + vdesc({{"a", perms4[i], 1}, {"b", perms4[j], 2}}); }, [=, &ex] { datasetCase(ex, {{"a", perms4[i], 1}, {"b", perms4[j], 2}}, i % 2, j % 2, BY_BUILDER); });
    ex.space("callbacks");
    for (int pa = 0; pa < 4; ++pa)
        for (int pb = 0; pb < 4; ++pb)
            for (auto& d : vector<vector<int>>{{0, 1, 2}, {0, 1}, {2}, {0, 1, 3, 2}, {}})
                for (int cb = 0; cb < 4; ++cb)
                    for (SliceMode m : {BY_BUILDER, BY_UNLIMITED})
                        for (bool mem : {false, true})
                            for (bool ch : {false, true})
                                ex.run([=] { return "callback " + to_string(cb) + vdesc({{"a", d, pa}, {"b", d, pb}}) + (m == BY_UNLIMITED ? " by position" : "") + (mem ? " in memory" : "") + (ch ? " chained" : ""); },
                                       [=, &ex] { callbackCase(ex, {{"a", d, pa}, {"b", d, pb}}, cb, m, mem, ch); });
    ex.space("files");
    for (const char* t : {"nc3", "nc4", "nc4c", "netcdf"})
        for (const char* e : {".nc", ".dat", ""})
            for (const char* rt : {"netcdf", "nc", "nc4", "nc3", ""})
                for (int pk = 0; pk < 4; ++pk) {
                    const string ts = t, es = e, rs = rt;
                    ex.run([=] { return "file " + ts + " f" + es + " read as '" + rs + "' packing " + to_string(pk); }, [=, &ex] { fileCase(ex, {{"a", {0, 1, 2}, pk}, {"b", {0, 2, 1}, 1}}, ts, es, rs); });
                }
    ex.space("interpolation");
    for (int m = -1; m < 16; ++m)
        for (int k = 0; k < 3; ++k)
            for (const char* x : {"5,6,7", "5,5.5,...,7", "auto", "relativeStart=0", "nonsense", ""})
                for (const char* y : {"5,6", "6,5", "auto", "1,,2"}) {
                    if (k == 2 && (string(x) != "auto" || string(y) != "auto"))
                        continue;
                    const string xs = x, ys = y;
                    ex.run([=] { return "method " + to_string(m) + " kind " + to_string(k) + " x " + xs + " y " + ys; }, [=, &ex] { interpolationCase(ex, m, k, xs, ys); });
                }
    ex.space("reference time");
    const double h = 3600;
    const double base = 1582848000; // 2020-02-28
    for (const char* n : {"forecast_reference_time", "frt", ""})
        for (const VD& vals : {VD{0}, VD{6.5}, VD{-24}, VD{0, 6}, VD{6, 6}})
            for (const char* u : {"hours since 2020-02-28 00:00:00", "hours since 2020-02-28 00:00:00 +00:00"})
                for (int ask = 0; ask < 4; ++ask) {
                    const string ns = n, us = u;
                    if (ns.empty() && (vals.size() > 1 || ask > 0))
                        continue;
                    static const char* ASK[] = {"seconds since 1970-01-01 00:00:00", "hours since 2020-02-28 06:00:00", "days since 2020-03-01", "metres"};
                    const bool unique = !ns.empty() && (vals.size() == 1 || vals[0] == vals[1]);
                    const double abs = base + vals[0] * h;
                    const double want = !unique || ask == 3 ? NAN : ask == 0 ? abs : ask == 1 ? (abs - base - 6 * h) / h : (abs - base) / h / 24 - 2;
                    ex.run([=] { return "reference time " + ns + " " + str(vals) + " " + us + " in " + ASK[ask]; },
                           [=, &ex] { refTimeCase(ex, ns, "forecast_reference_time", vals, us, ASK[ask], want); });
                }
}
