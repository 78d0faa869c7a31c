// C23: parallel work gives the results of sequential work, in every schedule.
#include "fx.h"
#include "vsched.h"

#include "fimex/AggregationReader.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMExtractor.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMMerger.h"
#include "fimex/CDMOverlay.h"
#include "fimex/CDMProcessor.h"
#include "fimex/CDMQualityExtractor.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/FillWriter.h"
#include "fimex/Logger.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/Null_CDMWriter.h"
#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"
#include "fimex/XMLInputString.h"
#include "fimex/mifi_constants.h"

#include <cstring>
#include <unistd.h>

using namespace fx;
using vf::Explorer;

namespace {
const string LL = "+proj=latlong +R=6371000 +no_defs";
const string ST = "+proj=stere +lat_0=90 +lat_ts=60 +lon_0=0 +R=6371000 +no_defs";

struct Opt
{
    size_t nt = 3, nz = 2;
    bool packed = true;
    bool wind = false;
    bool hybrid = false;
    bool metric = false; ///< polar stereographic grid
    double lon0 = 1, lat0 = 59;
    double t0 = 0;
    bool quality = false;
    bool time2 = false; ///< a second time axis is not used
};

/// a small dataset with all kinds of variables
TestReader_p source(const Opt& o = Opt(), SliceMode mode = BY_BUILDER)
{
    auto p = std::make_shared<TestReader>(mode);
    TestReader& r = *p;
    VD t, x, y;
    for (size_t i = 0; i < o.nt; ++i)
        t.push_back(o.t0 + i * 6.);
    for (int i = 0; i < 4; ++i)
        x.push_back(o.metric ? i * 100000. : o.lon0 + i);
    for (int i = 0; i < 3; ++i)
        y.push_back(o.metric ? -3400000. + i * 100000. : o.lat0 + i);
    const string X = o.metric ? "x" : "lon", Y = o.metric ? "y" : "lat";
    axis(r, "time", t, "hours since 2020-01-01 00:00:00", "time", CDM_DOUBLE, true);
    axis(r, Y, y, o.metric ? "m" : "degrees_north", o.metric ? "projection_y_coordinate" : "latitude");
    axis(r, X, x, o.metric ? "m" : "degrees_east", o.metric ? "projection_x_coordinate" : "longitude");
    const size_t nxy = 12;
    auto field = [&](size_t n, double f) {
        VD v;
        for (size_t i = 0; i < n; ++i)
            v.push_back(f + (i * 7) % 23 + 0.5 * (i % 3));
        return v;
    };
    string coords;
    if (o.metric) {
        r.var("proj", CDM_INT, {}, {0});
        r.att("proj", "grid_mapping_name", "polar_stereographic");
        r.att("proj", "straight_vertical_longitude_from_pole", CDM_DOUBLE, {0});
        r.att("proj", "latitude_of_projection_origin", CDM_DOUBLE, {90});
        r.att("proj", "standard_parallel", CDM_DOUBLE, {60});
        r.att("proj", "earth_radius", CDM_DOUBLE, {6371000});
    }
    auto finish = [&](const string& v, const string& u) {
        r.att(v, "units", u);
        if (o.metric)
            r.att(v, "grid_mapping", "proj");
    };
    r.var("t2m", CDM_FLOAT, {X, Y, "time"}, field(nxy * o.nt, 270));
    finish("t2m", "K");
    if (o.packed) {
        VD v;
        for (size_t i = 0; i < nxy * o.nt; ++i)
            v.push_back(i % 11 == 5 ? -999 : double((i * 13) % 40));
        r.var("rain", CDM_SHORT, {X, Y, "time"}, v);
        r.att("rain", "_FillValue", CDM_SHORT, {-999});
        r.att("rain", "scale_factor", CDM_DOUBLE, {0.5});
        r.att("rain", "add_offset", CDM_DOUBLE, {3});
        finish("rain", "mm");
    }
    r.var("topo", CDM_FLOAT, {X, Y}, field(nxy, 10));
    finish("topo", "m");
    if (o.wind) {
        r.var("u", CDM_FLOAT, {X, Y, "time"}, field(nxy * o.nt, -5));
        r.att("u", "standard_name", "x_wind");
        finish("u", "m/s");
        r.var("v", CDM_FLOAT, {X, Y, "time"}, field(nxy * o.nt, 2));
        r.att("v", "standard_name", "y_wind");
        finish("v", "m/s");
    }
    if (o.quality) {
        VD q;
        for (size_t i = 0; i < nxy * o.nt; ++i)
            q.push_back(i % 4);
        r.var("flag", CDM_CHAR, {X, Y, "time"}, q);
        r.var("value", CDM_FLOAT, {X, Y, "time"}, field(nxy * o.nt, 1));
        r.att("value", "_FillValue", CDM_FLOAT, {-1});
    }
    if (o.hybrid) {
        VD lev, ap, b;
        for (size_t i = 0; i < o.nz; ++i) {
            lev.push_back((i + 1.) / (o.nz + 1));
            ap.push_back(1000. * (o.nz - i));
            b.push_back((i + 1.) / o.nz);
        }
        axis(r, "lev", lev, "1", "atmosphere_hybrid_sigma_pressure_coordinate");
        r.att("lev", "formula_terms", "ap: ap b: b ps: ps");
        r.att("lev", "positive", "down");
        r.var("ap", CDM_DOUBLE, {"lev"}, ap);
        r.att("ap", "units", "Pa");
        r.var("b", CDM_DOUBLE, {"lev"}, b);
        r.att("b", "units", "1");
        VD ps;
        for (size_t i = 0; i < nxy * o.nt; ++i)
            ps.push_back(100000 + (i * 37) % 500);
        r.var("ps", CDM_FLOAT, {X, Y, "time"}, ps);
        r.att("ps", "standard_name", "surface_air_pressure");
        finish("ps", "Pa");
        r.var("ta", CDM_FLOAT, {X, Y, "lev", "time"}, field(nxy * o.nz * o.nt, 250));
        r.att("ta", "standard_name", "air_temperature");
        finish("ta", "K");
        r.var("q", CDM_FLOAT, {X, Y, "lev", "time"}, VD(nxy * o.nz * o.nt, 0.01));
        r.att("q", "standard_name", "specific_humidity");
        finish("q", "1");
        VD zs;
        for (size_t i = 0; i < nxy; ++i)
            zs.push_back(100 + 20 * i);
        r.var("zs", CDM_FLOAT, {X, Y}, zs);
        r.att("zs", "standard_name", "surface_geopotential");
        finish("zs", "m^2/s^2");
    }
    r.att("", "Conventions", "CF-1.6");
    return p;
}

typedef std::map<string, VD> Reference;

char mismatch[600];
size_t served;

/// passes on the reads of a writer and compares what comes back; not monitored itself
class Recorder : public CDMReader
{
public:
    Recorder(CDMReader_p in, const Reference& ref) : in_(in), ref_(ref) { *cdm_ = in->getCDM(); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const string& v, size_t pos) override
    {
        DataPtr d = in_->getDataSlice(v, pos);
        compare(v, pos, d);
        return d;
    }
    DataPtr getDataSlice(const string& v, const SliceBuilder& sb) override { return in_->getDataSlice(v, sb); }
    DataPtr getData(const string& v) override
    {
        DataPtr d = in_->getData(v);
        compare(v, -1, d);
        return d;
    }

private:
    void compare(const string& v, long pos, DataPtr d)
    {
        served++;
        auto it = ref_.find(v + "@" + std::to_string(pos));
        bool ok = it != ref_.end();
        double want = 0, got = 0;
        size_t at = 0;
        if (ok) {
            const size_t n = d ? d->size() : 0;
            if (n != it->second.size()) {
                ok = false;
                want = it->second.size();
                got = n;
            } else if (n) {
                auto a = d->asDouble();
                for (size_t i = 0; ok && i < n; ++i)
                    if (!sameD(a[i], it->second[i])) {
                        ok = false;
                        want = it->second[i];
                        got = a[i];
                        at = i;
                    }
            }
        }
        if (!ok && !mismatch[0])
            snprintf(mismatch, sizeof(mismatch), "%s at position %ld: element %zu is %.10g, sequentially %.10g", v.c_str(), pos, at, got, want);
    }
    CDMReader_p in_;
    const Reference& ref_;
};

Reference reference(CDMReader_p r)
{
    Reference ref;
    const CDM& cdm = r->getCDM();
    const CDMDimension* u = cdm.getUnlimitedDim();
    for (const CDMVariable& v : cdm.getVariables()) {
        if (cdm.hasUnlimitedDim(v)) {
            for (size_t i = 0; u && i < u->getLength(); ++i)
                ref[v.getName() + "@" + std::to_string(i)] = values(r->getDataSlice(v.getName(), i));
        } else {
            ref[v.getName() + "@-1"] = values(r->getData(v.getName()));
        }
    }
    return ref;
}

typedef std::function<CDMReader_p(const string& dir)> Make;
struct Scenario
{
    string name;
    Make make;
};

string netcdfFile(const string& dir, const string& type, const Opt& o, const char* name = "in")
{
    const string fn = dir + "/" + name + type + ".nc";
    if (access(fn.c_str(), F_OK) != 0)
        CDMFileReaderFactory::createWriter(source(o), type == "nc4" ? "nc4" : "netcdf", fn);
    return fn;
}

Make interpolation(int method, bool wind, const std::function<void(CDMInterpolator&)>& more = nullptr)
{
    return [=](const string&) -> CDMReader_p {
        Opt o;
        o.wind = wind;
        o.metric = wind;
        auto ip = std::make_shared<CDMInterpolator>(source(o));
        if (more)
            more(*ip);
        if (wind)
            ip->changeProjection(method, LL, VD{1, 3, 4}, VD{58.5, 59.5}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
        else
            ip->changeProjection(method, LL, VD{1.5, 2.2, 3.9}, VD{59.2, 60.7}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
        return ip;
    };
}

vector<Scenario> readers()
{
    vector<Scenario> s;
    s.push_back({"dataset in memory", [](const string&) -> CDMReader_p { return source(); }});
    for (const char* type : {"netcdf", "nc4"})
        s.push_back({string("NetCDF file, ") + type, [=](const string& dir) -> CDMReader_p { return CDMFileReaderFactory::create("netcdf", netcdfFile(dir, type, Opt())); }});
    s.push_back({"extraction from a file", [](const string& dir) -> CDMReader_p {
                     auto e = std::make_shared<CDMExtractor>(CDMFileReaderFactory::create("netcdf", netcdfFile(dir, "netcdf", Opt())));
                     e->reduceDimension("lon", std::set<size_t>{0, 2, 3});
                     return e;
                 }});
    const std::pair<int, const char*> methods[] = {{MIFI_INTERPOL_NEAREST_NEIGHBOR, "nearest"},
                                                   {MIFI_INTERPOL_BILINEAR, "bilinear"},
                                                   {MIFI_INTERPOL_BICUBIC, "bicubic"},
                                                   {MIFI_INTERPOL_COORD_NN, "nearest coordinate"},
                                                   {MIFI_INTERPOL_COORD_NN_KD, "nearest in tree"},
                                                   {MIFI_INTERPOL_FORWARD_SUM, "forward sum"},
                                                   {MIFI_INTERPOL_FORWARD_MEAN, "forward mean"},
                                                   {MIFI_INTERPOL_FORWARD_MEDIAN, "forward median"},
                                                   {MIFI_INTERPOL_FORWARD_MAX, "forward max"},
                                                   {MIFI_INTERPOL_FORWARD_UNDEF_MIN, "forward min, undefined wins"}};
    for (const auto& m : methods) {
        s.push_back({string("interpolation, ") + m.second, interpolation(m.first, false)});
        s.push_back({string("interpolation with vectors, ") + m.second, interpolation(m.first, true)});
    }
    s.push_back({"interpolation with filling", interpolation(MIFI_INTERPOL_BILINEAR, false, [](CDMInterpolator& ip) {
                     ip.addPreprocess(std::make_shared<InterpolatorFill2d>(0.01f, 1.6f, 20));
                     ip.addPostprocess(std::make_shared<InterpolatorCreepFill2d>(2, 1));
                 })});
    s.push_back({"interpolation of a file", [](const string& dir) -> CDMReader_p {
                     auto ip = std::make_shared<CDMInterpolator>(CDMFileReaderFactory::create("netcdf", netcdfFile(dir, "netcdf", Opt())));
                     ip->changeProjection(MIFI_INTERPOL_BILINEAR, LL, VD{1.5, 2.2}, VD{59.2, 60.7}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                     return ip;
                 }});
    s.push_back({"interpolation to places", [](const string&) -> CDMReader_p {
                     auto ip = std::make_shared<CDMInterpolator>(source());
                     ip->changeProjection(MIFI_INTERPOL_BILINEAR, vector<double>{1.5, 2.2, 3.1}, vector<double>{59.1, 60.7, 60});
                     return ip;
                 }});
    s.push_back({"time interpolation", [](const string&) -> CDMReader_p {
                     auto t = std::make_shared<CDMTimeInterpolator>(source());
                     t->changeTimeAxis("2020-01-01 00:00:00,2020-01-01 03:00:00,...,2020-01-01 12:00:00;unit=hours since 2020-01-01 00:00:00");
                     return t;
                 }});
    s.push_back({"accumulation", [](const string&) -> CDMReader_p {
                     Opt o;
                     o.nt = 4;
                     auto p = std::make_shared<CDMProcessor>(source(o));
                     p->accumulate("t2m");
                     p->accumulate("rain");
                     return p;
                 }});
    s.push_back({"deaccumulation", [](const string&) -> CDMReader_p {
                     auto p = std::make_shared<CDMProcessor>(source());
                     p->deAccumulate("t2m");
                     p->deAccumulate("rain");
                     return p;
                 }});
    s.push_back({"deaccumulation from a file", [](const string& dir) -> CDMReader_p {
                     auto p = std::make_shared<CDMProcessor>(CDMFileReaderFactory::create("netcdf", netcdfFile(dir, "netcdf", Opt())));
                     p->deAccumulate("t2m");
                     p->accumulate("rain");
                     return p;
                 }});
    s.push_back({"rotation of vectors", [](const string&) -> CDMReader_p {
                     Opt o;
                     o.wind = o.metric = true;
                     auto p = std::make_shared<CDMProcessor>(source(o));
                     p->rotateAllVectorsToLatLon(true);
                     return p;
                 }});
    s.push_back({"geopotential height", [](const string&) -> CDMReader_p {
                     Opt o;
                     o.hybrid = true;
                     o.metric = true;
                     o.nz = 3;
                     auto p = std::make_shared<CDMProcessor>(source(o));
                     p->addGeopotentialHeight();
                     return p;
                 }});
    for (const char* type : {"pressure", "height", "altitude"})
        s.push_back({string("vertical interpolation to ") + type, [=](const string&) -> CDMReader_p {
                         Opt o;
                         o.hybrid = true;
                         o.nz = 3;
                         o.nt = 2;
                         auto v = std::make_shared<CDMVerticalInterpolator>(source(o), type, "linear");
                         v->interpolateToFixed(type[0] == 'p' ? vector<double>{400, 700, 900} : vector<double>{100, 2000, 4000});
                         return v;
                     }});
    s.push_back({"vertical interpolation of a file", [](const string& dir) -> CDMReader_p {
                     Opt o;
                     o.hybrid = true;
                     o.nz = 3;
                     o.nt = 2;
                     auto v = std::make_shared<CDMVerticalInterpolator>(CDMFileReaderFactory::create("netcdf", netcdfFile(dir, "netcdf", o, "hyb")), "pressure", "log");
                     v->interpolateToFixed(vector<double>{400, 700, 900});
                     return v;
                 }});
    s.push_back({"quality filter", [](const string& dir) -> CDMReader_p {
                     Opt o;
                     o.quality = true;
                     const string fn = dir + "/quality.xml";
                     writeFile(fn, "<cdmQualityConfig><variable name=\"value\"><status_flag_variable name=\"flag\"><allowed_values>1,2</allowed_values></status_flag_variable></variable></cdmQualityConfig>");
                     return std::make_shared<CDMQualityExtractor>(source(o), "", fn);
                 }});
    s.push_back({"overlay", [](const string&) -> CDMReader_p {
                     Opt o;
                     o.lon0 = 2;
                     return std::make_shared<CDMOverlay>(source(), source(o));
                 }});
    s.push_back({"merger", [](const string&) -> CDMReader_p {
                     Opt o;
                     o.lon0 = 2.5;
                     o.lat0 = 60;
                     auto m = std::make_shared<CDMMerger>(source(o), source());
                     m->setTargetGrid(LL, "1,2,...,5", "59,60,...,61", "degrees_east", "degrees_north", "double", "double");
                     return m;
                 }});
    s.push_back({"aggregation of files", [](const string& dir) -> CDMReader_p {
                     Opt a, b;
                     a.nt = b.nt = 2;
                     b.t0 = 12;
                     auto agg = std::make_shared<AggregationReader>("joinExisting");
                     agg->addReader(CDMFileReaderFactory::create("netcdf", netcdfFile(dir, "netcdf", a, "a")), "a", "");
                     agg->addReader(CDMFileReaderFactory::create("netcdf", netcdfFile(dir, "netcdf", b, "b")), "b", "");
                     agg->initAggregation();
                     return agg;
                 }});
    s.push_back({"markup", [](const string&) -> CDMReader_p {
                     return std::make_shared<NcmlCDMReader>(source(), XMLInputString("<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">"
                                                                                    "<variable name=\"wet\" orgName=\"rain\"/></netcdf>"));
                 }});
    return s;
}

/// readers whose single reads are done in parallel
vector<Scenario> directReaders()
{
    vector<Scenario> s;
    for (int m : {MIFI_INTERPOL_BILINEAR, MIFI_INTERPOL_BICUBIC, MIFI_INTERPOL_COORD_NN})
        for (bool wind : {false, true})
            s.push_back({"interpolation " + std::to_string(m) + (wind ? " with vectors" : ""), interpolation(m, wind)});
    s.push_back({"interpolation of 5 levels with filling", [](const string&) -> CDMReader_p {
                     Opt o;
                     o.hybrid = true;
                     o.nz = 5;
                     o.nt = 1;
                     auto ip = std::make_shared<CDMInterpolator>(source(o));
                     ip->addPreprocess(std::make_shared<InterpolatorFill2d>(0.01f, 1.6f, 20));
                     ip->addPostprocess(std::make_shared<InterpolatorCreepFill2d>(2, 1));
                     ip->addPostprocess(std::make_shared<InterpolatorCreepFillVal2d>(2, 1, 7.f));
                     ip->changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, LL, VD{1, 2, 3, 5}, VD{59, 60, 61, 62}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                     return ip;
                 }});
    for (const char* type : {"pressure", "height", "altitude"})
        s.push_back({string("vertical interpolation to ") + type, [=](const string&) -> CDMReader_p {
                         Opt o;
                         o.hybrid = true;
                         o.nz = 3;
                         o.nt = 1;
                         auto v = std::make_shared<CDMVerticalInterpolator>(source(o), type, "linear");
                         v->interpolateToFixed(type[0] == 'p' ? vector<double>{400, 700, 900} : vector<double>{100, 2000, 4000});
                         return v;
                     }});
    return s;
}
void readAll(CDMReader& r)
{
    const CDM& cdm = r.getCDM();
    const CDMDimension* u = cdm.getUnlimitedDim();
    for (const CDMVariable& v : cdm.getVariables()) {
        if (cdm.hasUnlimitedDim(v)) {
            for (size_t i = 0; u && i < u->getLength(); ++i)
                r.getDataSlice(v.getName(), i);
        } else {
            r.getData(v.getName());
        }
    }
}

/// fails for one slice
class Failing : public CDMReader
{
public:
    Failing(CDMReader_p in, const string& var, size_t pos) : in_(in), var_(var), pos_(pos) { *cdm_ = in->getCDM(); }
    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const string& v, size_t pos) override
    {
        if (v == var_ && pos == pos_)
            throw CDMException("planned failure");
        return in_->getDataSlice(v, pos);
    }
    DataPtr getDataSlice(const string& v, const SliceBuilder& sb) override
    {
        if (v == var_)
            throw CDMException("planned failure");
        return in_->getDataSlice(v, sb);
    }
    DataPtr getData(const string& v) override
    {
        if (v == var_)
            throw CDMException("planned failure");
        return in_->getData(v);
    }

private:
    CDMReader_p in_;
    string var_;
    size_t pos_;
};

void warmUp()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    defaultLogLevel(Logger::OFF);
    // logging, and the conversion of a single value by udunits (without state): no need to explore these
    Units units;
    auto conv = units.getConverter("degF", "K");
    sched::learnIgnoredLocks([&] {
        getLogger("verification")->isEnabledFor(Logger::DEBUG);
        conv->convert(1.);
        conv->convert(1.f);
    });
}

struct Bounds
{
    int threads, preemptions;
    size_t cap;
};

void examine(Explorer& ex, const sched::Trace& t, size_t& seen)
{
    if (!t.race.empty())
        VF_FAIL("data race: " << t.race);
    if (mismatch[0])
        VF_FAIL(mismatch);
    seen++;
    ex.step(t.steps.size());
    string c;
    for (const auto& s : t.steps)
        c += char('0' + s.chosen);
    ex.state(c);
}

const int SHARDS = 4;
} // namespace

void vf::explore(Explorer& ex)
{
    const vector<Scenario> rs = readers();
    vector<Bounds> bounds = {{2, 2, 1200}};
    if (ex.thorough())
        bounds = {{2, 3, 40000}, {3, 2, 20000}, {4, 1, 20000}};

    ex.space("parallel reading of all slices");
    for (const auto& sc : rs)
        for (const Bounds& b : bounds)
            for (int shard = 0; shard < SHARDS; ++shard)
                ex.run([=] { return sc.name + ", " + std::to_string(b.threads) + " threads, " + std::to_string(b.preemptions) + " preemptions, part " + std::to_string(shard); },
                       [&ex, sc, b, shard] {
                           warmUp();
                           const string dir = ex.scratch();
                           const Reference ref = reference(sc.make(dir));
                           size_t seen = 0;
                           sched::exploreAll(b.threads, b.preemptions, b.cap, shard, SHARDS,
                                             [&] {
                                                 mismatch[0] = 0;
                                                 served = 0;
                                                 Null_CDMWriter w(std::make_shared<Recorder>(sc.make(dir), ref), "");
                                                 if (served != ref.size() && !mismatch[0])
                                                     snprintf(mismatch, sizeof(mismatch), "%zu of %zu slices read", served, ref.size());
                                             },
                                             [&](const sched::Trace& t) {
                                                 examine(ex, t, seen);
                                                 return true;
                                             });
                           VF_CHECK(shard > 0 || seen > 0, "nothing explored");
                       });

    ex.space("parallel parts of a single read");
    for (const auto& sc : directReaders())
        for (const Bounds& b : bounds)
            for (int shard = 0; shard < SHARDS; ++shard)
                ex.run([=] { return sc.name + ", single reads, " + std::to_string(b.threads) + " threads, " + std::to_string(b.preemptions) + " preemptions, part " + std::to_string(shard); },
                       [&ex, sc, b, shard] {
                           warmUp();
                           const string dir = ex.scratch();
                           const Reference ref = reference(sc.make(dir));
                           size_t seen = 0, regions = 0;
                           sched::exploreAll(b.threads, b.preemptions, b.cap, shard, SHARDS,
                                             [&] {
                                                 mismatch[0] = 0;
                                                 served = 0;
                                                 Recorder r(sc.make(dir), ref);
                                                 readAll(r);
                                             },
                                             [&](const sched::Trace& t) {
                                                 examine(ex, t, seen);
                                                 regions += t.regions;
                                                 return true;
                                             });
                           VF_CHECK(shard > 0 || regions > 0, "no parallel part");
                       });

    ex.space("parallel writing of files");
    for (const auto& sc : rs) {
        if (sc.name.find("forward") != string::npos || sc.name.find("vectors, ") != string::npos || sc.name.find("geopot") != string::npos || sc.name.find("vertical") != string::npos ||
            sc.name.find("interpolation, ") != string::npos)
            continue; // as above
        for (const char* type : {"netcdf", "nc4"})
            for (const Bounds& b : bounds)
                for (int shard = 0; shard < SHARDS; ++shard)
                    ex.run([=] { return sc.name + " to " + type + " file, " + std::to_string(b.threads) + " threads, " + std::to_string(b.preemptions) + " preemptions, part " + std::to_string(shard); },
                           [&ex, sc, b, shard, type] {
                               warmUp();
                               const string dir = ex.scratch(), fn = dir + "/out.nc";
                               CDMFileReaderFactory::createWriter(sc.make(dir), type, fn);
                               const string want = dump(CDMFileReaderFactory::create("netcdf", fn));
                               unlink(fn.c_str());
                               size_t seen = 0;
                               sched::exploreAll(b.threads, b.preemptions, b.cap, shard, SHARDS,
                                                 [&] {
                                                     mismatch[0] = 0;
                                                     CDMFileReaderFactory::createWriter(sc.make(dir), type, fn);
                                                 },
                                                 [&](const sched::Trace& t) {
                                                     examine(ex, t, seen);
                                                     const string got = dump(CDMFileReaderFactory::create("netcdf", fn));
                                                     VF_CHECK(got == want, "file written differs\nexpected: " << want << "\ngot:      " << got);
                                                     unlink(fn.c_str());
                                                     return true;
                                                 });
                           });
    }

    ex.space("filling of an existing file");
    for (const bool fromFile : {false, true})
        for (const bool scaled : {false, true})
            for (const Bounds& b : bounds)
                for (int shard = 0; shard < SHARDS; ++shard)
                    ex.run([=] { return string("filling from ") + (fromFile ? "file" : "memory") + (scaled ? ", other packing" : "") + ", " + std::to_string(b.threads) + " threads, " + std::to_string(b.preemptions) + " preemptions, part " + std::to_string(shard); },
                           [&ex, fromFile, scaled, b, shard] {
                               warmUp();
                               const string dir = ex.scratch(), fn = dir + "/fill.nc";
                               const string inFn = netcdfFile(dir, "netcdf", Opt());
                               auto in = [&]() -> CDMReader_p {
                                   if (fromFile)
                                       return CDMFileReaderFactory::create("netcdf", inFn);
                                   return source();
                               };
                               Opt o;
                               o.nt = 3;
                               auto target = source(o);
                               for (const char* v : {"t2m", "rain", "topo"})
                                   target->full[v] = mk(target->full[v]->getDataType(), VD(target->full[v]->size(), 7));
                               if (scaled) {
                                   target->att("rain", "scale_factor", CDM_DOUBLE, {0.25});
                                   target->att("t2m", "units", "degC");
                               }
                               CDMFileReaderFactory::createWriter(target, "netcdf", fn);
                               const string empty = readFile(fn);
                               { FillWriter w(in(), CDMFileReaderFactory::createReaderWriter("netcdf", fn)); }
                               const string want = dump(CDMFileReaderFactory::create("netcdf", fn));
                               VF_CHECK(readFile(fn) != empty, "nothing filled");
                               size_t seen = 0;
                               sched::exploreAll(b.threads, b.preemptions, b.cap, shard, SHARDS,
                                                 [&] {
                                                     mismatch[0] = 0;
                                                     writeFile(fn, empty);
                                                     FillWriter w(in(), CDMFileReaderFactory::createReaderWriter("netcdf", fn));
                                                 },
                                                 [&](const sched::Trace& t) {
                                                     examine(ex, t, seen);
                                                     const string got = dump(CDMFileReaderFactory::create("netcdf", fn));
                                                     VF_CHECK(got == want, "file filled differs\nexpected: " << want << "\ngot:      " << got);
                                                     return true;
                                                 });
                           });

    ex.space("failures in one of the threads");
    for (int writer = 0; writer < 4; ++writer)
        for (const char* var : {"t2m", "rain", "topo"})
            for (int pos = 0; pos < 3; ++pos)
                for (const Bounds& b : bounds) {
                    if (string(var) == "topo" && pos > 0)
                        continue;
                    static const char* W[] = {"null writer", "netcdf writer", "nc4 writer", "fill writer"};
                    ex.run([=] { return string(W[writer]) + ", failing read of " + var + " at " + std::to_string(pos) + ", " + std::to_string(b.threads) + " threads, " + std::to_string(b.preemptions) + " preemptions"; },
                           [&ex, writer, var, pos, b] {
                               warmUp();
                               const string dir = ex.scratch(), fn = dir + "/fail.nc", inFn = netcdfFile(dir, "netcdf", Opt());
                               CDMFileReaderFactory::createWriter(source(), "netcdf", fn);
                               size_t seen = 0;
                               bool reported = false;
                               auto body = [&] {
                                                     mismatch[0] = 0;
                                                     auto r = std::make_shared<Failing>(CDMFileReaderFactory::create("netcdf", inFn), var, pos);
                                                     reported = false;
                                                     try {
                                                         if (writer == 0)
                                                             Null_CDMWriter w(r, "");
                                                         else if (writer == 3)
                                                             FillWriter w(r, CDMFileReaderFactory::createReaderWriter("netcdf", fn));
                                                         else
                                                             CDMFileReaderFactory::createWriter(r, writer == 1 ? "netcdf" : "nc4", fn + "x");
                                                     } catch (std::exception&) {
                                                         reported = true;
                                                     }
                                                 };
                               body(); // initialises the loggers
                               VF_CHECK(reported, "the failure is not reported without threads");
                               sched::exploreAll(b.threads, b.preemptions, b.cap, 0, 1, body,
                                                 [&](const sched::Trace& t) {
                                                     examine(ex, t, seen);
                                                     VF_CHECK(reported, "the failure is not reported");
                                                     return true;
                                                 });
                           });
                }
}
