// C05: what is written to a NetCDF file is what is read back
#include "fx.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/XMLInputString.h"

#include <cstring>
#include <limits>

using namespace fx;

namespace {
const char* FMT[] = {"nc3", "netcdf4classic", "netcdf4", "nc3_64"};
enum { NC3, NC4C, NC4, NC3_64, NFMT };

string lineDiff(const string& a, const string& b)
{
    std::istringstream ia(a), ib(b);
    string la, lb;
    while (true) {
        bool x = bool(std::getline(ia, la)), y = bool(std::getline(ib, lb));
        if (!x && !y)
            return "";
        if (!x)
            la = "<end>";
        if (!y)
            lb = "<end>";
        if (la != lb)
            return "wrote [" + la.substr(0, 300) + "] read [" + lb.substr(0, 300) + "]";
    }
}

string configFor(int fmt, const string& more = "")
{
    string s = "<cdm_ncwriter_config>";
    if (fmt == NC3_64)
        s += "<default filetype=\"netcdf3_64bit\"/>";
    return s + more + "</cdm_ncwriter_config>";
}

/// write r and read it back
CDMReader_p roundtrip(vf::Explorer& ex, CDMReader_p r, int fmt, const string& more = "")
{
    const string fn = ex.scratch() + "/rt.nc";
    ex.step();
    if (fmt == NC3_64 || !more.empty())
        CDMFileReaderFactory::createWriter(r, fmt == NC3_64 ? "nc3" : FMT[fmt], fn, XMLInputString(configFor(fmt, more)));
    else
        CDMFileReaderFactory::createWriter(r, FMT[fmt], fn);
    ex.step();
    return CDMFileReaderFactory::create("netcdf", fn);
}
void sameRaw(DataPtr a, DataPtr b, const string& what)
{
    VF_CHECK(a->getDataType() == b->getDataType(), what << ": type differs");
    VF_CHECK(a->size() == b->size(), what << ": " << b->size() << " elements instead of " << a->size());
    if (a->getDataType() == CDM_STRING || a->getDataType() == CDM_STRINGS)
        VF_CHECK(a->asString("|") == b->asString("|"), what << ": '" << b->asString("|") << "' instead of '" << a->asString("|") << "'");
    else
        VF_CHECK(memcmp(a->getDataPtr(), b->getDataPtr(), a->size() * a->bytes_for_one()) == 0, what << ": '" << b->asString("|") << "' instead of '" << a->asString("|") << "'");
}
bool supports(int fmt, CDMDataType t)
{
    if (fmt == NC4)
        return true;
    return t == CDM_CHAR || t == CDM_SHORT || t == CDM_INT || t == CDM_FLOAT || t == CDM_DOUBLE || t == CDM_STRING;
}
template <class T>
DataPtr extremes(size_t n, int shift)
{
    const T v[] = {std::numeric_limits<T>::lowest(), T(0), T(1), std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() / 2 + 1), T(100), T(77), std::numeric_limits<T>::min()};
    shared_array<T> a(new T[n]);
    for (size_t i = 0; i < n; ++i)
        a[i] = i < 16 ? v[(i + shift) % 8] : T(i % 100);
    return createData(n, a);
}
DataPtr sample(CDMDataType t, size_t n, int shift)
{
    switch (t) {
    case CDM_CHAR: return extremes<char>(n, shift);
    case CDM_SHORT: return extremes<short>(n, shift);
    case CDM_INT: return extremes<int>(n, shift);
    case CDM_INT64: return extremes<long long>(n, shift);
    case CDM_UCHAR: return extremes<unsigned char>(n, shift);
    case CDM_USHORT: return extremes<unsigned short>(n, shift);
    case CDM_UINT: return extremes<unsigned int>(n, shift);
    case CDM_UINT64: return extremes<unsigned long long>(n, shift);
    case CDM_FLOAT: {
        DataPtr d = extremes<float>(n, shift);
        if (n > 2)
            d->setValue(2, NAN);
        return d;
    }
    case CDM_DOUBLE: {
        DataPtr d = extremes<double>(n, shift);
        if (n > 1)
            d->setValue(1, 1. / 3);
        return d;
    }
    case CDM_STRING: {
        string s;
        for (size_t i = 0; i < n; ++i)
            s += "aZ 0~\xc3\xa5"[(i + shift) % 7];
        return createData(s);
    }
    case CDM_STRINGS: {
        vector<string> s;
        for (size_t i = 0; i < n; ++i)
            s.push_back(i % 3 == 0 ? "" : i % 3 == 1 ? "some text" : "\xc3\xa6\xc3\xb8 " + std::to_string(i));
        return mkStrings(s);
    }
    default: throw std::logic_error("type");
    }
}
const vector<CDMDataType> ALL = {CDM_CHAR, CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_STRING, CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64, CDM_STRINGS};

void compareAll(vf::Explorer& ex, CDMReader_p a, CDMReader_p b, const string& what, bool metadata = true)
{
    if (metadata) {
        const string d = lineDiff(dumpCDM(a->getCDM()), dumpCDM(b->getCDM()));
        VF_CHECK(d.empty(), what << ": metadata: " << d);
    }
    for (auto& v : a->getCDM().getVariables()) {
        ex.step();
        sameRaw(a->getData(v.getName()), b->getData(v.getName()), what + ": data of " + v.getName());
    }
    // identifiers that are computed as double in the dump
    for (auto& v : a->getCDM().getVariables())
        for (auto& at : a->getCDM().getAttributes(v.getName()))
            sameRaw(at.getData(), b->getCDM().getAttribute(v.getName(), at.getName()).getData(), what + ": attribute " + v.getName() + ":" + at.getName());
}

void spaceShapes(vf::Explorer& ex)
{
    ex.space("all shapes up to 3 dimensions x file formats x reader kind x unlimited; one variable per data type with extreme values");
    const size_t maxLen = ex.bound(3, 4);
    for (int nd = 0; nd <= 3; ++nd)
        product(nd, 1, maxLen, [&](const vector<int>& len) {
            for (int unlim = 0; unlim < (nd ? 3 : 1); ++unlim) // 2: additional shape without the unlimited dimension, length 0
                for (int fmt = 0; fmt < NFMT; ++fmt)
                    for (int mode = 0; mode < 3; ++mode) {
                        if (mode == 2 && unlim == 2)
                            continue;
                        ex.run(
                            [=] {
                                string s = string("shape [");
                                for (int l : len)
                                    s += std::to_string(l) + " ";
                                return s + "] " + FMT[fmt] + " unlimited " + std::to_string(unlim) + " mode " + std::to_string(mode);
                            },
                            [&] {
                                auto r = std::make_shared<TestReader>(mode == 1 ? BY_BUILDER : BY_UNLIMITED);
                                vector<string> shape;
                                size_t n = 1;
                                for (int i = 0; i < nd; ++i) {
                                    const bool u = unlim && i == nd - 1;
                                    const size_t l = u && unlim == 2 ? 0 : len[i];
                                    r->dim("d" + std::to_string(i), l, u);
                                    shape.push_back("d" + std::to_string(i));
                                    n *= l;
                                }
                                int k = 0;
                                for (CDMDataType t : ALL) {
                                    if (!supports(fmt, t))
                                        continue;
                                    const string vn = "v" + std::to_string(k++);
                                    DataPtr d = sample(t, n, k);
                                    if (t == CDM_STRING && n == 0 && nd == 0)
                                        d = createData(string("x"));
                                    if (mode == 2)
                                        r->varMem(vn, t, shape, d);
                                    else
                                        r->varData(vn, t, shape, d);
                                }
                                if (nd > 1) { // variables with fewer dimensions in the same file
                                    r->varData("low", CDM_SHORT, {shape[0]}, sample(CDM_SHORT, len[0], 3));
                                    r->varData("last", CDM_DOUBLE, {shape[nd - 1]}, sample(CDM_DOUBLE, unlim == 2 ? 0 : len[nd - 1], 3));
                                }
                                CDMReader_p back = roundtrip(ex, r, fmt);
                                compareAll(ex, r, back, "file");
                                // and the same once more from the file
                                const string fn2 = ex.scratch() + "/rt2.nc";
                                CDMFileReaderFactory::createWriter(back, fmt == NC3_64 ? "nc3" : FMT[fmt], fn2);
                                CDMReader_p again = CDMFileReaderFactory::create("netcdf", fn2);
                                compareAll(ex, back, again, "copy of the file");
                                ex.state(dump(back));
                                back.reset();
                                again.reset();
                                cleanDir(ex.scratch());
                            });
                    }
        });
    ex.space("data types a format cannot hold are refused");
    for (int fmt = 0; fmt < NFMT; ++fmt)
        for (CDMDataType t : ALL)
            for (int asAtt = 0; asAtt < 2; ++asAtt)
                ex.run([=] { return string(FMT[fmt]) + " type " + datatype2string(t) + (asAtt ? " attribute" : " variable"); },
                       [&] {
                           auto r = std::make_shared<TestReader>();
                           r->dim("d", 2);
                           if (asAtt) {
                               r->var("v", CDM_INT, {"d"}, {1, 2});
                               DataPtr d = sample(t, 2, 3);
                               r->attData("v", "a", d);
                           } else
                               r->varData("v", t, {"d"}, sample(t, 2, 3));
                           const bool thrown = throws([&] { roundtrip(ex, r, fmt); });
                           VF_CHECK(thrown == !supports(fmt, t), (thrown ? "refused" : "accepted"));
                           ex.state(string("ty") + FMT[fmt] + datatype2string(t) + std::to_string(asAtt));
                           cleanDir(ex.scratch());
                       });
}

void spaceAtts(vf::Explorer& ex)
{
    ex.space("attributes: types x lengths x global/variable; names");
    for (int fmt = 0; fmt < NFMT; ++fmt)
        for (CDMDataType t : ALL)
            for (size_t n = 0; n <= 3; ++n)
                for (int global = 0; global < 2; ++global) {
                    if (!supports(fmt, t))
                        continue;
                    ex.run([=] { return string("attribute ") + FMT[fmt] + " " + datatype2string(t) + " x" + std::to_string(n) + (global ? " global" : ""); },
                           [&] {
                               auto r = std::make_shared<TestReader>();
                               r->dim("d", 2);
                               r->var("v", CDM_INT, {"d"}, {1, 2});
                               r->var("w", CDM_INT, {"d"}, {3, 4});
                               for (const char* name : {"a", "long_name", "A-b.c_1"}) {
                                   r->attData(global ? "" : "v", name, sample(t, n, n));
                               }
                               CDMReader_p back = roundtrip(ex, r, fmt);
                               compareAll(ex, r, back, "file");
                               for (const char* name : {"a", "long_name", "A-b.c_1"})
                                   sameRaw(r->getCDM().getAttribute(global ? CDM::globalAttributeNS() : "v", name).getData(), back->getCDM().getAttribute(global ? CDM::globalAttributeNS() : "v", name).getData(), name);
                               ex.state(dump(back));
                               back.reset();
                               cleanDir(ex.scratch());
                           });
                }
    ex.space("fill value attribute: types");
    for (int fmt = 0; fmt < NFMT; ++fmt)
        for (CDMDataType t : numericTypes())
            for (int unlim = 0; unlim < 2; ++unlim)
                if (supports(fmt, t))
                    ex.run([=] { return string("fill ") + FMT[fmt] + " " + datatype2string(t) + " unlimited " + std::to_string(unlim); },
                           [&] {
                               auto r = std::make_shared<TestReader>();
                               r->dim("d", 2);
                               r->dim("t", 3, unlim);
                               r->var("v", t, {"d", "t"}, {1, 99, 2, 3, 99, 4});
                               r->att("v", "_FillValue", t, {99});
                               r->att("v", "scale_factor", CDM_DOUBLE, {0.5});
                               r->att("v", "add_offset", CDM_FLOAT, {10});
                               CDMReader_p back = roundtrip(ex, r, fmt);
                               compareAll(ex, r, back, "file");
                               expectClose(back->getScaledData("v"), {10.5, NAN, 11, 11.5, NAN, 12}, "scaled values");
                               ex.state(dump(back));
                               back.reset();
                               cleanDir(ex.scratch());
                           });
}

// ---- writer configuration
struct Item
{
    const char* name;
    const char* xml;
    std::function<void(std::map<string, VD>& phys, std::map<string, string>& units, std::map<string, CDMDataType>& type, std::map<string, vector<string>>& shape, std::map<string, string>& gatt)> f;
};
typedef std::map<string, VD> Phys;
typedef std::map<string, string> Str;
typedef std::map<string, CDMDataType> Typ;
typedef std::map<string, vector<string>> Shp;

void spaceConfig(vf::Explorer& ex)
{
    ex.space("writer configuration: all pairs of settings x formats");
    static const vector<Item> items = {
        {"compress0", "<default compressionLevel=\"0\"/>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
        {"compress9", "<default compressionLevel=\"9\"/>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
        {"compressVar", "<variable name=\"v\" compressionLevel=\"15\"/>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
        {"chunk", "<dimension name=\"x\" chunkSize=\"2\"/>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
        {"chunkBig", "<dimension name=\"y\" chunkSize=\"1000\"/>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
        {"type double", "<variable name=\"u\" type=\"double\"/>", [](Phys&, Str&, Typ& t, Shp&, Str&) { t["u"] = CDM_DOUBLE; }},
        {"type int", "<variable name=\"u\" type=\"int\"/>", [](Phys&, Str&, Typ& t, Shp&, Str&) { t["u"] = CDM_INT; }},
        {"repack", "<variable name=\"v\" type=\"short\"><attribute name=\"scale_factor\" value=\"0.5\" type=\"double\"/><attribute name=\"_FillValue\" value=\"-999\" type=\"short\"/></variable>",
         [](Phys&, Str&, Typ& t, Shp&, Str&) { t["v"] = CDM_SHORT; }},
        {"units", "<variable name=\"v\"><attribute name=\"units\" value=\"hPa\" type=\"string\"/></variable>",
         [](Phys& p, Str& u, Typ&, Shp&, Str&) {
             for (double& x : p["v"])
                 x /= 100;
             u["v"] = "hPa";
         }},
        {"fill", "<variable name=\"w\"><attribute name=\"_FillValue\" value=\"77\" type=\"short\"/></variable>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
        {"remove var", "<remove type=\"variable\" name=\"w\"/>",
         [](Phys& p, Str& u, Typ& t, Shp& s, Str&) {
             p.erase("w");
             u.erase("w");
             t.erase("w");
             s.erase("w");
         }},
        {"remove att", "<remove type=\"attribute\" name=\"title\"/>", [](Phys&, Str&, Typ&, Shp&, Str& g) { g.erase("title"); }},
        {"global att", "<attribute name=\"history\" value=\"changed\" type=\"string\"/>", [](Phys&, Str&, Typ&, Shp&, Str& g) { g["history"] = "changed"; }},
        {"rename att", "<attribute name=\"source\" newname=\"origin\"/>",
         [](Phys&, Str&, Typ&, Shp&, Str& g) {
             g["origin"] = g["source"];
             g.erase("source");
         }},
        {"rename u", "<variable name=\"u\" newname=\"uu\"/>",
         [](Phys& p, Str& un, Typ& t, Shp& s, Str&) {
             p["uu"] = p["u"];
             p.erase("u");
             un["uu"] = un["u"];
             un.erase("u");
             t["uu"] = t["u"];
             t.erase("u");
             s["uu"] = s["u"];
             s.erase("u");
         }},
        {"rename x", "<dimension name=\"x\" newname=\"xx\"/>",
         [](Phys& p, Str& un, Typ& t, Shp& s, Str&) {
             for (auto& q : s)
                 for (string& d : q.second)
                     if (d == "x")
                         d = "xx";
             if (p.count("x")) { // coordinate variable follows its dimension
                 p["xx"] = p["x"], un["xx"] = un["x"], t["xx"] = t["x"], s["xx"] = s["x"];
                 p.erase("x"), un.erase("x"), t.erase("x"), s.erase("x");
             }
         }},
        {"rename t", "<dimension name=\"t\" newname=\"tt\"/>",
         [](Phys&, Str&, Typ&, Shp& s, Str&) {
             for (auto& q : s)
                 for (string& d : q.second)
                     if (d == "t")
                         d = "tt";
         }},
        {"keep dims", "<default autoRemoveUnusedDimension=\"false\"/>", [](Phys&, Str&, Typ&, Shp&, Str&) {}},
    };
    const int N = int(items.size());
    for (int unlim = 0; unlim < 2; ++unlim)
        for (int fmt = 0; fmt < NFMT; ++fmt)
            for (int i = -1; i < N; ++i)
                for (int j = i; j < N; ++j) {
                    if (i == j && i >= 0 && string(items[i].name) == "rename att")
                        continue; // the same rename twice has no second target
                    if (i >= 0 && j > i && ((string(items[i].name) == "compress0" && string(items[j].name) == "compress9") || (string(items[i].name) == "type double" && string(items[j].name) == "type int")))
                        continue; // contradicting
                    ex.run([=] { return string("config ") + FMT[fmt] + (unlim ? " unlimited: " : ": ") + (i < 0 ? "-" : items[i].name) + " + " + (j < 0 ? "-" : items[j].name); },
                           [&] {
                               auto r = std::make_shared<TestReader>(unlim ? BY_UNLIMITED : BY_BUILDER);
                               r->dim("x", 3);
                               r->dim("y", 2);
                               r->dim("unused", 4);
                               r->dim("t", 2, unlim);
                               Phys phys;
                               Str units, gatt;
                               Typ type;
                               Shp shape;
                               auto add = [&](const string& n, CDMDataType t, const vector<string>& sh, const VD& raw, const VD& ph, const string& u) {
                                   r->var(n, t, sh, raw);
                                   if (!u.empty())
                                       r->att(n, "units", u);
                                   phys[n] = ph;
                                   units[n] = u;
                                   type[n] = t;
                                   shape[n] = sh;
                               };
                               add("x", CDM_DOUBLE, {"x"}, {1, 2, 4}, {1, 2, 4}, "m");
                               const VD v = {1e5, 9e4, 9.5e4, 8e4, 7e4, 6e4, 1e4, -1, 2e4, 3e4, 4e4, 5e4};
                               VD vp;
                               for (double q : v)
                                   vp.push_back(q == -1 ? NAN : q * 0.01 + 10);
                               add("v", CDM_FLOAT, {"x", "y", "t"}, v, vp, "Pa");
                               r->att("v", "_FillValue", CDM_FLOAT, {-1});
                               r->att("v", "scale_factor", CDM_DOUBLE, {0.01});
                               r->att("v", "add_offset", CDM_DOUBLE, {10});
                               add("u", CDM_SHORT, {"y", "t"}, {1, 2, 3, 4}, {1, 2, 3, 4}, "");
                               add("w", CDM_SHORT, {"x"}, {5, 55, 6}, {5, NAN, 6}, "1");
                               r->att("w", "_FillValue", CDM_SHORT, {55});
                               for (const char* g : {"title", "history", "source"}) {
                                   r->att("", g, string("the ") + g);
                                   gatt[g] = string("the ") + g;
                               }
                               string xml;
                               bool keepDims = false, wGone = false;
                               string ucheck;
                               for (int k : {i, j}) {
                                   if (k < 0 || (k == j && i == j && k == i && !xml.empty()))
                                       continue;
                                   xml += items[k].xml;
                                   keepDims |= string(items[k].name) == "keep dims";
                                   wGone |= string(items[k].name) == "remove var";
                               }
                               // renames are applied last by the writer: apply the model in that order
                               vector<int> order;
                               for (int pass = 0; pass < 2; ++pass)
                                   for (int k : {i, j}) {
                                       if (k < 0 || (std::find(order.begin(), order.end(), k) != order.end()))
                                           continue;
                                       const bool ren = string(items[k].name).find("rename") == 0;
                                       if (ren == (pass == 1))
                                           order.push_back(k);
                                   }
                               bool attOnGone = false;
                               for (int k : order) {
                                   if (wGone && string(items[k].name) == "fill")
                                       attOnGone = true;
                                   else
                                       items[k].f(phys, units, type, shape, gatt);
                               }
                               if (attOnGone) {
                                   VF_CHECK(throws([&] { roundtrip(ex, r, fmt, xml); }), "setting an attribute of a removed variable is accepted");
                                   cleanDir(ex.scratch());
                                   return;
                               }
                               CDMReader_p b = roundtrip(ex, r, fmt, xml);
                               const CDM& cdm = b->getCDM();
                               VF_CHECK(cdm.getVariables().size() == phys.size(), cdm.getVariables().size() << " variables instead of " << phys.size());
                               VF_CHECK(cdm.hasDimension("unused") == keepDims, "unused dimension");
                               for (auto& q : phys) {
                                   VF_CHECK(cdm.hasVariable(q.first), "variable " << q.first << " is missing");
                                   const CDMVariable& var = cdm.getVariable(q.first);
                                   VF_CHECK(var.getShape() == shape[q.first], q.first << ": shape " << str(var.getShape()));
                                   VF_CHECK(var.getDataType() == type[q.first], q.first << ": type " << datatype2string(var.getDataType()));
                                   VF_CHECK(cdm.getUnits(q.first) == units[q.first], q.first << ": units " << cdm.getUnits(q.first));
                                   ex.step();
                                   expectClose(b->getScaledData(q.first), q.second, "values of " + q.first, 1e-6, 0.26);
                                   if (q.first != "v")
                                       expectClose(b->getScaledData(q.first), q.second, "values of " + q.first, 1e-6, 1e-6);
                               }
                               VF_CHECK(cdm.getAttributes(CDM::globalAttributeNS()).size() == gatt.size(), "number of global attributes");
                               for (auto& g : gatt)
                                   VF_CHECK(cdm.getAttribute(CDM::globalAttributeNS(), g.first).getStringValue() == g.second, "global attribute " << g.first);
                               VF_CHECK(unlim == (cdm.getUnlimitedDim() != nullptr), "unlimited dimension lost or gained");
                               ex.state(dump(b));
                               b.reset();
                               cleanDir(ex.scratch());
                           });
                }
}

void spaceEmpty(vf::Explorer& ex)
{
    ex.space("variables without data");
    for (int fmt = 0; fmt < NFMT; ++fmt)
        for (CDMDataType t : ALL)
            for (int unlim = 0; unlim < 2; ++unlim)
                for (int fill = 0; fill < 2; ++fill) {
                    if (!supports(fmt, t) || t == CDM_STRINGS || (fill && t == CDM_STRING))
                        continue;
                    ex.run([=] { return string("no data ") + FMT[fmt] + " " + datatype2string(t) + " unlimited " + std::to_string(unlim) + " fill " + std::to_string(fill); },
                           [&] {
                               struct Empty : public TestReader
                               {
                                   using TestReader::getDataSlice;
                                   DataPtr getDataSlice(const string& v, size_t p) override
                                   {
                                       if (v == "v")
                                           return createData(getCDM().getVariable(v).getDataType(), 0);
                                       return TestReader::getDataSlice(v, p);
                                   }
                                   DataPtr getData(const string& v) override
                                   {
                                       if (v == "v")
                                           return createData(getCDM().getVariable(v).getDataType(), 0);
                                       return TestReader::getData(v);
                                   }
                               };
                               auto r = std::make_shared<Empty>();
                               r->dim("x", 2);
                               r->dim("t", 2, unlim);
                               r->varData("v", t, {"x", "t"}, sample(t, 4, 3));
                               r->var("w", CDM_INT, {"x", "t"}, {1, 2, 3, 4});
                               if (fill)
                                   r->att("v", "_FillValue", t, {9});
                               CDMReader_p b = roundtrip(ex, r, fmt);
                               expectValues(b->getData("w"), {1, 2, 3, 4}, "the other variable");
                               if (t != CDM_STRING) {
                                   VD want(4, fill ? 9. : b->getCDM().getFillValue("v"));
                                   expectValues(b->getData("v"), want, "missing data reads as the fill value");
                               } else
                                   VF_CHECK(b->getData("v")->size() == 4, "size of text");
                               ex.state(dump(b));
                               b.reset();
                               cleanDir(ex.scratch());
                           });
                }
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceShapes(ex);
    spaceAtts(ex);
    spaceConfig(ex);
    spaceEmpty(ex);
}
