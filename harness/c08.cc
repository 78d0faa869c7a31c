// C08: an NcML document changes exactly what it says, data follow the description
#include "fx.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputString.h"

#include <algorithm>
#include <limits>
#include <set>

using namespace fx;

namespace {
using fx::str;
vf::Explorer* EX = nullptr;

const string NS = "xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"";

/// model of a dataset
struct MV
{
    CDMDataType type;
    vector<string> shape;
    VD data;
    std::map<string, string> atts;
    bool memory;
};
struct MD
{
    std::map<string, std::pair<size_t, bool>> dims;
    std::map<string, MV> vars;
    std::map<string, string> globals;
};

string aText(const string& v)
{
    return "string " + v;
}
string aNum(CDMDataType t, const VD& v)
{
    return datatype2string(t) + " " + str(v);
}
string aOf(const CDMAttribute& a)
{
    if (a.getDataType() == CDM_STRING)
        return aText(a.getStringValue());
    return aNum(a.getDataType(), values(a.getData()));
}

MD base(int variant)
{
    MD m;
    m.dims = {{"x", {3, false}}, {"y", {2, false}}, {"one", {1, false}}, {"spare", {4, false}}, {"time", {2, true}}};
    m.globals = {{"title", aText("the title")}, {"history", aText("made")}, {"number", aNum(CDM_INT, {4})}};
    m.vars["x"] = {CDM_DOUBLE, {"x"}, {10, 20, 30}, {{"units", aText("m")}, {"long_name", aText("easting")}, {"u0", aText("zero")}}, false};
    m.vars["y"] = {CDM_FLOAT, {"y"}, {5, 6}, {{"units", aText("m")}}, true};
    m.vars["time"] = {CDM_INT, {"time"}, {100, 200}, {{"units", aText("hours since 2000-01-01")}}, variant == 1};
    m.vars["v"] = {CDM_SHORT, {"x", "y", "time"}, iota(12, 1), {{"units", aText("K")}, {"long_name", aText("vee")}, {"scale_factor", aNum(CDM_DOUBLE, {0.5})}, {"add_offset", aNum(CDM_DOUBLE, {10})}}, false};
    m.vars["w"] = {CDM_FLOAT, {"x"}, {41, 42, 43}, {{"units", aText("1")}}, false};
    m.vars["k"] = {CDM_INT, {"x", "time"}, iota(6, 51), {{"units", aText("s")}}, true};
    m.vars["z"] = {CDM_INT, {"x", "one"}, {61, 62, 63}, {}, false};
    m.vars["s"] = {CDM_DOUBLE, {}, {71}, {{"units", aText("m")}}, variant == 1};
    return m;
}

TestReader_p reader(const MD& m, SliceMode mode)
{
    auto r = std::make_shared<TestReader>(mode);
    for (const auto& d : m.dims)
        r->dim(d.first, d.second.first, d.second.second);
    auto addAtt = [&](const string& var, const string& name, const string& repr) {
        const size_t sp = repr.find(' ');
        const string type = repr.substr(0, sp), val = repr.substr(sp + 1);
        if (type == "string")
            r->att(var, name, val);
        else {
            VD v;
            std::istringstream is(val.substr(1, val.size() - 2));
            for (double d; is >> d;)
                v.push_back(d);
            r->att(var, name, string2datatype(type), v);
        }
    };
    for (const auto& v : m.vars) {
        if (v.second.memory)
            r->varMem(v.first, v.second.type, v.second.shape, mk(v.second.type, v.second.data));
        else
            r->var(v.first, v.second.type, v.second.shape, v.second.data);
        for (const auto& a : v.second.atts)
            addAtt(v.first, a.first, a.second);
    }
    for (const auto& a : m.globals)
        addAtt(CDM::globalAttributeNS(), a.first, a.second);
    return r;
}

void verify(CDMReader_p r, const MD& m)
{
    const CDM& cdm = r->getCDM();
    std::map<string, std::pair<size_t, bool>> dims;
    for (const auto& d : cdm.getDimensions())
        dims[d.getName()] = {d.getLength(), d.isUnlimited()};
    auto ds = [](const std::map<string, std::pair<size_t, bool>>& d) {
        string s;
        for (const auto& e : d)
            s += " " + e.first + "=" + std::to_string(e.second.first) + (e.second.second ? "u" : "");
        return s;
    };
    VF_CHECK(dims == m.dims, "dimensions" << ds(dims) << " instead of" << ds(m.dims));
    std::set<string> got, want;
    for (const auto& v : cdm.getVariables())
        got.insert(v.getName());
    for (const auto& v : m.vars)
        want.insert(v.first);
    VF_CHECK(got == want && cdm.getVariables().size() == want.size(), "variables " << str(vector<string>(got.begin(), got.end())) << " instead of " << str(vector<string>(want.begin(), want.end())));
    auto atts = [&](const string& v) {
        std::map<string, string> a;
        for (const auto& e : cdm.getAttributes(v))
            a[e.getName()] = aOf(e);
        return a;
    };
    auto as = [](const std::map<string, string>& a) {
        string s;
        for (const auto& e : a)
            s += " " + e.first + "=" + e.second + ";";
        return s;
    };
    VF_CHECK(atts(CDM::globalAttributeNS()) == m.globals, "global attributes" << as(atts(CDM::globalAttributeNS())) << " instead of" << as(m.globals));
    for (const auto& kv : m.vars) {
        const string& name = kv.first;
        const MV& v = kv.second;
        const CDMVariable& var = cdm.getVariable(name);
        VF_CHECK(var.getShape() == v.shape, "shape of " << name << " is " << str(var.getShape()) << " instead of " << str(v.shape));
        VF_CHECK(var.getDataType() == v.type, "type of " << name << " is " << datatype2string(var.getDataType()) << " instead of " << datatype2string(v.type));
        VF_CHECK(atts(name) == v.atts, "attributes of " << name << ":" << as(atts(name)) << " instead of" << as(v.atts));
        DataPtr all = r->getData(name);
        expectValues(all, v.data, "data of " + name);
        VF_CHECK(!all || !all->size() || all->getDataType() == v.type, "data of " << name << " has type " << datatype2string(all->getDataType()) << " instead of " << datatype2string(v.type));
        if (v.data.empty())
            continue;
        VS ln;
        bool unl = false;
        for (const string& s : v.shape) {
            ln.push_back(m.dims.at(s).first);
            unl |= m.dims.at(s).second;
        }
        if (unl) {
            const size_t n1 = prod(VS(ln.begin(), ln.end() - 1));
            for (size_t p = 0; p < ln.back(); ++p)
                expectValues(r->getDataSlice(name, p), VD(v.data.begin() + p * n1, v.data.begin() + (p + 1) * n1), "record of " + name);
        } else
            expectValues(r->getDataSlice(name, 0), v.data, "slice of " + name);
        for (size_t i = 0; i < ln.size(); ++i)
            for (size_t p = 0; p < ln[i]; ++p) {
                VS start(ln.size(), 0), size = ln;
                start[i] = p;
                size[i] = std::min<size_t>(ln[i] - p, 2);
                SliceBuilder sb(cdm, name);
                sb.setStartAndSize(v.shape[i], start[i], size[i]);
                expectValues(r->getDataSlice(name, sb), refSlice(v.data, ln, start, size), "part of " + name);
            }
        EX->step(v.data.size());
    }
}

string doc(const string& body, const string& rootAtt = "")
{
    return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf " + NS + rootAtt + ">\n" + body + "</netcdf>\n";
}

struct Directive
{
    const char* xml;
    int phase;
    std::function<void(MD&)> apply;
};

void renameDim(MD& m, const string& from, const string& to)
{
    m.dims[to] = m.dims.at(from);
    m.dims.erase(from);
    for (auto& v : m.vars)
        for (string& s : v.second.shape)
            if (s == from)
                s = to;
}

/// take the first position along a dimension
void dropDim(MD& m, MV& v, const string& d)
{
    auto it = std::find(v.shape.begin(), v.shape.end(), d);
    if (it == v.shape.end())
        return;
    VS ln, start(v.shape.size(), 0);
    for (const string& s : v.shape)
        ln.push_back(m.dims.at(s).first);
    VS size = ln;
    size[it - v.shape.begin()] = 1;
    v.data = refSlice(v.data, ln, start, size);
    v.shape.erase(it);
}

const vector<Directive>& directives()
{
    static const vector<Directive> d = {
        {"<remove name=\"w\" type=\"variable\"/>", 0, [](MD& m) { m.vars.erase("w"); }},
        {"<remove name=\"title\" type=\"attribute\"/>", 0, [](MD& m) { m.globals.erase("title"); }},
        {"<variable name=\"v\"><remove name=\"long_name\" type=\"attribute\"/></variable>", 0, [](MD& m) { m.vars["v"].atts.erase("long_name"); }},
        {"<dimension name=\"xx\" orgName=\"x\"/>", 1, [](MD& m) { renameDim(m, "x", "xx"); }},
        {"<dimension name=\"t2\" orgName=\"time\" isUnlimited=\"true\"/>", 1, [](MD& m) { renameDim(m, "time", "t2"); }},
        {"<dimension name=\"extra\" length=\"2\"/>", 2, [](MD& m) { m.dims["extra"] = {2, false}; }},
        {"<dimension name=\"time\" isUnlimited=\"false\"/>", 3, [](MD& m) { if (m.dims.count("time")) m.dims["time"].second = false; }},
        {"<variable name=\"vv\" orgName=\"v\"/>", 5, [](MD& m) { m.vars["vv"] = m.vars["v"]; m.vars.erase("v"); }},
        {"<variable name=\"kk\" orgName=\"k\" type=\"double\"/>", 5, [](MD& m) { m.vars["kk"] = m.vars["k"]; m.vars.erase("k"); m.vars["kk"].type = CDM_DOUBLE; }},
        {"<variable name=\"y\" type=\"int\"/>", 7, [](MD& m) { m.vars["y"].type = CDM_INT; }},
        {"<variable name=\"w\"><values>7 8 9.5</values></variable>", 8, [](MD& m) { if (m.vars.count("w")) m.vars["w"].data = {7, 8, 9.5}; }},
        {"<variable name=\"n\" type=\"short\" shape=\"y one\"><values start=\"4\" increment=\"-3\"/></variable>", 8, [](MD& m) { m.vars["n"] = {CDM_SHORT, {"one", "y"}, {4, 1}, {}, true}; }},
        {"<variable name=\"x\"><attribute name=\"u0\" orgName=\"units\"/></variable>", 9, [](MD& m) { auto& a = m.vars["x"].atts; a["u0"] = a["units"]; a.erase("units"); }},
        {"<attribute name=\"title\" orgName=\"history\"/>", 9, [](MD& m) { m.globals["title"] = m.globals["history"]; m.globals.erase("history"); }},
        {"<attribute name=\"title\" value=\"new &amp; better\"/>", 10, [](MD& m) { m.globals["title"] = aText("new & better"); }},
        {"<variable name=\"x\"><attribute name=\"units\" type=\"float\" value=\"1 2.5\"/></variable>", 10, [](MD& m) { m.vars["x"].atts["units"] = aNum(CDM_FLOAT, {1, 2.5}); }},
        {"<variable name=\"z\" shape=\"x\"/>", 0, [](MD& m) { dropDim(m, m.vars["z"], "one"); }},
    };
    return d;
}

CDMReader_p ncml(CDMReader_p r, const string& xml)
{
    return std::make_shared<NcmlCDMReader>(r, XMLInputString(xml));
}

void subsets()
{
    const auto& ds = directives();
    // the shape change names the dimension before renaming is refused with a renamed one: kept apart below
    const int n = int(ds.size()) - 1;
    EX->space("every subset of " + std::to_string(n) + " changes in one document");
    for (int mask = 0; mask < (1 << n); ++mask) {
        if (!EX->thorough() && __builtin_popcount(mask) > 4 && __builtin_popcount(mask) < n - 3)
            continue;
        EX->run(
            [=] {
                string d;
                for (int i = 0; i < n; ++i)
                    if (mask & (1 << i))
                        d += string(" ") + ds[i].xml;
                return "document with" + (d.empty() ? " nothing" : d);
            },
            [=] {
                const int variant = __builtin_popcount(mask) % 2;
                const bool reverse = (mask / 2) % 2, byRecord = (mask / 4) % 2;
                MD m = base(variant);
                auto src = reader(m, byRecord ? BY_UNLIMITED : BY_BUILDER);
                const string before = dump(src);
                string body;
                for (int k = 0; k < n; ++k) {
                    const int i = reverse ? n - 1 - k : k;
                    if (mask & (1 << i))
                        body += string(ds[i].xml) + "\n";
                }
                for (int phase = 0; phase < 12; ++phase)
                    for (int i = 0; i < n; ++i)
                        if ((mask & (1 << i)) && ds[i].phase == phase)
                            ds[i].apply(m);
                auto r = ncml(src, doc(body));
                verify(r, m);
                VF_CHECK(dump(src) == before, "the source changed");
                EX->state(dumpCDM(r->getCDM()));
            });
    }
    EX->space("documents without changes");
    for (int variant = 0; variant < 2; ++variant)
        for (int mode = 0; mode < 2; ++mode)
            for (const string& body : vector<string>{"", "<!-- nothing -->", "<group name=\"g\"/>", "<variable name=\"nosuch\"/>", "<variable name=\"a\" orgName=\"nosuch\"/>", "<attribute name=\"a\" orgName=\"nosuch\"/>", "<dimension name=\"a\" orgName=\"nosuch\"/>", "<remove name=\"nosuch\" type=\"variable\"/>", "<remove name=\"nosuch\" type=\"attribute\"/>", "<variable name=\"nosuch\"><values>1</values></variable>", "<attribute name=\"empty\" value=\"\"/>", "<dimension name=\"x\" orgName=\"x\"/>", "<variable name=\"v\" orgName=\"v\"/>", "<attribute name=\"title\" orgName=\"title\"/>", "<variable name=\"v\" type=\"short\"/>", "<variable name=\"v\" shape=\"time y x\"/>", "<dimension name=\"x\" length=\"3\"/>", "<dimension name=\"time\" isUnlimited=\"true\"/>", "<dimension name=\"nosuch\" isUnlimited=\"true\"/>"})
                EX->run([=] { return "document with '" + body + "'"; }, [=] { verify(ncml(reader(base(variant), mode ? BY_UNLIMITED : BY_BUILDER), doc(body)), base(variant)); });
    EX->space("refused documents");
    for (const string& xml : vector<string>{
             "<other/>", "<netcdf/>", "<nc>", doc("<remove name=\"w\"/>"), doc("<remove type=\"variable\"/>"), doc("<remove name=\"w\" type=\"file\"/>"), doc("<remove name=\"x\" type=\"dimension\"/>"),
             doc("<variable name=\"v\"><remove name=\"units\"/></variable>"), doc("<variable name=\"v\"><remove name=\"units\" type=\"variable\"/></variable>"), doc("<variable orgName=\"v\"/>"), doc("<dimension orgName=\"x\"/>"),
             doc("<attribute orgName=\"title\"/>"), doc("<dimension name=\"y\" orgName=\"x\"/>"), doc("<dimension name=\"x\" isUnlimited=\"maybe\"/>"), doc("<variable name=\"v\" type=\"complex\"/>"), doc("<variable name=\"new\" type=\"complex\"/>"),
             doc("<variable name=\"w\"><values>1 2</values></variable>"), doc("<variable name=\"w\"><values>1 2 3 4</values></variable>"), doc("<variable name=\"w\"><values>1 2 x</values></variable>"), doc("<variable name=\"w\"><values start=\"1\"/></variable>"),
             doc("<variable name=\"w\"><values increment=\"1\"/></variable>"), doc("<variable name=\"w\"><values start=\"1\" increment=\"1\">1 2 3</values></variable>"), doc("<variable name=\"w\"><values/></variable>"), doc("<variable name=\"s\"><values>1 2</values></variable>"),
             doc("<attribute name=\"a\" type=\"complex\" value=\"1\"/>"), doc("<attribute name=\"a\" type=\"int\" value=\"one\"/>"), doc("<variable name=\"nosuch\"><attribute name=\"a\" value=\"1\"/></variable>"),
             doc("<variable name=\"new\" type=\"int\"><attribute name=\"_Unsigned\" value=\"perhaps\"/></variable>"), doc("<dimension name=\"d\" length=\"many\"/>")})
        EX->run([=] { return "document " + xml; }, [=] { VF_CHECK(throws([&] { ncml(reader(base(0), BY_BUILDER), xml); }), "accepted"); });
    EX->space("removing unused and dropping dimensions");
    for (int mode = 0; mode < 2; ++mode)
        for (const string& sh : vector<string>{"time x", "time y", "time", "y x", "x", "y", ""})
            EX->run([=] { return "v with shape '" + sh + "'" + (mode ? " read by record" : ""); },
                    [=] {
                        MD m = base(0);
                        for (const char* d : {"x", "y", "time"})
                            if ((" " + sh + " ").find(string(" ") + d + " ") == string::npos)
                                dropDim(m, m.vars["v"], d);
                        dropDim(m, m.vars["z"], "one");
                        m.dims.erase("spare");
                        verify(ncml(reader(base(0), mode ? BY_UNLIMITED : BY_BUILDER), doc("<remove name=\"spare\" type=\"dimension\"/><variable name=\"v\" shape=\"" + sh + "\"/><variable name=\"z\" shape=\"x\"/>")), m);
                    });
}

/// simultaneous renaming: orgName is the name in the source
void renames()
{
    const vector<string> names = {"v", "w", "z", "k"}, targets = {"v", "w", "z", "k", "q"};
    EX->space("every injective renaming of four variables, in every order of the document");
    product(4, 0, 4, [=](const vector<int>& to) {
        std::set<int> s(to.begin(), to.end());
        if (s.size() != 4)
            return;
        vector<int> order = {0, 1, 2, 3};
        do {
            const vector<int> o = order;
            EX->run(
                [=] {
                    string d;
                    for (int i : o)
                        d += " " + names[i] + "->" + targets[to[i]];
                    return "variables" + d;
                },
                [=] {
                    const MD b = base(0);
                    MD m = b;
                    string body;
                    for (const string& n : names)
                        m.vars.erase(n);
                    for (int i : o) {
                        m.vars[targets[to[i]]] = b.vars.at(names[i]);
                        body += "<variable name=\"" + targets[to[i]] + "\" orgName=\"" + names[i] + "\"/>";
                    }
                    verify(ncml(reader(b, BY_BUILDER), doc(body)), m);
                });
        } while (std::next_permutation(order.begin(), order.end()));
    });
    EX->space("every injective renaming of three dimensions and of their coordinate variables, in every order of the document");
    const vector<string> dn = {"x", "y", "time"}, dt = {"x", "y", "time", "a"};
    for (int coord = 0; coord < 2; ++coord)
        product(3, 0, 3, [=](const vector<int>& to) {
            std::set<int> s(to.begin(), to.end());
            if (s.size() != 3)
                return;
            vector<int> order = {0, 1, 2};
            do {
                const vector<int> o = order;
                EX->run(
                    [=] {
                        string d;
                        for (int i : o)
                            d += " " + dn[i] + "->" + dt[to[i]];
                        return string(coord ? "dimensions and variables" : "dimensions") + d;
                    },
                    [=] {
                        const MD b = base(0);
                        MD m = b;
                        string body;
                        for (int i : o) {
                            m.dims.erase(dn[i]);
                            if (coord)
                                m.vars.erase(dn[i]);
                        }
                        for (int i : o) {
                            m.dims[dt[to[i]]] = b.dims.at(dn[i]);
                            if (coord)
                                m.vars[dt[to[i]]] = b.vars.at(dn[i]);
                            body += "<dimension name=\"" + dt[to[i]] + "\" orgName=\"" + dn[i] + "\"/>";
                            if (coord)
                                body += "<variable name=\"" + dt[to[i]] + "\" orgName=\"" + dn[i] + "\"/>";
                        }
                        for (auto& v : m.vars)
                            for (string& d : v.second.shape)
                                for (int i = 0; i < 3; ++i)
                                    if (d == dn[i]) {
                                        d = dt[to[i]];
                                        break;
                                    }
                        verify(ncml(reader(b, BY_BUILDER), doc(body)), m);
                    });
            } while (std::next_permutation(order.begin(), order.end()));
        });
    EX->space("every injective renaming of three attributes, in every order of the document and of the attributes");
    const vector<string> an = {"a", "b", "c"}, at = {"a", "b", "c", "d"};
    for (int global = 0; global < 2; ++global)
        for (int have = 0; have < 6; ++have)
            product(3, -1, 3, [=](const vector<int>& to) {
                std::set<int> s;
                int n = 0;
                for (int t : to)
                    if (t >= 0) {
                        s.insert(t);
                        ++n;
                    }
                if (int(s.size()) != n || n == 0 || n > (EX->thorough() ? 3 : 1))
                    return;
                if (n > 1) // chains depend on the document order: only renaming to new or replaced, unrenamed names
                    for (int t : to)
                        if (t >= 0 && t < 3 && to[t] >= 0)
                            return;
                EX->run(
                    [=] {
                        string d = global ? "global attributes" : "attributes";
                        for (int i = 0; i < 3; ++i)
                            if (to[i] >= 0)
                                d += " " + an[i] + "->" + at[to[i]];
                        return d + ", order " + std::to_string(have);
                    },
                    [=] {
                        vector<int> perm = {0, 1, 2};
                        for (int i = 0; i < have; ++i)
                            std::next_permutation(perm.begin(), perm.end());
                        auto r = std::make_shared<TestReader>();
                        r->dim("x", 2);
                        r->var("v", CDM_INT, {"x"}, {1, 2});
                        const string var = global ? CDM::globalAttributeNS() : string("v");
                        std::map<string, string> want;
                        for (int i : perm) {
                            r->att(var, an[i], "value " + an[i]);
                            want[an[i]] = aText("value " + an[i]);
                        }
                        string body;
                        for (int i = 0; i < 3; ++i)
                            if (to[i] >= 0) {
                                body += "<attribute name=\"" + at[to[i]] + "\" orgName=\"" + an[i] + "\"/>";
                                const string val = want.at(an[i]);
                                want.erase(an[i]);
                                want[at[to[i]]] = val;
                            }
                        if (!global)
                            body = "<variable name=\"v\">" + body + "</variable>";
                        auto n = ncml(r, doc(body));
                        std::map<string, string> got;
                        for (const auto& e : n->getCDM().getAttributes(var))
                            got[e.getName()] = aOf(e);
                        string g, w;
                        for (const auto& e : got)
                            g += " " + e.first + "=" + e.second;
                        for (const auto& e : want)
                            w += " " + e.first + "=" + e.second;
                        VF_CHECK(got == want && n->getCDM().getAttributes(var).size() == want.size(), "attributes" << g << " instead of" << w);
                        EX->step();
                    });
            });
}

struct NT
{
    const char* name;
    bool unsig;
    CDMDataType type;
    double lo, hi;
};
const NT ntypes[] = {{"byte", false, CDM_CHAR, -128, 127},      {"short", false, CDM_SHORT, -32768, 32767}, {"int", false, CDM_INT, -2147483648., 2147483647.}, {"long", false, CDM_INT64, -1e15, 1e15},
                     {"byte", true, CDM_UCHAR, 0, 255},         {"short", true, CDM_USHORT, 0, 65535},      {"int", true, CDM_UINT, 0, 4294967295.},             {"long", true, CDM_UINT64, 0, 1e15},
                     {"float", false, CDM_FLOAT, -1e30, 1e30},  {"double", false, CDM_DOUBLE, -1e30, 1e30}};

void types()
{
    EX->space("type changes: every type of the source x every NcML type x packing of source and result x in-memory or not");
    for (CDMDataType st : numericTypes())
        for (const NT& nt : ntypes)
            for (int srcPack = 0; srcPack < 2; ++srcPack)
                for (int newPack = 0; newPack < 4; ++newPack) // as is, other scale, fill value, all
                    for (int mem = 0; mem < 2; ++mem)
                        for (int renamed = 0; renamed < 2; ++renamed)
                            EX->run(
                                [=] { return datatype2string(st) + (srcPack ? " packed" : "") + (mem ? " in memory" : "") + " to " + (nt.unsig ? "unsigned " : "") + nt.name + (newPack == 1 ? " with scale" : newPack == 2 ? " with fill value" : newPack == 3 ? " with scale and fill value" : "") + (renamed ? ", renamed" : ""); },
                                [=] {
                                    if (st == nt.type && newPack)
                                        return; // no conversion
                                    auto r = std::make_shared<TestReader>();
                                    r->dim("x", 4);
                                    const VD raw = {0, 2, 120, 10};
                                    if (mem)
                                        r->varMem("v", st, {"x"}, mk(st, raw));
                                    else
                                        r->var("v", st, {"x"}, raw);
                                    double s0 = 1, o0 = 0, s1, o1, f1 = 120;
                                    if (srcPack) {
                                        s0 = 0.5;
                                        o0 = 20;
                                        r->att("v", "scale_factor", CDM_DOUBLE, {s0});
                                        r->att("v", "add_offset", CDM_DOUBLE, {o0});
                                    }
                                    const bool fill = newPack >= 2;
                                    if (fill)
                                        r->att("v", "_FillValue", st, {120});
                                    s1 = s0;
                                    o1 = o0;
                                    string atts;
                                    if (newPack == 1 || newPack == 3) {
                                        s1 = 0.25;
                                        o1 = -5;
                                        atts += "<attribute name=\"scale_factor\" type=\"double\" value=\"0.25\"/><attribute name=\"add_offset\" type=\"double\" value=\"-5\"/>";
                                    }
                                    if (fill) {
                                        f1 = 125;
                                        // signed types only for the attribute: unsigned ones cannot be written in it
                                        if (nt.unsig)
                                            return;
                                        atts += string("<attribute name=\"_FillValue\" type=\"") + nt.name + "\" value=\"125\"/>";
                                    }
                                    if (nt.unsig)
                                        atts += "<attribute name=\"_Unsigned\" value=\"true\"/>";
                                    const string name = renamed ? "vv" : "v";
                                    VD want;
                                    for (double x : raw) {
                                        double y = (fill && x == 120) ? f1 : (x * s0 + o0 - o1) / s1;
                                        if (y < nt.lo || y > nt.hi)
                                            return; // not representable
                                        want.push_back(y);
                                    }
                                    auto n = ncml(r, doc("<variable name=\"" + name + "\"" + (renamed ? " orgName=\"v\"" : "") + " type=\"" + nt.name + "\">" + atts + "</variable>"));
                                    VF_CHECK(n->getCDM().getVariable(name).getDataType() == nt.type, "declared type is " << datatype2string(n->getCDM().getVariable(name).getDataType()));
                                    for (int how = 0; how < 3; ++how) {
                                        SliceBuilder sb(n->getCDM(), name);
                                        DataPtr d = how == 0 ? n->getData(name) : how == 1 ? n->getDataSlice(name, 0) : n->getDataSlice(name, sb);
                                        VF_CHECK(d && d->getDataType() == nt.type, "data have type " << datatype2string(d->getDataType()));
                                        expectValues(d, want, "converted values");
                                    }
                                    EX->step(12);
                                });
    EX->space("values: every NcML type x list, separator, start and increment x shape; unlimited dimension of length 0..2");
    for (const NT& nt : ntypes)
        for (int how = 0; how < 4; ++how)
            for (int shape = 0; shape < 4; ++shape)
                for (size_t nt0 = 0; nt0 < 3; ++nt0)
                    for (int exists = 0; exists < 3; ++exists) // new, existing of the same type, existing in memory of another type
                        EX->run(
                            [=] { return string(nt.unsig ? "unsigned " : "") + nt.name + (how == 0 ? " list" : how == 1 ? " with separator" : how == 2 ? " start and increment" : " list over several lines") + ", shape " + std::to_string(shape) + ", records " + std::to_string(nt0) + (exists == 1 ? ", existing" : exists == 2 ? ", existing of another type" : ""); },
                            [=] {
                                auto r = std::make_shared<TestReader>();
                                r->dim("x", 2);
                                r->dim("y", 3);
                                r->dim("t", nt0, true);
                                const vector<string> shp = shape == 0 ? vector<string>{} : shape == 1 ? vector<string>{"x"} : shape == 2 ? vector<string>{"x", "y"} : vector<string>{"x", "t"};
                                const size_t n = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? 6 : 2 * nt0;
                                if (exists == 1)
                                    r->var("n", nt.type, shp, iota(n, 50));
                                else if (exists == 2)
                                    r->varMem("n", nt.type == CDM_SHORT ? CDM_INT : CDM_SHORT, shp, mk(nt.type == CDM_SHORT ? CDM_INT : CDM_SHORT, iota(n, 50)));
                                VD want;
                                string list;
                                for (size_t i = 0; i < n; ++i) {
                                    want.push_back(3 + 2. * i);
                                    list += (i ? how == 1 ? "|" : how == 3 ? "\n\t " : " " : "") + std::to_string(3 + 2 * i);
                                }
                                if (n == 0 && how != 2)
                                    return; // an empty list cannot be written
                                string ncmlShape;
                                for (size_t i = shp.size(); i-- > 0;)
                                    ncmlShape += (ncmlShape.empty() ? "" : " ") + shp[i];
                                string v = how == 2 ? "<values start=\"3\" increment=\"2\"/>" : string("<values") + (how == 1 ? " separator=\"|\"" : "") + ">" + list + "</values>";
                                if (nt.unsig)
                                    v += "<attribute name=\"_Unsigned\" value=\"true\"/>";
                                auto c = ncml(r, doc("<variable name=\"n\" type=\"" + string(nt.name) + "\" shape=\"" + ncmlShape + "\">" + v + "</variable>"));
                                VF_CHECK(c->getCDM().getVariable("n").getDataType() == nt.type, "declared type is " << datatype2string(c->getCDM().getVariable("n").getDataType()));
                                VF_CHECK(c->getCDM().getVariable("n").getShape() == shp, "shape is " << str(c->getCDM().getVariable("n").getShape()));
                                expectValues(c->getData("n"), want, "values");
                                if (n)
                                    VF_CHECK(c->getData("n")->getDataType() == nt.type, "type of the values");
                                EX->step(n);
                            });
    EX->space("attributes: every NcML type x number of values x as value or as content x separator");
    for (int t = -1; t < 10; ++t)
        for (int nv = 1; nv <= 3; ++nv)
            for (int how = 0; how < 4; ++how)
                for (int var = 0; var < 2; ++var)
                    EX->run(
                        [=] { return string(t < 0 ? "text" : ntypes[t].name) + " attribute with " + std::to_string(nv) + " values, " + (how & 1 ? "content" : "value") + (how & 2 ? ", separator" : "") + (var ? " of a variable" : ""); },
                        [=] {
                            if (t >= 0 && ntypes[t].unsig)
                                return;
                            const char* words[] = {"10", "20", "30"};
                            string list, sep = (how & 2) ? "*" : " ";
                            VD want;
                            for (int i = 0; i < nv; ++i) {
                                list += (i ? sep : string()) + words[i];
                                want.push_back(10 * (i + 1));
                            }
                            string a = "<attribute name=\"a\"" + (t < 0 ? string(how & 2 ? " type=\"String\"" : "") : " type=\"" + string(ntypes[t].name) + "\"") + ((how & 2) ? " separator=\"*\"" : "") + ((how & 1) ? ">" + list + "</attribute>" : " value=\"" + list + "\"/>");
                            if (var)
                                a = "<variable name=\"w\">" + a + "</variable>";
                            MD m = base(0);
                            (var ? m.vars["w"].atts : m.globals)["a"] = t < 0 ? aText(list) : aNum(ntypes[t].type, want);
                            verify(ncml(reader(base(0), BY_BUILDER), doc(a)), m);
                        });
}

void unlimited()
{
    EX->space("changing the unlimited dimension x coordinate variable in memory or not, renamed or not");
    for (int mem = 0; mem < 2; ++mem)
        for (int srcUnl = 0; srcUnl < 2; ++srcUnl)
            for (int newUnl = 0; newUnl < 2; ++newUnl)
                for (int renDim = 0; renDim < 2; ++renDim)
                    for (int renVar = 0; renVar < 2; ++renVar)
                        for (int other = 0; other < 3; ++other) // a variable with the dimension's new name / type change of the coordinate
                            for (int mode = 0; mode < 2; ++mode)
                                EX->run(
                                    [=] { return string(srcUnl ? "unlimited" : "fixed") + " to " + (newUnl ? "unlimited" : "fixed") + (renDim ? ", dimension renamed" : "") + (renVar ? ", variable renamed" : "") + (mem ? ", in memory" : "") + (other == 1 ? ", other variable with the new name" : other == 2 ? ", type changed" : "") + (mode ? ", read by record" : ""); },
                                    [=] {
                                        MD m;
                                        m.dims = {{"x", {2, false}}, {"r", {3, srcUnl != 0}}};
                                        m.vars["r"] = {CDM_FLOAT, {"r"}, {7, 8, 9}, {{"units", aText("m")}}, mem != 0};
                                        m.vars["v"] = {CDM_INT, {"x", "r"}, iota(6, 20), {}, false};
                                        if (other == 1)
                                            m.vars["q"] = {CDM_INT, {"r"}, {91, 92, 93}, {}, false};
                                        auto src = reader(m, mode ? BY_UNLIMITED : BY_BUILDER);
                                        string body = string("<dimension name=\"") + (renDim ? "q" : "r") + "\"" + (renDim ? " orgName=\"r\"" : "") + " isUnlimited=\"" + (newUnl ? "true" : "false") + "\"/>";
                                        if (renVar && other == 1)
                                            return; // would replace the other variable
                                        const string cn = renVar ? "q" : "r";
                                        if (renVar || other == 2)
                                            body += "<variable name=\"" + cn + "\"" + (renVar ? " orgName=\"r\"" : "") + (other == 2 ? " type=\"double\"" : "") + "/>";
                                        if (renDim)
                                            renameDim(m, "r", "q");
                                        m.dims[renDim ? "q" : "r"].second = newUnl;
                                        if (renVar) {
                                            m.vars["q"] = m.vars["r"];
                                            m.vars.erase("r");
                                        }
                                        if (other == 2)
                                            m.vars[cn].type = CDM_DOUBLE;
                                        verify(ncml(src, doc(body)), m);
                                    });
}

void files()
{
    EX->space("NcML documents naming their file, against the same change of the opened file; spatial vectors");
    for (int i = 0; i < int(directives().size()) - 1; ++i)
        for (int j = i; j < int(directives().size()) - 1; ++j)
            EX->run([=] { return string("file with ") + directives()[i].xml + directives()[j].xml; },
                    [=] {
                        const string fn = EX->scratch() + "/src.nc", nc = EX->scratch() + "/src.ncml";
                        remove(fn.c_str());
                        CDMFileReaderFactory::createWriter(reader(base(0), BY_BUILDER), "nc4", fn);
                        const string body = string(directives()[i].xml) + (i == j ? "" : directives()[j].xml);
                        writeFile(nc, doc(body, " location=\"" + fn + "\""));
                        auto a = CDMFileReaderFactory::create("ncml", nc);
                        auto b = ncml(CDMFileReaderFactory::create("netcdf", fn), doc(body));
                        VF_CHECK(dump(a) == dump(b), "different datasets:\n" << dump(a) << "\n" << dump(b));
                        MD m = base(0);
                        for (int phase = 0; phase < 12; ++phase)
                            for (int k : {i, j})
                                if (directives()[k].phase == phase && (k == i || i != j)) {
                                    directives()[k].apply(m);
                                    if (i == j)
                                        break;
                                }
                        expectValues(a->getScaledData("z"), {61, 62, 63}, "z");
                        for (const auto& v : m.vars)
                            expectValues(a->getData(v.first), v.second.data, v.first);
                        remove(fn.c_str());
                        remove(nc.c_str());
                        EX->step();
                    });
    for (const char* dir : {"x", "y", "grid_eastward", "longitude", "latitude", "grid_northward"})
        EX->run([=] { return string("spatial vector in direction ") + dir; },
                [=] {
                    auto r = ncml(reader(base(0), BY_BUILDER), doc(string("<variable name=\"v\"><spatial_vector direction=\"") + dir + "\" counterpart=\"w\"/></variable>"));
                    const CDMVariable& v = r->getCDM().getVariable("v");
                    VF_CHECK(v.isSpatialVector() && v.getSpatialVectorCounterpart() == "w", "not a spatial vector");
                    VF_CHECK(!r->getCDM().getVariable("w").isSpatialVector(), "the counterpart is one, too");
                });
}
} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    subsets();
    renames();
    types();
    unlimited();
    files();
}
