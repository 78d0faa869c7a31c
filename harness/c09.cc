// C09: aggregated datasets contain exactly their members' data, record by record
#include "fx.h"
#include "fimex/AggregationReader.h"
#include "fimex/CDMFileReaderFactory.h"

#include <algorithm>
#include <limits>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using namespace fx;

namespace {
using fx::str;
vf::Explorer* EX = nullptr;
const double FILL = -99;

/// a member dataset: lengths of x and of the unlimited dimension, and the variables it has
struct Member
{
    int x;          ///< length of x
    string u;       ///< name of the unlimited dimension, empty: none
    int n;          ///< its length
    string vars;    ///< letters: v(x,u) w(x) s() t(u) m=in-memory (x), k=in-memory (x,u), q(x,u) second record variable, c: scalar in memory
    bool byRecord;  ///< reads by record only
};
string str(const Member& m)
{
    return "{x=" + std::to_string(m.x) + (m.u.empty() ? string() : " " + m.u + "=" + std::to_string(m.n)) + " " + m.vars + "}";
}

struct RV
{
    vector<string> shape;
    VD data;
    CDMDataType type;
    bool memory;
};
struct RD
{
    std::map<string, std::pair<size_t, bool>> dims;
    std::map<string, RV> vars;
};

/// description and data of a member
RD describe(const Member& m, int idx)
{
    RD d;
    d.dims["x"] = {m.x, false};
    if (!m.u.empty())
        d.dims[m.u] = {m.n, true};
    const size_t nx = m.x, nu = m.n;
    auto add = [&](const string& name, const vector<string>& shape, CDMDataType t, bool mem) {
        size_t n = 1;
        for (const string& s : shape)
            n *= s == "x" ? nx : nu;
        VD v;
        for (size_t i = 0; i < n; ++i)
            v.push_back(idx * 20 + i + 3 * name.size() % 7 + (name[0] % 5));
        d.vars[name] = {shape, v, t, mem};
    };
    for (char c : m.vars) {
        if (c == 'w')
            add("w", {"x"}, CDM_FLOAT, false);
        if (c == 's')
            add("s", {}, CDM_INT, false);
        if (c == 'm')
            add("m", {"x"}, CDM_SHORT, true);
        if (c == 'c')
            add("c", {}, CDM_DOUBLE, true);
        if (m.u.empty())
            continue;
        if (c == 'v')
            add("v", {"x", m.u}, CDM_FLOAT, false);
        if (c == 'q')
            add("q", {"x", m.u}, CDM_SHORT, false);
        if (c == 't')
            add(m.u, {m.u}, CDM_DOUBLE, false);
        if (c == 'k')
            add("k", {"x", m.u}, CDM_INT, true);
    }
    return d;
}

CDMReader_p reader(const Member& m, int idx)
{
    const RD d = describe(m, idx);
    auto r = std::make_shared<TestReader>(m.byRecord ? BY_UNLIMITED : BY_BUILDER);
    for (const auto& dim : d.dims)
        r->dim(dim.first, dim.second.first, dim.second.second);
    for (const auto& v : d.vars) {
        if (v.second.memory)
            r->varMem(v.first, v.second.type, v.second.shape, mk(v.second.type, v.second.data));
        else
            r->var(v.first, v.second.type, v.second.shape, v.second.data);
        r->att(v.first, "_FillValue", v.second.type, {FILL});
        r->att(v.first, "member", std::to_string(idx));
    }
    return r;
}

bool has(const vector<string>& s, const string& d)
{
    return std::find(s.begin(), s.end(), d) != s.end();
}
size_t sizeOf(const RD& d, const RV& v, const string& without = "")
{
    size_t n = 1;
    for (const string& s : v.shape)
        if (s != without)
            n *= d.dims.at(s).first;
    return n;
}

/// the length of a dimension of the aggregation is the one of the first member bringing it
struct Want
{
    RD d;
    std::map<string, int> from; ///< first member having the variable
};

bool fits(const RD& agg, const RD& m, const RV& v, const string& u, bool limited)
{
    for (const string& s : v.shape) {
        if (s == u)
            continue;
        auto it = agg.dims.find(s);
        if (it == agg.dims.end()) {
            if (!limited && m.dims.at(s).second)
                for (const auto& d : agg.dims)
                    if (d.second.second)
                        return false; // two unlimited dimensions
            continue;
        }
        if (it->second.first != m.dims.at(s).first || (!limited && it->second.second != m.dims.at(s).second))
            return false;
    }
    return true;
}

void adopt(RD& agg, const RD& m, const RV& v, bool limited)
{
    for (const string& s : v.shape)
        if (!agg.dims.count(s))
            agg.dims[s] = {m.dims.at(s).first, m.dims.at(s).second && !limited};
}

Want unionOf(const vector<RD>& ms)
{
    Want w;
    for (size_t i = 0; i < ms.size(); ++i) {
        if (i == 0)
            w.d.dims = ms[0].dims;
        for (const auto& v : ms[i].vars)
            if (!w.d.vars.count(v.first) && fits(w.d, ms[i], v.second, "", false)) {
                adopt(w.d, ms[i], v.second, false);
                w.d.vars[v.first] = v.second;
                w.from[v.first] = i;
            }
    }
    return w;
}

Want joinExisting(const vector<RD>& ms)
{
    Want w;
    string u;
    size_t total = 0;
    std::set<string> joined;
    for (size_t i = 0; i < ms.size(); ++i) {
        if (i == 0)
            w.d.dims = ms[0].dims;
        string mu;
        for (const auto& d : ms[i].dims)
            if (d.second.second)
                mu = d.first;
        if (u.empty() && !mu.empty())
            u = mu;
        if (!u.empty() && mu == u) {
            total += ms[i].dims.at(u).first;
            w.d.dims[u] = {total, true};
            for (const auto& v : ms[i].vars)
                if (has(v.second.shape, u) && !joined.count(v.first) && fits(w.d, ms[i], v.second, u, false)) {
                    adopt(w.d, ms[i], v.second, false);
                    joined.insert(v.first);
                    w.d.vars[v.first] = v.second;
                    w.d.vars[v.first].memory = false;
                    w.from[v.first] = i;
                }
        }
        for (const auto& v : ms[i].vars)
            if (!w.d.vars.count(v.first) && fits(w.d, ms[i], v.second, "", false)) {
                adopt(w.d, ms[i], v.second, false);
                w.d.vars[v.first] = v.second;
                w.from[v.first] = i;
            }
    }
    for (const string& name : joined) {
        RV& jv = w.d.vars[name];
        jv.data.clear();
        const size_t n1 = sizeOf(w.d, jv, u);
        for (const RD& m : ms) {
            if (!m.dims.count(u) || !m.dims.at(u).second)
                continue;
            const size_t nu = m.dims.at(u).first;
            auto it = m.vars.find(name);
            if (it != m.vars.end() && it->second.shape == jv.shape && fits(w.d, m, it->second, u, false))
                jv.data.insert(jv.data.end(), it->second.data.begin(), it->second.data.end());
            else
                jv.data.insert(jv.data.end(), n1 * nu, FILL);
        }
    }
    return w;
}

Want joinNew(const vector<RD>& ms, const std::set<string>& names, const string& nd)
{
    Want w;
    for (size_t i = 0; i < ms.size(); ++i) {
        if (i == 0)
            for (const auto& d : ms[0].dims)
                w.d.dims[d.first] = {d.second.first, false};
        for (int pass = 0; pass < 2; ++pass) // joined variables bring their dimensions first
            for (const auto& v : ms[i].vars) {
                if (w.d.vars.count(v.first) || (names.count(v.first) != 0) != (pass == 0))
                    continue;
                if (!fits(w.d, ms[i], v.second, "", true))
                    continue;
                adopt(w.d, ms[i], v.second, true);
                w.d.vars[v.first] = v.second;
                w.from[v.first] = i;
            }
    }
    w.d.dims[nd] = {ms.size(), true};
    for (auto& v : w.d.vars) {
        if (!names.count(v.first))
            continue;
        const size_t n1 = sizeOf(w.d, v.second);
        RV jv = v.second;
        jv.data.clear();
        jv.memory = false;
        for (const RD& m : ms) {
            auto it = m.vars.find(v.first);
            if (it != m.vars.end() && it->second.shape == v.second.shape && fits(w.d, m, it->second, "", true))
                jv.data.insert(jv.data.end(), it->second.data.begin(), it->second.data.end());
            else
                jv.data.insert(jv.data.end(), n1, FILL);
        }
        jv.shape.push_back(nd);
        v.second = jv;
    }
    return w;
}

/// every read of the aggregation against the expectation
void verify(CDMReader_p r, const Want& w, const string& extraVar = "", bool attributes = true)
{
    const CDM& cdm = r->getCDM();
    std::set<string> got, want;
    for (const auto& v : cdm.getVariables())
        got.insert(v.getName());
    for (const auto& v : w.d.vars)
        want.insert(v.first);
    if (!extraVar.empty())
        want.insert(extraVar);
    VF_CHECK(got == want, "variables " << str(vector<string>(got.begin(), got.end())) << " instead of " << str(vector<string>(want.begin(), want.end())));
    for (const auto& kv : w.d.vars) {
        const string& name = kv.first;
        const RV& v = kv.second;
        VF_CHECK(cdm.getVariable(name).getShape() == v.shape, "shape of " << name << ": " << str(cdm.getVariable(name).getShape()) << " instead of " << str(v.shape));
        VF_CHECK(cdm.getVariable(name).getDataType() == v.type, "type of " << name);
        VS dims;
        bool unl = false;
        for (const string& s : v.shape) {
            VF_CHECK(cdm.hasDimension(s), name << " has the dimension " << s << " that is not in the dataset");
            const auto& d = w.d.dims.at(s);
            VF_CHECK(cdm.getDimension(s).getLength() == d.first, "length of " << s << " is " << cdm.getDimension(s).getLength() << " instead of " << d.first);
            VF_CHECK(cdm.getDimension(s).isUnlimited() == d.second, s << (d.second ? " is not" : " is") << " unlimited");
            dims.push_back(d.first);
            unl |= d.second;
        }
        if (attributes) {
            CDMAttribute a;
            VF_CHECK(cdm.getAttribute(name, "member", a) && a.getStringValue() == std::to_string(w.from.at(name)), "attributes of " << name << " are not those of the first member having it");
        }
        expectValues(r->getData(name), v.data, "all of " + name);
        // by record
        if (unl) {
            const size_t nu = dims.back(), n1 = prod(VS(dims.begin(), dims.end() - 1));
            for (size_t p = 0; p < nu; ++p)
                expectValues(r->getDataSlice(name, p), VD(v.data.begin() + p * n1, v.data.begin() + (p + 1) * n1), "record " + std::to_string(p) + " of " + name);
        } else
            expectValues(r->getDataSlice(name, 0), v.data, "slice of " + name);
        // every sub-array
        std::function<void(size_t, VS, VS)> rec = [&](size_t i, VS start, VS size) {
            if (i == dims.size()) {
                SliceBuilder sb(cdm, name);
                for (size_t k = 0; k < i; ++k)
                    sb.setStartAndSize(v.shape[k], start[k], size[k]);
                DataPtr d = r->getDataSlice(name, sb);
                expectValues(d, refSlice(v.data, dims, start, size), "sub-array " + str(start) + "+" + str(size) + " of " + name);
                VF_CHECK(!d || d->size() == 0 || d->getDataType() == v.type, "type of the data of " << name);
                EX->step();
                return;
            }
            for (size_t s = 0; s < dims[i]; ++s)
                for (size_t n = 1; s + n <= dims[i]; ++n) {
                    VS st = start, sz = size;
                    st.push_back(s);
                    sz.push_back(n);
                    rec(i + 1, st, sz);
                }
        };
        if (prod(dims) > 0)
            rec(0, {}, {});
    }
}

vector<Member> library(bool thorough)
{
    vector<Member> l = {
        {2, "time", 1, "vwt", false},   {2, "time", 2, "vwtsmk", false}, {3, "time", 2, "vqtw", false}, {2, "", 0, "wsm", false},
        {2, "rec", 2, "vwtq", false},   {2, "time", 2, "qtc", true},     {2, "time", 0, "vtq", false},  {2, "time", 3, "t", false},
        {3, "", 0, "mc", false},        {2, "time", 2, "kqm", false},
    };
    if (thorough) {
        l.push_back({1, "time", 1, "vqkwsmct", false});
        l.push_back({2, "time", 1, "vqkwsmct", true});
        l.push_back({2, "rec", 1, "kmc", false});
    }
    return l;
}

void api()
{
    const vector<Member> lib = library(EX->thorough());
    const char* types[] = {"union", "joinExisting", "joinNew"};
    EX->space("every sequence of up to three (thorough: four of the first ten) member datasets x union, joinExisting, joinNew");
    for (int type = 0; type < 3; ++type)
        for (size_t n = 1; n <= (EX->thorough() ? 4u : 3u); ++n)
            product(n, 0, n == 4 ? 9 : int(lib.size()) - 1, [=](const vector<int>& sel) {
                vector<Member> ms;
                string desc;
                for (int i : sel) {
                    ms.push_back(lib[i]);
                    desc += " " + str(lib[i]);
                }
                const int njoin = type == 2 ? 2 : 1;
                for (int j = 0; j < njoin; ++j) {
                    const std::set<string> names = j == 0 ? std::set<string>{"v", "s", "m", "c"} : std::set<string>{"w", "k", "time"};
                    EX->run([=] { return string(types[type]) + (j ? " of w, k, time" : type == 2 ? " of v, s, m, c" : "") + ":" + desc; },
                            [=] {
                                auto agg = std::make_shared<AggregationReader>(types[type]);
                                if (type == 2)
                                    agg->joinNewVars("run", names);
                                vector<RD> ds;
                                vector<CDMReader_p> rs;
                                vector<string> before;
                                for (size_t i = 0; i < ms.size(); ++i) {
                                    ds.push_back(describe(ms[i], i));
                                    rs.push_back(reader(ms[i], i));
                                    before.push_back(dump(rs.back()));
                                    agg->addReader(rs.back(), "member" + std::to_string(i), "");
                                }
                                agg->initAggregation();
                                const Want w = type == 0 ? unionOf(ds) : type == 1 ? joinExisting(ds) : joinNew(ds, names, "run");
                                verify(agg, w);
                                for (size_t i = 0; i < ms.size(); ++i)
                                    VF_CHECK(dump(rs[i]) == before[i], "member " << i << " changed");
                                EX->state(string(types[type]) + dumpCDM(agg->getCDM()));
                            });
                }
            });
}

void coordValues()
{
    EX->space("coordinate values given per member: numbers, text, none, wrong count");
    const vector<Member> lib = {{2, "time", 1, "vt", false}, {2, "time", 2, "vt", false}, {2, "", 0, "w", false}, {2, "time", 2, "v", false}};
    // values per member: 0 none, 1 right count, 2 one too many, 3 text
    for (int type = 1; type < 3; ++type)
        for (size_t n = 1; n <= 3; ++n)
            product(n, 0, int(lib.size()) - 1, [=](const vector<int>& sel) {
                product(n, 0, 3, [=](const vector<int>& cv) {
                    EX->run(
                        [=] {
                            string d = type == 1 ? "joinExisting" : "joinNew";
                            for (size_t i = 0; i < n; ++i)
                                d += " " + str(lib[sel[i]]) + (cv[i] == 0 ? " no value" : cv[i] == 1 ? " values" : cv[i] == 2 ? " too many values" : " text");
                            return d;
                        },
                        [=] {
                            vector<RD> ds;
                            auto agg = std::make_shared<AggregationReader>(type == 1 ? "joinExisting" : "joinNew");
                            if (type == 2)
                                agg->joinNewVars("run", {"v", "w"});
                            bool wrong = false, text = false, any = false, missing = false;
                            VD numbers;
                            vector<string> texts;
                            size_t total = 0;
                            bool hasTime = false;
                            for (size_t i = 0; i < n; ++i) {
                                const Member& m = lib[sel[i]];
                                const size_t len = type == 2 ? 1 : m.n;
                                string c;
                                if (cv[i])
                                    for (size_t k = 0; k < len + (cv[i] == 2); ++k) {
                                        const string one = cv[i] == 3 ? "a" + std::to_string(total + k) : std::to_string(100 - 5 * int(total + k));
                                        c += (k ? " " : "") + one;
                                        texts.push_back(one);
                                        numbers.push_back(100 - 5 * double(total + k));
                                    }
                                if (len) {
                                    wrong |= cv[i] == 2;
                                    text |= cv[i] == 3;
                                    any |= cv[i] != 0;
                                    missing |= cv[i] == 0;
                                }
                                if (type == 1 && !len && cv[i] == 2)
                                    texts.pop_back(), numbers.pop_back();
                                if (type == 1 && m.vars.find('t') != string::npos)
                                    hasTime = true;
                                total += len;
                                ds.push_back(describe(m, i));
                                if (wrong) {
                                    VF_CHECK(throws([&] { agg->addReader(reader(m, i), "m", c); }), "a wrong number of coordinate values is accepted");
                                    return;
                                }
                                agg->addReader(reader(m, i), "m", c);
                            }
                            const bool refuse = any && (missing || (type == 1 && text && hasTime));
                            string msg;
                            const bool threw = throws([&] { agg->initAggregation(); }, &msg);
                            VF_CHECK(threw == refuse, (threw ? "refused: " + msg : string("accepted though coordinate values are missing or no numbers")));
                            if (threw)
                                return;
                            Want w = type == 1 ? joinExisting(ds) : joinNew(ds, {"v", "w"}, "run");
                            if (type == 1) {
                                if (any && w.d.vars.count("time"))
                                    w.d.vars["time"].data = numbers;
                                verify(agg, w);
                            } else {
                                verify(agg, w, any ? "run" : "");
                                if (any && !text)
                                    expectValues(agg->getData("run"), numbers, "coordinate values");
                                else if (any) {
                                    DataPtr d = agg->getData("run");
                                    VF_CHECK(d->getDataType() == CDM_STRINGS && d->size() == n, "coordinate values are no text");
                                    for (size_t i = 0; i < n; ++i)
                                        VF_CHECK(d->asStrings()[i] == texts[i], "coordinate value " << i << " is '" << d->asStrings()[i] << "'");
                                }
                            }
                        });
                });
            });
}

void rmTree(const string& d)
{
    cleanDir(d + "/sub");
    rmdir((d + "/sub").c_str());
    cleanDir(d);
}

/// members as files, listed or scanned in NcML documents
void ncml()
{
    EX->space("NcML documents: members listed, nested or scanned (suffix, regular expression, sub-directories) x aggregation type x members");
    const vector<Member> lib = {{2, "time", 1, "vwt", false}, {2, "time", 2, "vwtsq", false}, {3, "time", 2, "vqtw", false}, {2, "", 0, "ws", false}};
    const char* types[] = {"union", "joinExisting", "joinNew"};
    // how: 0 listed, 1 scan suffix, 2 scan regExp, 3 scan with subdirs=false, 4 listed in reverse order, 5 nested aggregation of the first two, 6 listed plus scan, 7 two aggregations, 8 scan with another suffix
    for (int type = 0; type < 3; ++type)
        for (int how = 0; how < 9; ++how)
            for (size_t n = 2; n <= 3; ++n)
                product(n, 0, int(lib.size()) - 1, [=](const vector<int>& sel) {
                    if (how == 5 && n != 3)
                        return;
                    if (n == 3 && !EX->thorough() && how != 0 && how != 5 && sel[0] == sel[1])
                        return;
                    EX->run(
                        [=] {
                            const char* hows[] = {"listed", "scanned by suffix", "scanned by expression", "scanned without sub-directories", "listed in reverse order", "nested", "listed and scanned", "two aggregations", "scanned by another suffix"};
                            string d = string(types[type]) + " " + hows[how];
                            for (int i : sel)
                                d += " " + str(lib[i]);
                            return d;
                        },
                        [=] {
                            const string dir = EX->scratch() + "/agg";
                            rmTree(dir);
                            mkdir(dir.c_str(), 0777);
                            mkdir((dir + "/sub").c_str(), 0777);
                            vector<string> files;
                            vector<RD> ds;
                            for (size_t i = 0; i < n; ++i) {
                                // the last one in the sub-directory (sorted behind the files m*)
                                files.push_back(dir + (i + 1 == n ? "/sub/m" : "/m") + std::to_string(i) + (how == 8 && i == 0 ? ".nc4" : ".nc"));
                                CDMFileReaderFactory::createWriter(reader(lib[sel[i]], i), "nc4", files.back());
                                ds.push_back(describe(lib[sel[i]], i));
                            }
                            writeFile(dir + "/m0.txt", "no data");
                            const string ns = "xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"";
                            const string vars = type == 2 ? "<variableAgg name=\"v\"/><variableAgg name=\"s\"/>" : "";
                            const string head = string("<aggregation type=\"") + types[type] + "\"" + (type == 2 ? " dimName=\"run\"" : "") + ">" + vars;
                            auto list = [&](const vector<int>& order) {
                                string l;
                                for (int i : order)
                                    l += "<netcdf " + ns + " location=\"" + files[i] + "\"/>";
                                return l;
                            };
                            vector<int> order;
                            for (size_t i = 0; i < n; ++i)
                                order.push_back(i);
                            string body;
                            if (how == 0)
                                body = head + list(order) + "</aggregation>";
                            else if (how == 1)
                                body = head + "<scan location=\"" + dir + "\" suffix=\".nc\"/></aggregation>";
                            else if (how == 2)
                                body = head + "<scan location=\"" + dir + " netcdf\" regExp=\"m[0-9]\\.nc\"/></aggregation>";
                            else if (how == 3) {
                                body = head + "<scan location=\"" + dir + "\" suffix=\".nc\" subdirs=\"false\"/></aggregation>";
                                order.pop_back();
                            } else if (how == 4) {
                                std::reverse(order.begin(), order.end());
                                body = head + list(order) + "</aggregation>";
                            } else if (how == 5) {
                                body = head + "<netcdf " + ns + "><aggregation type=\"joinExisting\">" + list({0, 1}) + "</aggregation></netcdf>" + list({2}) + "</aggregation>";
                            } else if (how == 6) {
                                body = head + list({0}) + "<scan location=\"" + dir + "/sub\" suffix=\".nc\"/></aggregation>";
                                order = {0, int(n) - 1};
                            } else if (how == 7) {
                                body = head + list(order) + "</aggregation><aggregation type=\"union\">" + list({0}) + "</aggregation>";
                            } else {
                                body = head + "<scan location=\"" + dir + "\" suffix=\".nc\"/></aggregation>";
                                order.erase(order.begin());
                            }
                            vector<RD> in;
                            for (int i : order)
                                in.push_back(ds[i]);
                            if (how == 5) {
                                Want first = joinExisting({ds[0], ds[1]});
                                in = {first.d, ds[2]};
                            }
                            Want w = type == 0 ? unionOf(in) : type == 1 ? joinExisting(in) : joinNew(in, {"v", "s"}, "run");
                            const string xml = "<?xml version=\"1.0\"?>\n<netcdf " + ns + ">" + body + "</netcdf>\n";
                            writeFile(dir + "/agg.ncml", xml);
                            CDMReader_p r = CDMFileReaderFactory::create("ncml", dir + "/agg.ncml");
                            verify(r, w, type == 2 ? "run" : "", false);
                            if (type == 2) {
                                DataPtr d = r->getData("run");
                                VF_CHECK(d && d->size() == in.size(), "coordinate of the new dimension");
                                std::set<string> names;
                                for (size_t i = 0; i < in.size(); ++i)
                                    names.insert(d->asStrings()[i]);
                                VF_CHECK(names.size() == in.size(), "the coordinate values of the new dimension are not distinct");
                            }
                            rmTree(dir);
                            rmdir(dir.c_str());
                        });
                });
    EX->space("impossible aggregations are refused");
    const char* bad[] = {"<aggregation type=\"tiled\"/>", "<aggregation type=\"\"/>", "<aggregation type=\"joinExisting\"><netcdf location=\"/nonexistent/a.nc\"/></aggregation>"};
    for (const char* b : bad)
        EX->run([=] { return string(b); },
                [=] {
                    const string fn = EX->scratch() + "/bad.ncml";
                    writeFile(fn, "<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">" + string(b) + "</netcdf>");
                    VF_CHECK(throws([&] { CDMFileReaderFactory::create("ncml", fn); }), "accepted");
                    remove(fn.c_str());
                });
}
} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    api();
    coordValues();
    ncml();
}
