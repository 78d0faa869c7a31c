// C01: metadata editing agrees with a plain reference model, for every edit sequence
#include "vf.h"

#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMVariable.h"
#include "fimex/Data.h"

#include <algorithm>
#include <deque>
#include <map>
#include <set>

using namespace MetNoFimex;
using std::string;
using std::vector;

namespace {

struct MDim { size_t len; bool unlim; bool operator==(const MDim& o) const { return len == o.len && unlim == o.unlim; } };
struct MVar { CDMDataType type; vector<string> shape; };
typedef std::map<string, string> MAttrs;

struct Model
{
    std::map<string, MDim> dims;
    std::map<string, MVar> vars;
    std::map<string, MAttrs> attrs; // only for vars and _GLOBAL
    string canon() const
    {
        std::ostringstream o;
        for (auto& d : dims)
            o << "D" << d.first << d.second.len << (d.second.unlim ? "u" : "");
        for (auto& v : vars) {
            o << "V" << v.first << int(v.second.type) << "(";
            for (auto& s : v.second.shape)
                o << s << ",";
            o << ")";
        }
        for (auto& a : attrs)
            for (auto& p : a.second)
                o << "A" << a.first << "." << p.first << "=" << p.second;
        return o.str();
    }
    bool inUse(const string& d) const
    {
        if (!dims.count(d))
            return false;
        for (auto& v : vars)
            if (std::find(v.second.shape.begin(), v.second.shape.end(), d) != v.second.shape.end())
                return true;
        return false;
    }
};

enum Res { OK, R_TRUE, R_FALSE, R_THROW };
const char* resName(int r) { static const char* n[] = {"ok", "true", "false", "exception"}; return n[r]; }

struct Op
{
    string name;
    std::function<Res(Model&)> model;
    std::function<Res(CDM&)> impl;
};

Res b(bool x) { return x ? R_TRUE : R_FALSE; }

const string G = "_GLOBAL";

CDMAttribute mkattr(const string& n, const string& v) { return CDMAttribute(n, v); }

vector<Op> alphabet()
{
    vector<Op> ops;
    auto addDim = [&](const string& n, size_t len, bool unlim) {
        ops.push_back({"addDimension(" + n + "," + std::to_string(len) + (unlim ? ",unlimited)" : ")"),
                       [=](Model& m) {
                           if (m.dims.count(n))
                               return R_THROW;
                           m.dims[n] = MDim{len, unlim};
                           return OK;
                       },
                       [=](CDM& c) {
                           CDMDimension d(n, len);
                           d.setUnlimited(unlim);
                           c.addDimension(d);
                           return OK;
                       }});
    };
    auto addVar = [&](const string& n, CDMDataType t, vector<string> shape) {
        string s;
        for (auto& x : shape)
            s += x + " ";
        ops.push_back({"addVariable(" + n + "," + datatype2string(t) + ",[" + s + "])",
                       [=](Model& m) {
                           if (m.vars.count(n))
                               return R_THROW;
                           m.vars[n] = MVar{t, shape};
                           return OK;
                       },
                       [=](CDM& c) {
                           c.addVariable(CDMVariable(n, t, shape));
                           return OK;
                       }});
    };
    auto rmVar = [&](const string& n) {
        ops.push_back({"removeVariable(" + n + ")",
                       [=](Model& m) {
                           m.vars.erase(n);
                           m.attrs.erase(n);
                           return OK;
                       },
                       [=](CDM& c) {
                           c.removeVariable(n);
                           return OK;
                       }});
    };
    auto rnVar = [&](const string& o, const string& n) {
        ops.push_back({"renameVariable(" + o + "," + n + ")",
                       [=](Model& m) {
                           if (!m.vars.count(o))
                               return R_FALSE;
                           if (o == n)
                               return R_TRUE;
                           m.vars[n] = m.vars[o];
                           m.vars.erase(o);
                           m.attrs.erase(n);
                           if (m.attrs.count(o)) {
                               m.attrs[n] = m.attrs[o];
                               m.attrs.erase(o);
                           }
                           return R_TRUE;
                       },
                       [=](CDM& c) { return b(c.renameVariable(o, n)); }});
    };
    auto rmDim = [&](const string& n, int ign) {
        ops.push_back({"removeDimension(" + n + (ign < 0 ? ")" : ign ? ",true)" : ",false)"),
                       [=](Model& m) {
                           if (!m.dims.count(n))
                               return R_FALSE;
                           if (ign < 1 && m.inUse(n))
                               return R_THROW;
                           m.dims.erase(n);
                           return R_TRUE;
                       },
                       [=](CDM& c) { return b(ign < 0 ? c.removeDimension(n) : c.removeDimension(n, bool(ign))); }});
    };
    auto rnDim = [&](const string& o, const string& n, int ign) {
        ops.push_back({"renameDimension(" + o + "," + n + (ign < 0 ? ")" : ign ? ",true)" : ",false)"),
                       [=](Model& m) {
                           if (!m.dims.count(o))
                               return R_FALSE;
                           if (o == n)
                               return R_TRUE;
                           if (m.dims.count(n) && ign < 1 && m.inUse(n))
                               return R_THROW;
                           m.dims[n] = m.dims[o];
                           m.dims.erase(o);
                           for (auto& v : m.vars)
                               for (auto& s : v.second.shape)
                                   if (s == o)
                                       s = n;
                           return R_TRUE;
                       },
                       [=](CDM& c) { return b(ign < 0 ? c.renameDimension(o, n) : c.renameDimension(o, n, bool(ign))); }});
    };
    auto addAtt = [&](const string& v, const string& a, const string& val, bool repl) {
        ops.push_back({string(repl ? "addOrReplaceAttribute(" : "addAttribute(") + v + "," + a + "," + val + ")",
                       [=](Model& m) {
                           if (v != G && !m.vars.count(v))
                               return R_THROW;
                           if (!repl && m.attrs[v].count(a))
                               return R_THROW;
                           m.attrs[v][a] = val;
                           return OK;
                       },
                       [=](CDM& c) {
                           if (repl)
                               c.addOrReplaceAttribute(v, mkattr(a, val));
                           else
                               c.addAttribute(v, mkattr(a, val));
                           return OK;
                       }});
    };
    auto rmAtt = [&](const string& v, const string& a) {
        ops.push_back({"removeAttribute(" + v + "," + a + ")",
                       [=](Model& m) {
                           if (m.attrs.count(v))
                               m.attrs[v].erase(a);
                           return OK;
                       },
                       [=](CDM& c) {
                           c.removeAttribute(v, a);
                           return OK;
                       }});
    };
    addDim("x", 2, false);
    addDim("t", 3, true);
    addVar("a", CDM_FLOAT, {"x"});
    addVar("a", CDM_SHORT, {});
    addVar("b", CDM_INT, {"x", "t"});
    addAtt("a", "p", "1", false);
    addAtt("a", "p", "22", true);
    addAtt("a", "units", "m", false);
    addAtt("b", "p", "1", false);
    addAtt("b", "units", "km", true);
    addAtt(G, "p", "1", false);
    addAtt(G, "p", "33", true);
    rmAtt("a", "p");
    rmAtt("b", "units");
    rmAtt(G, "p");
    rmVar("a");
    rmVar("b");
    rnVar("a", "b");
    rnVar("b", "a");
    rnVar("a", "c");
    rnVar("a", "a");
    rmDim("x", -1);
    rmDim("x", 0);
    rmDim("x", 1);
    rmDim("t", -1);
    rnDim("x", "t", -1);
    rnDim("x", "t", 1);
    rnDim("t", "x", 0);
    rnDim("x", "y", -1);
    rnDim("x", "x", -1);
    return ops;
}

Res guarded(const std::function<Res(CDM&)>& f, CDM& c)
{
    try {
        return f(c);
    } catch (CDMException&) {
        return R_THROW;
    }
}

void compare(const Model& m, CDM& c, bool searches)
{
    const CDM& cc = c;
    // dimensions
    std::map<string, MDim> id;
    for (auto& d : cc.getDimensions()) {
        VF_CHECK(!id.count(d.getName()), "dimension '" << d.getName() << "' listed twice");
        id[d.getName()] = MDim{d.getLength(), d.isUnlimited() != 0};
    }
    VF_CHECK(id == m.dims, "dimension list differs: has " << id.size() << " expected " << m.dims.size() << " for " << m.canon());
    // variables
    std::set<string> iv, mv;
    for (auto& v : cc.getVariables()) {
        VF_CHECK(iv.insert(v.getName()).second, "variable '" << v.getName() << "' listed twice");
        auto it = m.vars.find(v.getName());
        VF_CHECK(it != m.vars.end(), "variable '" << v.getName() << "' should not exist");
        VF_CHECK(it->second.type == v.getDataType(), "variable '" << v.getName() << "' has wrong type");
        VF_CHECK(it->second.shape == v.getShape(), "variable '" << v.getName() << "' has wrong shape");
    }
    VF_CHECK(iv.size() == m.vars.size(), "variables missing: has " << iv.size() << " expected " << m.vars.size());
    bool hasUnlim = false;
    string unlimName;
    for (auto& d : m.dims)
        if (d.second.unlim) {
            hasUnlim = true;
            unlimName = d.first;
        }
    const CDMDimension* ud = cc.getUnlimitedDim();
    VF_CHECK((ud != nullptr) == hasUnlim, "unlimited dimension presence");
    if (ud)
        VF_CHECK(m.dims.count(ud->getName()) && m.dims.at(ud->getName()).unlim, "unlimited dimension is " << ud->getName());
    for (const string n : {"a", "b", "c"}) {
        const bool e = m.vars.count(n);
        VF_CHECK(cc.hasVariable(n) == e, "hasVariable(" << n << ")");
        bool thrown = false;
        try {
            VF_CHECK(cc.getVariable(n).getName() == n, "getVariable name");
        } catch (CDMException&) {
            thrown = true;
        }
        VF_CHECK(thrown == !e, "getVariable(" << n << ") exception");
        if (e) {
            bool u = false;
            for (auto& s : m.vars.at(n).shape)
                u |= (hasUnlim && s == unlimName);
            VF_CHECK(cc.hasUnlimitedDim(cc.getVariable(n)) == u, "hasUnlimitedDim(" << n << ")");
        }
    }
    for (const string n : {"x", "t", "y"}) {
        const bool e = m.dims.count(n);
        VF_CHECK(cc.hasDimension(n) == e, "hasDimension(" << n << ")");
        bool thrown = false;
        try {
            VF_CHECK(cc.getDimension(n).getName() == n, "getDimension name");
        } catch (CDMException&) {
            thrown = true;
        }
        VF_CHECK(thrown == !e, "getDimension(" << n << ") exception");
        VF_CHECK(cc.testDimensionInUse(n) == m.inUse(n), "testDimensionInUse(" << n << ")");
    }
    // attributes
    for (const string v : {"a", "b", "c", "_GLOBAL"}) {
        MAttrs want;
        if (m.attrs.count(v))
            want = m.attrs.at(v);
        MAttrs got;
        for (auto& a : cc.getAttributes(v)) {
            VF_CHECK(!got.count(a.getName()), "attribute " << v << "." << a.getName() << " listed twice");
            got[a.getName()] = a.getStringValue();
        }
        VF_CHECK(got == want, "attributes of " << v << ": " << got.size() << " expected " << want.size());
        for (const string a : {"p", "units"}) {
            const bool e = want.count(a);
            VF_CHECK(cc.hasAttribute(v, a) == e, "hasAttribute(" << v << "," << a << ")");
            CDMAttribute r;
            VF_CHECK(cc.getAttribute(v, a, r) == e, "getAttribute(" << v << "," << a << ",r)");
            if (e)
                VF_CHECK(r.getStringValue() == want[a] && r.getName() == a, "attribute value " << v << "." << a);
            bool thrown = false;
            try {
                VF_CHECK(cc.getAttribute(v, a).getStringValue() == want[a], "attribute value " << v << "." << a);
            } catch (CDMException&) {
                thrown = true;
            }
            VF_CHECK(thrown == !e, "getAttribute(" << v << "," << a << ") exception");
        }
        VF_CHECK(cc.getUnits(v) == (want.count("units") ? want["units"] : ""), "getUnits(" << v << ")");
    }
    // the complete attribute table contains nothing for variables which do not exist
    for (auto& it : cc.getAttributes())
        VF_CHECK(it.second.empty() || it.first == G || m.vars.count(it.first), "attributes of non-existing variable " << it.first);
    if (!searches)
        return;
    for (const string re : {"[0-9]+", "m"}) {
        for (const string a : {"p", "units"}) {
            std::set<string> want;
            for (auto& v : m.vars)
                if (m.attrs.count(v.first) && m.attrs.at(v.first).count(a)) {
                    const string& val = m.attrs.at(v.first).at(a);
                    bool match = re == ".*" || (re == "[0-9]+" && isdigit(val[0])) || val == re;
                    if (match)
                        want.insert(v.first);
                }
            vector<string> f = cc.findVariables(a, re);
            VF_CHECK(std::set<string>(f.begin(), f.end()) == want && f.size() == want.size(), "findVariables(" << a << "," << re << ")");
            std::map<string, string> q;
            q[a] = re;
            std::set<string> want2;
            for (auto& w : want)
                if (std::count(m.vars.at(w).shape.begin(), m.vars.at(w).shape.end(), "x"))
                    want2.insert(w);
            f = cc.findVariables(q, {"x"});
            VF_CHECK(std::set<string>(f.begin(), f.end()) == want2, "findVariables(" << a << "," << re << ",[x])");
        }
    }
}

// ---------------------------------------------------------------- derived information after edits
// every query for axes/coordinates must reflect the current content, not the content at an earlier query
CDM geoCDM()
{
    CDM c;
    c.addDimension(CDMDimension("x", 3));
    c.addDimension(CDMDimension("y", 2));
    c.addDimension(CDMDimension("z", 2));
    CDMDimension t("time", 2);
    t.setUnlimited(true);
    c.addDimension(t);
    auto ax = [&](const string& n, const string& sn, const string& u) {
        c.addVariable(CDMVariable(n, CDM_DOUBLE, {n}));
        c.addAttribute(n, CDMAttribute("standard_name", sn));
        c.addAttribute(n, CDMAttribute("units", u));
    };
    ax("x", "projection_x_coordinate", "m");
    ax("y", "projection_y_coordinate", "m");
    ax("z", "air_pressure", "hPa");
    c.addAttribute("z", CDMAttribute("axis", "Z"));
    ax("time", "time", "seconds since 1970-01-01 00:00:00");
    c.addVariable(CDMVariable("proj", CDM_INT, {}));
    c.addAttribute("proj", CDMAttribute("grid_mapping_name", "stereographic"));
    c.addAttribute("proj", CDMAttribute("latitude_of_projection_origin", CDM_DOUBLE, {"90"}));
    c.addAttribute("proj", CDMAttribute("longitude_of_projection_origin", CDM_DOUBLE, {"0"}));
    c.addAttribute("proj", CDMAttribute("scale_factor_at_projection_origin", CDM_DOUBLE, {"1"}));
    c.addAttribute("proj", CDMAttribute("earth_radius", CDM_DOUBLE, {"6371000"}));
    for (const string n : {"lon", "lat"}) {
        c.addVariable(CDMVariable(n, CDM_DOUBLE, {"x", "y"}));
        c.addAttribute(n, CDMAttribute("units", n == "lon" ? "degrees_east" : "degrees_north"));
        c.addAttribute(n, CDMAttribute("standard_name", n == "lon" ? "longitude" : "latitude"));
    }
    c.addVariable(CDMVariable("v", CDM_FLOAT, {"x", "y", "z", "time"}));
    c.addAttribute("v", CDMAttribute("grid_mapping", "proj"));
    c.addAttribute("v", CDMAttribute("coordinates", "lon lat"));
    c.addVariable(CDMVariable("w", CDM_FLOAT, {"x", "y"}));
    c.addAttribute("w", CDMAttribute("grid_mapping", "proj"));
    c.addAttribute("w", CDMAttribute("coordinates", "lon lat"));
    c.addAttribute(G, CDMAttribute("Conventions", "CF-1.4"));
    return c;
}

CDM rebuilt(const CDM& c)
{
    CDM n;
    for (auto& d : c.getDimensions())
        n.addDimension(d);
    for (auto& v : c.getVariables()) {
        n.addVariable(v);
        for (auto& a : c.getAttributes(v.getName()))
            n.addAttribute(v.getName(), a);
    }
    for (auto& a : c.getAttributes(G))
        n.addAttribute(G, a);
    return n;
}

string derived(const CDM& c)
{
    std::ostringstream o;
    for (auto& v : c.getVariables()) {
        const string n = v.getName();
        auto q = [&](const char* what, const std::function<string()>& f) {
            o << n << "." << what << "=";
            try {
                o << f();
            } catch (CDMException& e) {
                o << "<exception>";
            }
            o << ";";
        };
        q("X", [&] { return c.getHorizontalXAxis(n); });
        q("Y", [&] { return c.getHorizontalYAxis(n); });
        q("T", [&] { return c.getTimeAxis(n); });
        q("Z", [&] { return c.getVerticalAxis(n); });
        q("LL", [&] {
            string la, lo;
            bool r = c.getLatitudeLongitude(n, la, lo);
            return r ? la + "," + lo : string("none");
        });
        q("P", [&] {
            auto p = c.getProjectionOf(n);
            return p ? p->getProj4String() : string("none");
        });
    }
    return o.str();
}

struct GOp { string name; std::function<void(CDM&)> f; };

vector<GOp> geoOps()
{
    return {
        {"query", [](CDM& c) { derived(c); }},
        {"removeVariable(lat)", [](CDM& c) { c.removeVariable("lat"); }},
        {"renameVariable(lon,lon2)", [](CDM& c) { c.renameVariable("lon", "lon2"); }},
        {"removeAttribute(v,coordinates)", [](CDM& c) { c.removeAttribute("v", "coordinates"); }},
        {"removeAttribute(v,grid_mapping)", [](CDM& c) { c.removeAttribute("v", "grid_mapping"); }},
        {"replaceAttribute(proj,latitude)", [](CDM& c) { c.addOrReplaceAttribute("proj", CDMAttribute("latitude_of_projection_origin", CDM_DOUBLE, {"60"})); }},
        {"renameDimension(time,tid)+var", [](CDM& c) { c.renameDimension("time", "tid"); c.renameVariable("time", "tid"); }},
        {"renameVariable(v,u)", [](CDM& c) { c.renameVariable("v", "u"); }},
        {"addVariable(n)", [](CDM& c) { if (!c.hasVariable("n")) { c.addVariable(CDMVariable("n", CDM_FLOAT, {"x", "y"})); c.addAttribute("n", CDMAttribute("grid_mapping", "proj")); } }},
        {"replaceAttribute(z)", [](CDM& c) { c.removeAttribute("z", "axis"); c.removeAttribute("z", "standard_name"); c.removeAttribute("z", "units"); }},
        {"assign copy", [](CDM& c) { CDM d(c); CDM e; e = d; c = e; }},
    };
}

} // namespace

void vf::explore(Explorer& ex)
{
    const vector<Op> ops = alphabet();
    const size_t maxDepth = ex.bound(4, 6);
    struct Node { Model m; vector<uint8_t> path; };

    auto bfs = [&](const string& name, const vector<int>& prefix) {
        ex.space(name);
        std::set<string> seen;
        std::deque<Node> q;
        Node r;
        for (int p : prefix) {
            ops[p].model(r.m);
            r.path.push_back(p);
        }
        seen.insert(r.m.canon());
        q.push_back(r);
        while (!q.empty()) {
            Node n = q.front();
            q.pop_front();
            for (size_t k = 0; k < ops.size(); ++k) {
                Node nn;
                nn.m = n.m;
                const Res want = ops[k].model(nn.m);
                nn.path = n.path;
                nn.path.push_back(k);
                ex.run(
                    [&] {
                        string d;
                        for (auto p : nn.path)
                            d += ops[p].name + "; ";
                        return d;
                    },
                    [&] {
                        CDM c;
                        for (auto p : n.path)
                            guarded(ops[p].impl, c);
                        CDM copy(c); // copies are independent
                        const Res got = guarded(ops[k].impl, c);
                        ex.step(nn.path.size());
                        VF_CHECK(got == want, ops[k].name << " answered " << resName(got) << ", expected " << resName(want));
                        compare(nn.m, c, true);
                        compare(n.m, copy, false);
                        CDM assigned;
                        assigned = c;
                        compare(nn.m, assigned, false);
                        ex.state(nn.m.canon());
                    });
                if (nn.path.size() < prefix.size() + maxDepth && seen.insert(nn.m.canon()).second)
                    q.push_back(nn);
            }
        }
    };
    bfs("edit sequences from the empty dataset (breadth first, deduplicated)", {});
    // from a populated dataset: x,t,a[x],b[x,t] with attributes
    bfs("edit sequences from a populated dataset", {0, 1, 2, 4, 5, 7, 8, 10});

    ex.space("derived axes/projection after edits vs freshly built dataset");
    const vector<GOp> g = geoOps();
    const int depth = ex.bound(3, 4);
    vector<int> seq;
    std::function<void(int)> rec = [&](int d) {
        if (d > 0) {
            vector<int> s = seq;
            ex.run(
                [&, s] {
                    string n;
                    for (int i : s)
                        n += g[i].name + "; ";
                    return n;
                },
                [&, s] {
                    CDM c = geoCDM();
                    for (int i : s) {
                        try {
                            g[i].f(c);
                        } catch (CDMException&) {
                        }
                        ex.step();
                    }
                    const string have = derived(c), want = derived(rebuilt(c));
                    VF_CHECK(have == want, "derived information differs from that of an equal dataset: " << have << " expected " << want);
                    ex.state(have);
                });
        }
        if (d == depth)
            return;
        for (size_t i = 0; i < g.size(); ++i) {
            seq.push_back(i);
            rec(d + 1);
            seq.pop_back();
        }
    };
    rec(0);
}
