// C04: extraction = selection of the original
#include "fx.h"

#include "fimex/CDMExtractor.h"
#include "fimex/FimexTime.h"

#include <set>

using namespace fx;

namespace {
typedef std::map<string, vector<size_t>> Sel; // selected original positions per dimension

struct Var
{
    string name;
    vector<string> shape;
    CDMDataType type;
};

/// elements of the full array selected by sel, then cut by start/size
VD pick(const VD& all, const vector<string>& shape, const std::map<string, size_t>& len, const Sel& sel, const VS& start, const VS& size)
{
    VD out;
    if (prod(size) == 0)
        return out;
    VS p(shape.size(), 0);
    for (;;) {
        size_t off = 0, stride = 1;
        for (size_t i = 0; i < shape.size(); ++i) {
            off += sel.at(shape[i]).at(start[i] + p[i]) * stride;
            stride *= len.at(shape[i]);
        }
        out.push_back(all.at(off));
        size_t i = 0;
        for (; i < shape.size(); ++i) {
            if (++p[i] < size[i])
                break;
            p[i] = 0;
        }
        if (i == shape.size())
            break;
    }
    return out;
}

struct World
{
    TestReader_p r;
    vector<Var> vars;
    std::map<string, size_t> len;
    std::map<string, VD> data;
    Sel full;
    string unlimited;
};

World makeWorld(SliceMode mode, bool unlim)
{
    World w;
    w.r = std::make_shared<TestReader>(mode);
    const vector<std::pair<string, size_t>> dims = {{"x", 3}, {"y", 3}, {"t", 3}};
    for (const auto& d : dims) {
        w.r->dim(d.first, d.second, unlim && d.first == "t");
        w.len[d.first] = d.second;
        for (size_t i = 0; i < d.second; ++i)
            w.full[d.first].push_back(i);
    }
    w.unlimited = unlim ? "t" : "";
    w.vars = {{"v3", {"x", "y", "t"}, CDM_FLOAT}, {"v2", {"y", "t"}, CDM_SHORT}, {"x", {"x"}, CDM_DOUBLE}, {"xy", {"x", "y"}, CDM_INT}, {"xt", {"x", "t"}, CDM_DOUBLE}, {"s", {}, CDM_INT}};
    for (const Var& v : w.vars) {
        size_t n = 1;
        for (const string& d : v.shape)
            n *= w.len[d];
        w.data[v.name] = iota(n, 1 + 3 * w.data.size());
        w.r->var(v.name, v.type, v.shape, w.data[v.name]);
    }
    const vector<Var> mem = {{"mem", {"x", "t"}, CDM_SHORT}, {"y", {"y"}, CDM_FLOAT}, {"t", {"t"}, CDM_DOUBLE}, {"ms", {}, CDM_SHORT}, {"mem3", {"x", "y", "t"}, CDM_INT}};
    for (const Var& v : mem) { // held in memory by the source
        size_t n = 1;
        for (const string& d : v.shape)
            n *= w.len[d];
        w.vars.push_back(v);
        w.data[v.name] = iota(n, 40 + 3 * w.data.size());
        w.r->varMem(v.name, v.type, v.shape, mk(v.type, w.data[v.name]));
    }
    return w;
}

/// everything observable of the extractor agrees with the selection; allSlices: every sub-slice
void verify(vf::Explorer& ex, CDMReader& e, const World& w, const Sel& sel, const std::set<string>& present, bool allSlices)
{
    const CDM& cdm = e.getCDM();
    for (const auto& s : sel)
        VF_CHECK(cdm.getDimension(s.first).getLength() == s.second.size(), "dimension " << s.first << " has length " << cdm.getDimension(s.first).getLength() << " instead of " << s.second.size());
    VF_CHECK(cdm.getVariables().size() == present.size(), cdm.getVariables().size() << " variables instead of " << present.size());
    for (const Var& v : w.vars) {
        VF_CHECK(cdm.hasVariable(v.name) == (present.count(v.name) > 0), "variable " << v.name << " present: " << cdm.hasVariable(v.name));
        if (!present.count(v.name))
            continue;
        VF_CHECK(cdm.getVariable(v.name).getShape() == v.shape && cdm.getVariable(v.name).getDataType() == v.type, "shape or type of " << v.name << " changed");
        VS size;
        int up = -1;
        for (size_t i = 0; i < v.shape.size(); ++i) {
            size.push_back(sel.at(v.shape[i]).size());
            if (v.shape[i] == w.unlimited)
                up = i;
        }
        const VD& all = w.data.at(v.name);
        const VS zero(v.shape.size(), 0);
        ex.step();
        expectValues(e.getData(v.name), pick(all, v.shape, w.len, sel, zero, size), "data of " + v.name);
        if (up >= 0) {
            for (size_t p = 0; p < size[up]; ++p) {
                VS st = zero, sz = size;
                st[up] = p;
                sz[up] = 1;
                ex.step();
                expectValues(e.getDataSlice(v.name, p), pick(all, v.shape, w.len, sel, st, sz), "position " + std::to_string(p) + " of " + v.name);
            }
        }
        if (allSlices && v.name != "mem3") {
            VS st = zero, sz = zero;
            std::function<void(size_t)> rec = [&](size_t i) {
                if (i == v.shape.size()) {
                    SliceBuilder sb(cdm, v.name);
                    for (size_t k = 0; k < v.shape.size(); ++k)
                        sb.setStartAndSize(v.shape[k], st[k], sz[k]);
                    ex.step();
                    expectValues(e.getDataSlice(v.name, sb), pick(all, v.shape, w.len, sel, st, sz), "slice " + str(st) + "+" + str(sz) + " of " + v.name);
                    return;
                }
                for (st[i] = 0; st[i] <= size[i]; ++st[i])
                    for (sz[i] = 0; st[i] + sz[i] <= size[i]; ++sz[i])
                        rec(i + 1);
                st[i] = sz[i] = 0;
            };
            rec(0);
        }
    }
}
std::set<string> allNames(const World& w)
{
    std::set<string> s;
    for (const Var& v : w.vars)
        s.insert(v.name);
    return s;
}
string selStr(const Sel& s)
{
    string o;
    for (const auto& k : s)
        o += k.first + str(VS(k.second.begin(), k.second.end()));
    return o;
}
vector<size_t> subset(int mask)
{
    vector<size_t> v;
    for (int i = 0; i < 3; ++i)
        if (mask & (1 << i))
            v.push_back(i);
    return v;
}

void spaceSubsets(vf::Explorer& ex)
{
    ex.space("all position subsets of three dimensions, all sub-slices, both reader kinds, fixed and unlimited");
    for (int mode = 0; mode < 2; ++mode)
        for (int unlim = 0; unlim < 2; ++unlim)
            for (int mx = 0; mx < 8; ++mx)
                for (int my = 0; my < 8; ++my)
                    for (int mt = 0; mt < 8; ++mt) {
                        ex.run([=] { return "subsets x" + std::to_string(mx) + " y" + std::to_string(my) + " t" + std::to_string(mt) + (mode ? " builder" : " unlimited-only") + (unlim ? " unlimited t" : ""); },
                               [&] {
                                   World w = makeWorld(mode ? BY_BUILDER : BY_UNLIMITED, unlim);
                                   CDMExtractor e(w.r);
                                   Sel sel = w.full;
                                   const string before = dumpCDM(w.r->getCDM());
                                   const char* dn[] = {"x", "y", "t"};
                                   const int mm[] = {mx, my, mt};
                                   for (int d = 0; d < 3; ++d)
                                       if (mm[d] != 7 || (mx + my + mt) % 2) { // the full set also as an explicit selection
                                           sel[dn[d]] = subset(mm[d]);
                                           e.reduceDimension(dn[d], std::set<size_t>(sel[dn[d]].begin(), sel[dn[d]].end()));
                                       }
                                   verify(ex, e, w, sel, allNames(w), true);
                                   VF_CHECK(dumpCDM(w.r->getCDM()) == before, "the source dataset changed");
                                   ex.state(selStr(sel) + std::to_string(unlim));
                               });
                    }
}

struct Op
{
    int kind; // 0 subset, 1 start+length, 2 start..end, 3 remove, 4 select, 5 select+aux
    string dim;
    size_t a;
    long long b;
    string str() const
    {
        std::ostringstream o;
        const char* n[] = {"subset ", "range ", "startEnd ", "remove ", "select ", "selectAux "};
        o << n[kind] << dim << " " << a << " " << b;
        return o.str();
    }
};

void spaceSeq(vf::Explorer& ex)
{
    ex.space("sequences of selections, including repeated, out-of-range and reversed ones");
    vector<Op> ops;
    for (const char* d : {"x", "t"}) {
        for (int m : {0, 1, 5, 6, 7, 8, 9, 24}) // bit 3 is one behind the end, bit 4 further
            ops.push_back({0, d, size_t(m), 0});
        for (size_t st = 0; st <= 4; ++st)
            for (long long l = 0; l <= 4; ++l)
                ops.push_back({1, d, st, l});
        for (size_t st = 0; st <= 4; ++st)
            for (long long e = -4; e <= 4; ++e)
                ops.push_back({2, d, st, e});
    }
    ops.push_back({0, "nodim", 1, 0});
    for (const char* v : {"v3", "x", "mem", "novar"}) {
        ops.push_back({3, v, 0, 0});
        ops.push_back({4, v, 0, 0});
        ops.push_back({5, v, 0, 0});
    }
    const int L = ex.bound(2, 3);
    for (int unlim = 0; unlim < 2; ++unlim)
        for (int len = 1; len <= L; ++len) {
            if (len == L && unlim == 0)
                continue;
            product(len, 0, int(ops.size()) - 1, [&](const vector<int>& seq) {
                ex.run(
                    [&] {
                        string s = unlim ? "extract(unlimited)" : "extract";
                        for (int i : seq)
                            s += " / " + ops[i].str();
                        return s;
                    },
                    [&] {
                        World w = makeWorld(BY_BUILDER, unlim);
                        CDMExtractor e(w.r);
                        Sel sel = w.full;
                        std::set<string> present = allNames(w);
                        for (int i : seq) {
                            const Op& o = ops[i];
                            ex.step();
                            bool valid = true, thrown = false;
                            vector<size_t> want;
                            switch (o.kind) {
                            case 0: {
                                std::set<size_t> s;
                                for (size_t k = 0; k < 5; ++k)
                                    if (o.a & (size_t(1) << k)) {
                                        s.insert(k);
                                        valid &= k < 3;
                                    }
                                valid &= o.dim != "nodim";
                                want.assign(s.begin(), s.end());
                                thrown = throws([&] { e.reduceDimension(o.dim, s); });
                                break;
                            }
                            case 1:
                                valid = o.a + o.b <= 3 || o.b == 0;
                                for (long long k = 0; k < o.b; ++k)
                                    want.push_back(o.a + k);
                                thrown = throws([&] { e.reduceDimension(o.dim, o.a, size_t(o.b)); });
                                if (o.a > 3 && o.b == 0) // empty selection behind the end, either answer is fine
                                    valid = !thrown;
                                break;
                            case 2: {
                                // end: last position if positive, otherwise counted back from the full size
                                const long long stop = o.b > 0 ? o.b : 2 + o.b;
                                valid = stop < 3 && stop >= (long long)o.a;
                                for (long long k = o.a; k <= stop; ++k)
                                    want.push_back(k);
                                const bool nothing = stop == (long long)o.a - 1; // empty selection, either answer is fine
                                thrown = throws([&] { e.reduceDimensionStartEnd(o.dim, o.a, o.b); });
                                if (nothing)
                                    valid = !thrown;
                                break;
                            }
                            case 3:
                                thrown = throws([&] { e.removeVariable(o.dim); });
                                present.erase(o.dim);
                                break;
                            case 4:
                            case 5: {
                                std::set<string> keep, axes;
                                if (o.kind == 5)
                                    for (const Var& v : w.vars)
                                        if (v.name == o.dim)
                                            for (const string& d : v.shape)
                                                if (present.count(d))
                                                    axes.insert(d);
                                if (present.count(o.dim)) {
                                    keep = axes;
                                    keep.insert(o.dim);
                                }
                                thrown = throws([&] { e.selectVariables({o.dim}, o.kind == 5); });
                                // coordinates of a variable that is gone may stay or go
                                if (!present.count(o.dim))
                                    for (const string& a : axes)
                                        if (e.getCDM().hasVariable(a))
                                            keep.insert(a);
                                present = keep;
                                break;
                            }
                            }
                            VF_CHECK(valid == !thrown, o.str() << (thrown ? " rejected" : " accepted"));
                            if (o.kind <= 2 && valid)
                                sel[o.dim] = want;
                            verify(ex, e, w, sel, present, false);
                            string st = selStr(sel);
                            for (const string& p : present)
                                st += p;
                            ex.state(st);
                        }
                    });
            });
        }
}

// ----- selections by coordinate value
void spaceAxes(vf::Explorer& ex)
{
    ex.space("selection by time, level and bounding box: all limits, axis orders, units");
    const vector<VD> timeAxes = {{0, 6, 12, 18}, {18, 12, 6, 0}, {5}, {0, 1, 7, 30}, {-12, 0, 12}};
    const vector<VD> levAxes = {{1000, 850, 500}, {100, 500, 1000}, {700}, {1000, 925, 850, 700}};
    // hours relative to 2000-01-01 00; on the axis values, between, outside
    const VD tlims = {-20, -12, -3, 0, 3, 5, 6, 9, 12, 15, 18, 24, 30, 40};
    for (size_t ti = 0; ti < timeAxes.size(); ++ti)
        for (int tunit = 0; tunit < 3; ++tunit)
            for (int mode = 0; mode < 2; ++mode)
                for (double a : tlims)
                    ex.run([=] { return "reduceTime axis " + std::to_string(ti) + " unit " + std::to_string(tunit) + " from " + std::to_string(a) + (mode ? " builder" : ""); },
                           [&] {
                               for (double b : tlims) {
                                   auto r = std::make_shared<TestReader>(mode ? BY_BUILDER : BY_UNLIMITED);
                                   const VD& h = timeAxes[ti];
                                   VD t = h;
                                   const char* units[] = {"hours since 2000-01-01 00:00:00", "days since 1999-12-31 00:00:00", "seconds since 1970-01-01 00:00:00"};
                                   for (double& x : t)
                                       x = tunit == 0 ? x : tunit == 1 ? 1 + x / 24 : 946684800 + 3600 * x;
                                   r->att("", "Conventions", "CF-1.4");
                                   axis(*r, "time", t, units[tunit], "time", CDM_DOUBLE, true);
                                   axis(*r, "lon", {10, 20}, "degrees_east", "longitude");
                                   axis(*r, "lat", {60, 61}, "degrees_north", "latitude");
                                   r->var("v", CDM_FLOAT, {"lon", "lat", "time"}, iota(4 * t.size()));
                                   CDMExtractor e(r);
                                   auto ft = [](double hrs) {
                                       // days before and after 2000-01-01
                                       int d = int(std::floor(hrs / 24)), rest = int(hrs - 24 * d);
                                       return d >= 0 ? FimexTime(2000, 1, 1 + d, rest) : FimexTime(1999, 12, 32 + d, rest);
                                   };
                                   e.reduceTime(ft(a), ft(b));
                                   ex.step();
                                   VD want;
                                   vector<size_t> pos;
                                   for (size_t i = 0; i < h.size(); ++i)
                                       if (h[i] >= a && h[i] <= b) {
                                           want.push_back(t[i]);
                                           pos.push_back(i);
                                       }
                                   expectClose(e.getData("time"), want, "time axis, limits " + std::to_string(a) + ".." + std::to_string(b));
                                   VD wv;
                                   for (size_t i : pos)
                                       for (int k = 0; k < 4; ++k)
                                           wv.push_back(values(r->full["v"])[4 * i + k]);
                                   expectValues(e.getData("v"), wv, "data");
                                   ex.state("t" + std::to_string(ti) + str(want));
                               }
                           });
    const VD llims = {0, 100, 300, 500, 600, 700, 800, 850, 900, 925, 1000, 1100};
    for (size_t li = 0; li < levAxes.size(); ++li)
        for (int lu = 0; lu < 2; ++lu)
            for (int ru = 0; ru < 2; ++ru)
                ex.run([=] { return "reduceVerticalAxis axis " + std::to_string(li) + " axis unit " + std::to_string(lu) + " request unit " + std::to_string(ru); },
                       [&] {
                           for (double a : llims)
                               for (double b : llims) {
                                   auto r = std::make_shared<TestReader>();
                                   VD l = levAxes[li];
                                   for (double& x : l)
                                       x *= lu ? 100 : 1;
                                   r->att("", "Conventions", "CF-1.4");
                                   axis(*r, "p", l, lu ? "Pa" : "hPa", "air_pressure");
                                   r->att("p", "positive", "down");
                                   axis(*r, "lon", {10, 20}, "degrees_east", "longitude");
                                   axis(*r, "lat", {60, 61}, "degrees_north", "latitude");
                                   r->var("v", CDM_FLOAT, {"lon", "lat", "p"}, iota(4 * l.size()));
                                   CDMExtractor e(r);
                                   e.reduceVerticalAxis(ru ? "Pa" : "hPa", a * (ru ? 100 : 1), b * (ru ? 100 : 1));
                                   ex.step();
                                   VD want, wv;
                                   for (size_t i = 0; i < l.size(); ++i)
                                       if (levAxes[li][i] >= a && levAxes[li][i] <= b) {
                                           want.push_back(l[i]);
                                           for (int k = 0; k < 4; ++k)
                                               wv.push_back(values(r->full["v"])[4 * i + k]);
                                       }
                                   expectClose(e.getData("p"), want, "level axis, limits " + std::to_string(a) + ".." + std::to_string(b));
                                   expectValues(e.getData("v"), wv, "data, limits " + std::to_string(a) + ".." + std::to_string(b));
                                   // an inconvertible unit selects nothing away
                                   CDMExtractor e2(r);
                                   e2.reduceVerticalAxis("m", a, b);
                                   expectClose(e2.getData("p"), l, "level axis after a request in metres");
                                   ex.state("l" + std::to_string(li) + str(want));
                               }
                       });
    const VD lon = {-170, -90, 0, 45, 170}, lat = {-60, 0, 30, 80};
    const VD lolims = {-180, -170, -100, -90, 0, 20, 45, 100, 170, 180}, lalims = {-90, -60, -30, 0, 30, 50, 80, 90};
    for (double w : lolims)
        for (double ea : lolims)
            ex.run([=] { return "bounding box west " + std::to_string(w) + " east " + std::to_string(ea); },
                   [&] {
                       for (double s : lalims)
                           for (double n : lalims) {
                               auto r = std::make_shared<TestReader>();
                               r->att("", "Conventions", "CF-1.4");
                               axis(*r, "lon", lon, "degrees_east", "longitude");
                               axis(*r, "lat", lat, "degrees_north", "latitude");
                               r->var("v", CDM_FLOAT, {"lon", "lat"}, iota(20));
                               CDMExtractor e(r);
                               ex.step();
                               const bool thrown = throws([&] { e.reduceLatLonBoundingBox(s, n, w, ea); });
                               VF_CHECK(thrown == (s > n), "box south " << s << " north " << n << (thrown ? " rejected" : " accepted"));
                               if (thrown)
                                   continue;
                               vector<size_t> xs, ys;
                               for (size_t i = 0; i < lon.size(); ++i)
                                   if (w <= ea ? (lon[i] >= w && lon[i] <= ea) : (lon[i] >= w || lon[i] <= ea))
                                       xs.push_back(i);
                               for (size_t i = 0; i < lat.size(); ++i)
                                   if (lat[i] >= s && lat[i] <= n)
                                       ys.push_back(i);
                               if (xs.empty() || ys.empty())
                                   xs.clear(), ys.clear();
                               VD wx, wy, wv;
                               for (size_t i : xs)
                                   wx.push_back(lon[i]);
                               for (size_t j : ys) {
                                   wy.push_back(lat[j]);
                                   for (size_t i : xs)
                                       wv.push_back(1 + i + 5 * j);
                               }
                               expectClose(e.getData("lon"), wx, "longitudes");
                               expectClose(e.getData("lat"), wy, "latitudes");
                               expectValues(e.getData("v"), wv, "data");
                               ex.state("b" + str(wx) + str(wy));
                           }
                       CDMExtractor e(std::make_shared<TestReader>());
                       for (double bad : {-181., 181., 400.})
                           VF_CHECK(throws([&] { e.reduceLatLonBoundingBox(0, 10, bad, 10); }) && throws([&] { e.reduceLatLonBoundingBox(0, 10, 0, bad); }) && throws([&] { e.reduceLatLonBoundingBox(bad, 80, 0, 1); }), "limit " << bad << " accepted");
                   });
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceSubsets(ex);
    spaceSeq(ex);
    spaceAxes(ex);
}
