// C06: in-place updates change exactly the addressed elements
#include "fx.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMReaderWriter.h"

using namespace fx;

namespace {
const char* FMT[] = {"nc3", "netcdf4classic", "netcdf4"};
const size_t NX = 3, NY = 2, NT = 2;

struct Var
{
    CDMDataType type;
    vector<string> shape;
    double scale, offset, fill;
    string units;
    VD raw; // file content, t slowest
};
struct Model
{
    std::map<string, Var> vars;
    size_t nt = NT;
    bool unlim = true;

    size_t len(const string& d) const { return d == "x" ? NX : d == "y" ? NY : nt; }
    VS dims(const Var& v) const
    {
        VS d;
        for (auto& s : v.shape)
            d.push_back(len(s));
        return d;
    }
    bool hasT(const Var& v) const { return !v.shape.empty() && v.shape.back() == "t"; }
    void extend(size_t n)
    {
        if (n <= nt)
            return;
        nt = n;
        for (auto& q : vars)
            q.second.raw.resize(prod(dims(q.second)), q.second.fill);
    }
    void put(const string& name, const VS& st, const VS& sz, const VD& raw)
    {
        Var& v = vars.at(name);
        if (hasT(v))
            extend(st.back() + sz.back());
        const VS d = dims(v);
        VS p(d.size(), 0);
        for (double x : raw) {
            size_t off = 0, stride = 1;
            for (size_t i = 0; i < d.size(); ++i) {
                off += (st[i] + p[i]) * stride;
                stride *= d[i];
            }
            v.raw.at(off) = x;
            for (size_t i = 0; i < d.size(); ++i) {
                if (++p[i] < sz[i])
                    break;
                p[i] = 0;
            }
        }
    }
};

Model makeModel(bool unlim)
{
    Model m;
    m.unlim = unlim;
    m.vars["v"] = Var{CDM_SHORT, {"x", "y", "t"}, 0.5, 1, -99, "m", iota(NX * NY * NT)};
    m.vars["w"] = Var{CDM_DOUBLE, {"x"}, 1, 0, NAN, "K", {1.5, 2.5, 3.5}};
    m.vars["s"] = Var{CDM_INT, {}, 1, 0, NAN, "", {42}};
    m.vars["a"] = Var{CDM_FLOAT, {"y", "t"}, 0.1, 0, -1, "m", {10, 20, 30, 40}};
    return m;
}

struct Op
{
    string name;
    std::function<void(CDMReaderWriter&, Model&, int salt)> f; // throws std::logic_error on harness errors
};

VD rawData(size_t n, int salt)
{
    VD d;
    for (size_t i = 0; i < n; ++i)
        d.push_back(double(1000 * (salt + 1) + i));
    return d;
}
// physical values for raw, in double
VD phys(const Var& v, const VD& raw, double unitScale, double unitOffset)
{
    VD d;
    for (double r : raw)
        d.push_back(r == v.fill ? NAN : (r * v.scale + v.offset) * unitScale + unitOffset);
    return d;
}

Op putPos(const string& var, size_t pos, int how)
{
    static const char* HOW[] = {"raw", "scaled", "in unit"};
    return Op{"put " + var + "@" + std::to_string(pos) + " " + HOW[how], [=](CDMReaderWriter& rw, Model& m, int salt) {
                  Var v = m.vars.at(var);
                  VS st(v.shape.size(), 0), sz = m.dims(v);
                  if (m.unlim && m.hasT(v)) {
                      st.back() = pos;
                      sz.back() = 1;
                  }
                  VD raw = rawData(prod(sz), salt);
                  if (how && raw.size() > 1 && !std::isnan(v.fill))
                      raw[1] = v.fill; // a missing value among the others
                  if (how == 0)
                      rw.putDataSlice(var, pos, mk(v.type, raw));
                  else if (how == 1)
                      rw.putScaledDataSlice(var, pos, mk(CDM_DOUBLE, phys(v, raw, 1, 0)));
                  else if (v.units == "K")
                      rw.putScaledDataSliceInUnit(var, "celsius", pos, mk(CDM_DOUBLE, phys(v, raw, 1, -273.15)));
                  else
                      rw.putScaledDataSliceInUnit(var, "cm", pos, mk(CDM_DOUBLE, phys(v, raw, 100, 0)));
                  m.put(var, st, sz, raw);
              }};
}
Op putSlice(const string& var, VS st, VS sz, int how)
{
    static const char* HOW[] = {"raw", "scaled", "in unit", "raw as double"};
    return Op{"put " + var + str(st) + "+" + str(sz) + " " + HOW[how], [=](CDMReaderWriter& rw, Model& m, int salt) {
                  Var v = m.vars.at(var);
                  VD raw = rawData(prod(sz), salt);
                  if (how && how < 3 && raw.size() > 1 && !std::isnan(v.fill))
                      raw[0] = v.fill;
                  SliceBuilder sb(rw.getCDM(), var, true);
                  for (size_t i = 0; i < st.size(); ++i)
                      sb.setStartAndSize(v.shape[i], st[i], sz[i]);
                  if (how == 0)
                      rw.putDataSlice(var, sb, mk(v.type, raw));
                  else if (how == 3)
                      rw.putDataSlice(var, sb, mk(CDM_DOUBLE, raw));
                  else if (how == 1)
                      rw.putScaledDataSlice(var, sb, mk(CDM_DOUBLE, phys(v, raw, 1, 0)));
                  else
                      rw.putScaledDataSliceInUnit(var, "km", sb, mk(CDM_DOUBLE, phys(v, raw, 1e-3, 0)));
                  m.put(var, st, sz, raw);
              }};
}
Op mustThrow(const string& name, std::function<void(CDMReaderWriter&, const Model&)> f)
{
    return Op{name, [=](CDMReaderWriter& rw, Model& m, int) { VF_CHECK(throws([&] { f(rw, m); }), name << " is accepted"); }};
}

vector<Op> makeOps(bool unlim)
{
    vector<Op> ops;
    ops.push_back(putPos("v", 0, 0));
    ops.push_back(putPos("v", unlim ? 1 : 0, 1));
    if (unlim) {
        ops.push_back(putPos("v", 2, 2));
        ops.push_back(putPos("a", 3, 0));
        ops.push_back(putSlice("v", {0, 0, 2}, {3, 2, 2}, 1));
    }
    ops.push_back(putPos("w", 0, 2));
    ops.push_back(putPos("s", 0, 0));
    ops.push_back(putPos("a", 1, unlim ? 2 : 1));
    ops.push_back(putSlice("v", {1, 0, 0}, {2, 1, 2}, 0));
    ops.push_back(putSlice("v", {0, 1, 1}, {3, 1, 1}, 2));
    ops.push_back(putSlice("v", {2, 1, 0}, {1, 1, 1}, 3));
    ops.push_back(putSlice("a", {1, 0}, {1, 2}, 1));
    ops.push_back(putSlice("w", {1}, {2}, 3));
    ops.push_back(Op{"sync", [](CDMReaderWriter& rw, Model&, int) { rw.sync(); }});
    ops.push_back(Op{"put nothing", [](CDMReaderWriter& rw, Model&, int) {
                         rw.putDataSlice("v", 0, createData(CDM_SHORT, 0));
                         rw.putDataSlice("v", 1, DataPtr());
                     }});
    ops.push_back(mustThrow("too few values", [](CDMReaderWriter& rw, const Model&) { rw.putDataSlice("v", 0, mk(CDM_SHORT, iota(5))); }));
    ops.push_back(mustThrow("too many values in a slice", [](CDMReaderWriter& rw, const Model&) {
        SliceBuilder sb(rw.getCDM(), "v");
        sb.setStartAndSize("x", 1, 1);
        rw.putDataSlice("v", sb, mk(CDM_SHORT, iota(5)));
    }));
    ops.push_back(mustThrow("unknown variable", [](CDMReaderWriter& rw, const Model&) { rw.putDataSlice("nosuch", 0, mk(CDM_SHORT, iota(6))); }));
    ops.push_back(mustThrow("inconvertible unit", [](CDMReaderWriter& rw, const Model&) { rw.putScaledDataSliceInUnit("w", "kg", 0, mk(CDM_DOUBLE, iota(3))); }));
    ops.push_back(Op{"reopen", nullptr});
    return ops;
}

void check(vf::Explorer& ex, CDMReader& r, const Model& m, size_t ntOpen, const string& what)
{
    for (auto& q : m.vars) {
        const Var& v = q.second;
        VD raw = v.raw;
        const bool t = m.hasT(v);
        if (t)
            raw.resize(prod(m.dims(v)) / m.nt * ntOpen);
        ex.step();
        // text of floats: raw values are small integers, exact in all types; celsius conversion may cost an ulp
        expectClose(r.getData(q.first), raw, what + ": " + q.first, 1e-6, 1e-9);
        if (v.type != CDM_DOUBLE && v.type != CDM_FLOAT)
            expectValues(r.getData(q.first), raw, what + ": " + q.first);
    }
}

void createFile(const string& fn, int fmt, const Model& m)
{
    auto r = std::make_shared<TestReader>();
    r->dim("x", NX);
    r->dim("y", NY);
    r->dim("t", NT, m.unlim);
    for (auto& q : m.vars) {
        const Var& v = q.second;
        r->var(q.first, v.type, v.shape, v.raw);
        if (!v.units.empty())
            r->att(q.first, "units", v.units);
        if (!std::isnan(v.fill))
            r->att(q.first, "_FillValue", v.type, {v.fill});
        if (v.scale != 1 || v.offset != 0) {
            r->att(q.first, "scale_factor", CDM_DOUBLE, {v.scale});
            r->att(q.first, "add_offset", CDM_DOUBLE, {v.offset});
        }
    }
    CDMFileReaderFactory::createWriter(r, FMT[fmt], fn);
}
} // namespace

void vf::explore(Explorer& ex)
{
    for (int unlim = 0; unlim < 2; ++unlim) {
        const vector<Op> ops = makeOps(unlim);
        for (int fmt = 0; fmt < 3; ++fmt) {
            ex.space(string("all sequences of updates; ") + FMT[fmt] + (unlim ? ", unlimited dimension" : ", fixed dimensions"));
            for (int depth = 1; depth <= ex.bound(fmt == 1 ? 2 : 3, fmt == 1 ? 3 : 4); ++depth)
                product(depth, 0, int(ops.size()) - 1, [&](const vector<int>& seq) {
                    ex.run(
                        [&] {
                            string s = string(FMT[fmt]) + (unlim ? " unlimited:" : " fixed:");
                            for (int i : seq)
                                s += " [" + ops[i].name + "]";
                            return s;
                        },
                        [&] {
                            const string fn = ex.scratch() + "/u.nc";
                            Model m = makeModel(unlim);
                            createFile(fn, fmt, m);
                            CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf+rw", fn);
                            size_t ntOpen = m.nt;
                            const string meta = dumpCDM(rw->getCDM());
                            for (size_t i = 0; i < seq.size(); ++i) {
                                const Op& op = ops[seq[i]];
                                ex.step();
                                if (op.f)
                                    op.f(*rw, m, int(i));
                                else {
                                    rw.reset();
                                    rw = CDMFileReaderFactory::createReaderWriter("netcdf+rw", fn);
                                    ntOpen = m.nt;
                                }
                                check(ex, *rw, m, ntOpen, "after " + op.name);
                            }
                            rw.reset();
                            CDMReader_p r = CDMFileReaderFactory::create("netcdf", fn);
                            VF_CHECK(r->getCDM().getDimension("t").getLength() == m.nt, "unlimited dimension has length " << r->getCDM().getDimension("t").getLength() << " instead of " << m.nt);
                            if (m.nt == NT)
                                VF_CHECK(dumpCDM(r->getCDM()) == meta, "metadata changed");
                            check(ex, *r, m, m.nt, "reopened file");
                            string canon = std::to_string(m.nt);
                            for (auto& q : m.vars)
                                canon += q.first + str(q.second.raw, 100);
                            ex.state(canon);
                            r.reset();
                            cleanDir(ex.scratch());
                        });
                });
        }
    }
    // every slice, every variable, both formats
    ex.space("all slices of all shapes are written exactly");
    for (int fmt = 0; fmt < 3; fmt += 2)
        for (int unlim = 0; unlim < 2; ++unlim)
            for (int nd = 1; nd <= 3; ++nd)
                product(2 * nd, 0, 2, [&](const vector<int>& q) {
                    VS st, sz, dims;
                    for (int i = 0; i < nd; ++i) {
                        st.push_back(q[i]);
                        sz.push_back(q[nd + i] + 1);
                        dims.push_back(i == 1 ? 2 : 3);
                        if (st[i] + sz[i] > dims[i])
                            return;
                    }
                    ex.run([&] { return string(FMT[fmt]) + (unlim ? " unlimited " : " ") + str(st) + "+" + str(sz); },
                           [&] {
                               const string fn = ex.scratch() + "/u.nc";
                               auto r = std::make_shared<TestReader>();
                               vector<string> shape;
                               for (int i = 0; i < nd; ++i) {
                                   shape.push_back("d" + std::to_string(i));
                                   r->dim(shape[i], dims[i], unlim && i == nd - 1);
                               }
                               const size_t n = prod(dims);
                               std::map<string, CDMDataType> types = {{"c", CDM_CHAR}, {"s", CDM_SHORT}, {"i", CDM_INT}, {"f", CDM_FLOAT}, {"d", CDM_DOUBLE}, {"t", CDM_STRING}};
                               if (fmt == 2) {
                                   types["uc"] = CDM_UCHAR;
                                   types["us"] = CDM_USHORT;
                                   types["ui"] = CDM_UINT;
                                   types["l"] = CDM_INT64;
                                   types["ul"] = CDM_UINT64;
                                   types["st"] = CDM_STRINGS;
                               }
                               auto data = [&](CDMDataType t, size_t len, int first) {
                                   if (t == CDM_STRING)
                                       return createData(string(len, 'a' + first % 20));
                                   if (t == CDM_STRINGS)
                                       return mkStrings(vector<string>(len, "text " + std::to_string(first)));
                                   return mk(t, iota(len, first));
                               };
                               for (auto& ty : types)
                                   r->varData(ty.first, ty.second, shape, data(ty.second, n, 1));
                               CDMFileReaderFactory::createWriter(r, FMT[fmt], fn);
                               CDMReaderWriter_p rw = CDMFileReaderFactory::createReaderWriter("netcdf+rw", fn);
                               for (auto& ty : types) {
                                   SliceBuilder sb(rw->getCDM(), ty.first);
                                   for (int i = 0; i < nd; ++i)
                                       sb.setStartAndSize(shape[i], st[i], sz[i]);
                                   ex.step();
                                   rw->putDataSlice(ty.first, sb, data(ty.second, prod(sz), 50));
                               }
                               rw.reset();
                               CDMReader_p b = CDMFileReaderFactory::create("netcdf", fn);
                               for (auto& ty : types) {
                                   DataPtr orig = data(ty.second, n, 1), put = data(ty.second, prod(sz), 50);
                                   vector<string> want;
                                   auto elems = [&](DataPtr d) {
                                       vector<string> e;
                                       if (ty.second == CDM_STRING) {
                                           for (char c : d->asString())
                                               e.push_back(string(1, c));
                                       } else {
                                           auto s = d->asStrings();
                                           for (size_t i = 0; i < d->size(); ++i)
                                               e.push_back(ty.second == CDM_STRINGS ? s[i] : std::to_string(values(d)[i]));
                                       }
                                       return e;
                                   };
                                   want = elems(orig);
                                   const vector<string> pe = elems(put);
                                   // indices of the slice in order
                                   vector<size_t> idx(n);
                                   for (size_t i = 0; i < n; ++i)
                                       idx[i] = i;
                                   const vector<size_t> at = refSlice(idx, dims, st, sz);
                                   for (size_t i = 0; i < at.size(); ++i)
                                       want[at[i]] = pe[i];
                                   VF_CHECK(elems(b->getData(ty.first)) == want, "variable " << ty.first << " is " << str(elems(b->getData(ty.first))) << " instead of " << str(want));
                               }
                               ex.state(string("slice") + FMT[fmt] + str(dims) + str(st) + str(sz) + std::to_string(unlim));
                               b.reset();
                               cleanDir(ex.scratch());
                           });
                });
}
