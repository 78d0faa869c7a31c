// C03: element conversion between types, packings, fill values
#include "fx.h"

#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"

#include <limits>

using namespace fx;

namespace {
typedef long double LD;

struct TypeInfo
{
    CDMDataType t;
    const char* name;
    bool integer;
    LD lo, hi;
};
template <class T>
TypeInfo ti(CDMDataType t, const char* n)
{
    return {t, n, std::numeric_limits<T>::is_integer, LD(std::numeric_limits<T>::lowest()), LD(std::numeric_limits<T>::max())};
}
const vector<TypeInfo> TYPES = {ti<char>(CDM_CHAR, "char"),
                                ti<short>(CDM_SHORT, "short"),
                                ti<int>(CDM_INT, "int"),
                                ti<long long>(CDM_INT64, "int64"),
                                ti<unsigned char>(CDM_UCHAR, "uchar"),
                                ti<unsigned short>(CDM_USHORT, "ushort"),
                                ti<unsigned int>(CDM_UINT, "uint"),
                                ti<unsigned long long>(CDM_UINT64, "uint64"),
                                ti<float>(CDM_FLOAT, "float"),
                                ti<double>(CDM_DOUBLE, "double")};

template <class T>
shared_array<T> arr(const vector<LD>& v)
{
    shared_array<T> a(new T[v.size() + 1]);
    for (size_t i = 0; i < v.size(); ++i)
        a[i] = static_cast<T>(v[i]);
    return a;
}
DataPtr build(CDMDataType t, const vector<LD>& v)
{
    const size_t n = v.size();
    switch (t) {
    case CDM_CHAR: return createData(n, arr<char>(v));
    case CDM_SHORT: return createData(n, arr<short>(v));
    case CDM_INT: return createData(n, arr<int>(v));
    case CDM_INT64: return createData(n, arr<long long>(v));
    case CDM_UCHAR: return createData(n, arr<unsigned char>(v));
    case CDM_USHORT: return createData(n, arr<unsigned short>(v));
    case CDM_UINT: return createData(n, arr<unsigned int>(v));
    case CDM_UINT64: return createData(n, arr<unsigned long long>(v));
    case CDM_FLOAT: return createData(n, arr<float>(v));
    case CDM_DOUBLE: return createData(n, arr<double>(v));
    default: throw std::logic_error("type");
    }
}
template <class T>
vector<LD> lds(const shared_array<T>& a, size_t n)
{
    vector<LD> r;
    for (size_t i = 0; i < n; ++i)
        r.push_back(LD(a[i]));
    return r;
}
/// elements in the data's own type, without conversion by the library
vector<LD> rawOf(DataPtr d)
{
    const size_t n = d->size();
    const void* p = d->getDataPtr();
    vector<LD> r(n);
    for (size_t i = 0; i < n; ++i)
        switch (d->getDataType()) {
        case CDM_CHAR: r[i] = static_cast<const char*>(p)[i]; break;
        case CDM_SHORT: r[i] = static_cast<const short*>(p)[i]; break;
        case CDM_INT: r[i] = static_cast<const int*>(p)[i]; break;
        case CDM_INT64: r[i] = static_cast<const long long*>(p)[i]; break;
        case CDM_UCHAR: r[i] = static_cast<const unsigned char*>(p)[i]; break;
        case CDM_USHORT: r[i] = static_cast<const unsigned short*>(p)[i]; break;
        case CDM_UINT: r[i] = static_cast<const unsigned int*>(p)[i]; break;
        case CDM_UINT64: r[i] = static_cast<const unsigned long long*>(p)[i]; break;
        case CDM_FLOAT: r[i] = static_cast<const float*>(p)[i]; break;
        case CDM_DOUBLE: r[i] = static_cast<const double*>(p)[i]; break;
        default: throw std::logic_error("type");
        }
    return r;
}
/// elements through the as-functions
vector<LD> viaAs(DataPtr d, CDMDataType t)
{
    const size_t n = d->size();
    switch (t) {
    case CDM_CHAR: return lds(d->asChar(), n);
    case CDM_SHORT: return lds(d->asShort(), n);
    case CDM_INT: return lds(d->asInt(), n);
    case CDM_INT64: return lds(d->asInt64(), n);
    case CDM_UCHAR: return lds(d->asUChar(), n);
    case CDM_USHORT: return lds(d->asUShort(), n);
    case CDM_UINT: return lds(d->asUInt(), n);
    case CDM_UINT64: return lds(d->asUInt64(), n);
    case CDM_FLOAT: return lds(d->asFloat(), n);
    case CDM_DOUBLE: return lds(d->asDouble(), n);
    default: throw std::logic_error("type");
    }
}

bool same(LD a, LD b)
{
    return (std::isnan(a) && std::isnan(b)) || a == b;
}

/// interesting values of one type
vector<LD> valuesOf(const TypeInfo& t)
{
    vector<LD> all;
    const LD p2[] = {7, 8, 15, 16, 31, 32, 53, 63};
    for (LD s : {LD(1), LD(-1)}) {
        for (int i = 0; i <= 3; ++i)
            all.push_back(s * i);
        for (LD e : p2)
            for (int d = -2; d <= 2; ++d)
                all.push_back(s * (powl(2, e) + d));
        for (LD x : {100.L, 999.L, 1000.L, 12345.L, 99999.L, 123456789.L, 9007199254740993.L})
            all.push_back(s * x);
        if (!t.integer)
            for (LD x : {0.25L, 0.4L, 0.5L, 0.6L, 1.4L, 1.5L, 1.6L, 2.5L, 3.5L, 127.4L, 127.5L, 254.5L, 255.4L, 32767.25L, 65535.25L, 1234.56L, 2147483646.5L,
                         2147483648.5L, 4294967294.5L, 4294967295.25L, 1e12L + 0.5L, 1e15L + 0.5L, 1e18L, 1e19L, 1e30L, 1e-30L})
                all.push_back(s * x);
    }
    vector<LD> r;
    for (LD x : all)
        if (x >= t.lo && x <= t.hi) {
            LD y = x;
            if (t.t == CDM_FLOAT)
                y = float(x);
            if (t.t == CDM_DOUBLE)
                y = double(x);
            r.push_back(y);
        }
    r.push_back(t.lo);
    r.push_back(t.hi);
    return r;
}

bool representable(LD m, const TypeInfo& t)
{
    if (std::isnan(m))
        return !t.integer;
    if (t.integer)
        return roundl(m) >= t.lo && roundl(m) <= t.hi;
    return m >= t.lo && m <= t.hi;
}
LD plain(LD m, const TypeInfo& t)
{
    if (t.integer)
        return roundl(m);
    return t.t == CDM_FLOAT ? LD(float(m)) : LD(double(m));
}
/// is got an acceptable representation of m, calculated in double precision?
bool acceptable(LD got, LD m, const TypeInfo& t, LD slack)
{
    const LD eps = slack;
    if (t.integer)
        return fabsl(got - m) <= 0.5L + eps;
    const LD e2 = eps + fabsl(m) * (t.t == CDM_FLOAT ? 1.3e-7L : 4e-16L);
    return fabsl(got - m) <= e2;
}

void spaceAs(vf::Explorer& ex)
{
    ex.space("plain conversion of every type pair, boundary values");
    for (const TypeInfo& a : TYPES)
        for (const TypeInfo& b : TYPES)
            ex.run([&] { return string("plain ") + a.name + " -> " + b.name; },
                   [&] {
                       vector<LD> v = valuesOf(a), in, want;
                       for (LD x : v)
                           if (representable(x, b)) {
                               in.push_back(x);
                               want.push_back(plain(x, b));
                           }
                       if (!a.integer && !b.integer) {
                           in.push_back(NAN);
                           want.push_back(NAN);
                       }
                       DataPtr d = build(a.t, in);
                       const vector<LD> got = viaAs(d, b.t);
                       const vector<LD> got2 = rawOf(d->convertDataType(7, 2, 1, b.t, 7, 2, 1));
                       DataPtr s = createData(b.t, in.size());
                       VF_CHECK(s->getDataType() == b.t, "created type");
                       for (LD x : rawOf(s))
                           VF_CHECK(x == 0, "created data is not 0");
                       s->setValues(0, *d);
                       const vector<LD> got3 = rawOf(s);
                       DataPtr sl = createDataSlice(b.t, *d, 0, in.size());
                       const vector<LD> got4 = rawOf(sl);
                       for (size_t i = 0; i < in.size(); ++i) {
                           ex.step(4);
                           VF_CHECK(same(got[i], want[i]), "value " << in[i] << " read as " << b.name << " gives " << got[i]);
                           VF_CHECK(same(got2[i], want[i]), "value " << in[i] << " converted without change of packing gives " << got2[i]);
                           VF_CHECK(same(got3[i], want[i]), "value " << in[i] << " assigned gives " << got3[i]);
                           VF_CHECK(same(got4[i], want[i]), "value " << in[i] << " sliced gives " << got4[i]);
                           ex.state(string("as") + a.name + b.name + std::to_string(i));
                       }
                       if (b.t == CDM_DOUBLE)
                           for (size_t i = 0; i < in.size(); ++i)
                               VF_CHECK(same(d->getDouble(i), want[i]), "getDouble " << in[i] << " gives " << d->getDouble(i));
                       if (b.t == CDM_INT64)
                           for (size_t i = 0; i < in.size(); ++i)
                               VF_CHECK(same(d->getLongLong(i), want[i]), "getLongLong " << in[i] << " gives " << d->getLongLong(i));
                       if (a.t == CDM_DOUBLE)
                           for (size_t i = 0; i < in.size(); ++i) {
                               DataPtr q = createData(b.t, 3, 5.);
                               q->setValue(1, double(in[i]));
                               vector<LD> r = rawOf(q);
                               VF_CHECK(r[0] == 5 && r[2] == 5 && same(r[1], want[i]), "setValue " << in[i] << " gives " << r[1]);
                               q->setAllValues(double(in[i]));
                               r = rawOf(q);
                               for (int k = 0; k < 3; ++k)
                                   VF_CHECK(same(r[k], want[i]), "setAllValues " << in[i] << " gives " << r[k]);
                               r = rawOf(createData(b.t, 2, double(in[i])));
                               VF_CHECK(same(r[0], want[i]) && same(r[1], want[i]), "createData with value " << in[i] << " gives " << r[0]);
                           }
                   });
}

void spaceConvert(vf::Explorer& ex)
{
    ex.space("repacking: every type pair x fill values x scales x offsets");
    struct Pack
    {
        double scale, offset;
    };
    const vector<Pack> packs = {{1, 0}, {0.5, 0}, {2, 10}, {0.01, 273.15}, {-4, 3}, {1000, -7}};
    // fill values: a number every type can hold, one only large types hold, not-a-number
    const vector<LD> fills = {0, 1, 100, -100, 255, -32767, -2147483647.L, 9969209968386869046778552952102584320.L, NAN};
    for (const TypeInfo& a : TYPES)
        for (const TypeInfo& b : TYPES)
            for (LD of : fills)
                for (LD nf : fills) {
                    auto ok = [](LD f, const TypeInfo& t) { return std::isnan(f) ? !t.integer : (f >= t.lo && f <= t.hi && (t.t != CDM_FLOAT || LD(float(f)) == f)); };
                    if (!ok(of, a) || !ok(nf, b))
                        continue;
                    ex.run([=] { return string("repack ") + a.name + " -> " + b.name + " fill " + std::to_string(double(of)) + " -> " + std::to_string(double(nf)); },
                           [&] {
                               const LD ofT = a.t == CDM_FLOAT ? LD(float(of)) : of;
                               const LD nfT = b.t == CDM_FLOAT ? LD(float(nf)) : nf;
                               for (int unit = 0; unit < 3; ++unit)
                                   for (const Pack& p : packs)
                                       for (const Pack& q : packs) {
                                           if (!ex.thorough() && unit && (&p - &packs[0] > 3 || &q - &packs[0] > 3))
                                               continue;
                                           Units units;
                                           UnitsConverter_p uc;
                                           LD us = 1, uo = 0;
                                           if (unit == 1) {
                                               uc = units.getConverter("K", "degC");
                                               uo = -273.15L;
                                           } else if (unit == 2) {
                                               uc = units.getConverter("km", "m");
                                               us = 1000;
                                           }
                                           vector<LD> in, m;
                                           vector<bool> miss;
                                           vector<LD> cand = valuesOf(a);
                                           cand.push_back(ofT);
                                           if (!a.integer)
                                               cand.push_back(NAN);
                                           for (LD x : cand) {
                                               if (std::isnan(x) || x == ofT) {
                                                   in.push_back(x);
                                                   m.push_back(nfT);
                                                   miss.push_back(true);
                                               } else {
                                                   const LD y = ((x * p.scale + p.offset) * us + uo - q.offset) / q.scale;
                                                   if (!representable(y, b) || (b.t == CDM_FLOAT && fabsl(y) > 1e38L))
                                                       continue;
                                                   if (b.integer && (roundl(y) <= b.lo || roundl(y) >= b.hi))
                                                       continue;
                                                   // repacking calculates in double precision
                                                   if ((a.integer || b.integer) && (fabsl(y) > 9007199254740992.L || fabsl(x) > 9007199254740992.L))
                                                       continue;
                                                   if (fabsl(y) > 1e300L || fabsl(x) > 1e300L)
                                                       continue;
                                                   in.push_back(x);
                                                   m.push_back(y);
                                                   miss.push_back(false);
                                               }
                                           }
                                           DataPtr d = build(a.t, in);
                                           DataPtr r = unit ? d->convertDataType(double(of), p.scale, p.offset, uc, b.t, double(nf), q.scale, q.offset)
                                                            : d->convertDataType(double(of), p.scale, p.offset, b.t, double(nf), q.scale, q.offset);
                                           VF_CHECK(r->getDataType() == b.t, "type after conversion");
                                           VF_CHECK(r->size() == in.size(), "size after conversion");
                                           const vector<LD> got = rawOf(r);
                                           const vector<LD> after = rawOf(d);
                                           for (size_t i = 0; i < in.size(); ++i) {
                                               ex.step();
                                               VF_CHECK(same(after[i], in[i]), "conversion changed its input");
                                               if (miss[i]) {
                                                   // a missing value stays missing; not-a-number is always missing
                                                   VF_CHECK(same(got[i], nfT) || std::isnan(got[i]), "missing value " << in[i] << " became " << got[i] << " (scale " << p.scale << "," << p.offset << " -> " << q.scale << "," << q.offset << ")");
                                               } else {
                                                   const LD mag = (fabsl(in[i] * p.scale) + fabsl(p.offset) + fabsl(q.offset) + 300) * fabsl(us) / fabsl(q.scale);
                                                   VF_CHECK(acceptable(got[i], m[i], b, 4e-15L * mag), "value " << in[i] << " (scale " << p.scale << "," << p.offset << " -> " << q.scale << "," << q.offset << ", unit " << unit << ") became " << got[i] << " instead of " << m[i]);
                                               }
                                           }
                                           // result is independent of its source
                                           if (!in.empty()) {
                                               r->setAllValues(3);
                                               const vector<LD> after2 = rawOf(d);
                                               for (size_t i = 0; i < in.size(); ++i)
                                                   VF_CHECK(same(after2[i], in[i]), "converted data shares memory with its source");
                                           }
                                           ex.state(string("cv") + a.name + b.name + std::to_string(double(of)) + std::to_string(double(nf)) + std::to_string(unit) + std::to_string(&p - &packs[0]) + std::to_string(&q - &packs[0]));
                                       }
                           });
                }
}

void spaceSet(vf::Explorer& ex)
{
    ex.space("partial assignment: sizes, positions and ranges up to 4");
    const int N = ex.bound(3, 5);
    for (const TypeInfo& a : TYPES)
        for (int n1 = 0; n1 <= N; ++n1)
            for (int n2 = 0; n2 <= N; ++n2)
                ex.run([&, n1, n2] { return string("assign ") + a.name + " into " + std::to_string(n1) + " from " + std::to_string(n2); },
                       [&, n1, n2] {
                           for (CDMDataType st : {CDM_SHORT, CDM_DOUBLE, a.t}) {
                               vector<LD> src, dst;
                               for (int i = 0; i < n2; ++i)
                                   src.push_back(50 + i);
                               for (int i = 0; i < n1; ++i)
                                   dst.push_back(10 + i);
                               for (int start = 0; start <= n1 + 2; ++start)
                                   for (int first = 0; first <= n2 + 1; ++first)
                                       for (int last = -1; last <= n2 + 1; ++last) {
                                           DataPtr s = build(st, src), d = build(a.t, dst), cl = d->clone();
                                           const bool thrown = throws([&] { d->setValues(start, *s, first, last < 0 ? size_t(-1) : size_t(last)); });
                                           ex.step();
                                           vector<LD> want = dst;
                                           if (first > n2) {
                                               VF_CHECK(thrown, "range starting behind the source is accepted");
                                           } else {
                                               VF_CHECK(!thrown || start > n1, "assignment rejected: start " << start << " first " << first << " last " << last);
                                               const int e = last < 0 ? n2 : std::min(last, n2);
                                               for (int k = first; k < e && start + k - first < n1; ++k)
                                                   want[start + k - first] = src[k];
                                           }
                                           const vector<LD> got = rawOf(d);
                                           for (int k = 0; k < n1; ++k)
                                               VF_CHECK(got[k] == want[k], "assign start " << start << " first " << first << " last " << last << ": element " << k << " is " << got[k] << " instead of " << want[k]);
                                           const vector<LD> c = rawOf(cl), so = rawOf(s);
                                           for (int k = 0; k < n1; ++k)
                                               VF_CHECK(c[k] == dst[k], "clone changed with its original");
                                           for (int k = 0; k < n2; ++k)
                                               VF_CHECK(so[k] == src[k], "source changed by assignment");
                                           ex.state("set" + std::to_string(n1) + std::to_string(n2) + std::to_string(start) + std::to_string(first) + std::to_string(last) + a.name);
                                       }
                               for (int st0 = 0; st0 <= n2 + 2; ++st0)
                                   for (int len = 1; len <= n2 + 2; ++len)
                                       if (st0 + len > n2) {
                                           DataPtr s = build(st, src);
                                           VF_CHECK(throws([&] { createDataSlice(a.t, *s, st0, len); }), "slice behind the end is accepted");
                                           ex.step();
                                       }
                               // one-dimensional slices
                               for (int st0 = 0; st0 <= n2; ++st0)
                                   for (int len = 0; st0 + len <= n2; ++len) {
                                       DataPtr s = build(st, src);
                                       const vector<LD> got = rawOf(createDataSlice(a.t, *s, st0, len));
                                       VF_CHECK(int(got.size()) == len, "slice size");
                                       for (int k = 0; k < len; ++k)
                                           VF_CHECK(got[k] == src[st0 + k], "slice element");
                                       ex.step();
                                   }
                           }
                       });
}

void spaceText(vf::Explorer& ex)
{
    ex.space("numbers to text and back");
    for (const TypeInfo& a : TYPES)
        ex.run([&] { return string("text ") + a.name; },
               [&] {
                   vector<LD> v = valuesOf(a);
                   if (!a.integer)
                       v.push_back(NAN);
                   DataPtr d = build(a.t, v);
                   const shared_array<string> s = d->asStrings();
                   vector<string> sv;
                   for (size_t i = 0; i < v.size(); ++i)
                       sv.push_back(s[i]);
                   string joined;
                   for (size_t i = 0; i < sv.size(); ++i)
                       joined += (i ? ";" : "") + sv[i];
                   VF_CHECK(d->asString(";") == joined, "asString with separator");
                   for (size_t i = 0; i < v.size(); ++i) {
                       ex.step();
                       const LD t = strtold(sv[i].c_str(), nullptr);
                       if (a.integer)
                           VF_CHECK(t == v[i], "text of " << v[i] << " is " << sv[i]);
                       else
                           VF_CHECK((std::isnan(t) && std::isnan(v[i])) || fabsl(t - v[i]) <= fabsl(v[i]) * (a.t == CDM_FLOAT ? 5.1e-7L : 5.1e-16L), "text of " << v[i] << " is " << sv[i]);
                       ex.state(string("txt") + a.name + sv[i]);
                   }
                   // back: text arrays become the data type's nearest value
                   vector<string> sv2;
                   vector<LD> v2;
                   for (size_t i = 0; i < v.size(); ++i)
                       if (std::isnan(v[i]) || fabsl(v[i]) < a.hi) { // rounding the largest float up may leave the range
                           sv2.push_back(sv[i]);
                           v2.push_back(v[i]);
                       }
                   const vector<LD> b = rawOf(initDataByArray(a.t, sv2));
                   shared_array<string> sa(new string[sv2.size()]);
                   std::copy(sv2.begin(), sv2.end(), &sa[0]);
                   const vector<LD> b2 = viaAs(createData(sv2.size(), sa), a.t);
                   for (size_t i = 0; i < v2.size(); ++i) {
                       ex.step(2);
                       const LD t = strtold(sv2[i].c_str(), nullptr);
                       const LD want = a.integer ? v2[i] : a.t == CDM_FLOAT ? LD(float(t)) : LD(double(t));
                       VF_CHECK(same(b[i], want) || fabsl(b[i] - want) <= fabsl(want) * 2.3e-16L, "text " << sv2[i] << " parsed as " << b[i]);
                       VF_CHECK(same(b2[i], want) || fabsl(b2[i] - want) <= fabsl(want) * 2.3e-16L, "text " << sv2[i] << " converted as " << b2[i]);
                   }
                   // garbage is rejected, not guessed
                   for (const char* g : {"", "x", "1x", "1 2", " 1", "--1", "1,5", "0x"})
                       VF_CHECK(throws([&] { initDataByArray(a.t, vector<string>(1, g)); }), "text '" << g << "' accepted as a number");
                   if (a.integer)
                       VF_CHECK(throws([&] { initDataByArray(a.t, vector<string>(1, "1.5")); }), "text '1.5' accepted as an integer");
               });
}

void spaceReader(vf::Explorer& ex)
{
    ex.space("scaled and unit-converted reads: types x packing x fill x units x access path");
    const vector<std::pair<string, string>> unitPairs = {{"K", "K"}, {"K", "degC"}, {"degC", "K"}, {"hPa", "Pa"}, {"m", "km"}, {"degF", "degC"}, {"m/s", "knots"}, {"1", "%"}, {"W", "lg(re mW)"}, {"lg(re mW)", "W"}, {"K", "m"}};
    for (const TypeInfo& a : TYPES)
        for (int fillKind = 0; fillKind < 3; ++fillKind)
            for (double scale : {0., 0.5, -2., 0.01})
                for (double offset : {0., 10., -273.15})
                    ex.run([=] { return string("read ") + a.name + " fill " + std::to_string(fillKind) + " scale " + std::to_string(scale) + " offset " + std::to_string(offset); },
                           [&, fillKind, scale, offset] {
                               for (const auto& up : unitPairs)
                                   for (int mode = 0; mode < 2; ++mode)
                                       for (int unlim = 0; unlim < 2; ++unlim) {
                                           auto r = std::make_shared<TestReader>(mode ? BY_BUILDER : BY_UNLIMITED);
                                           r->dim("x", 3);
                                           r->dim("t", 2, unlim);
                                           VD raw = {1, 2, 33, 100, 5, 99};
                                           r->var("v", a.t, {"x", "t"}, raw);
                                           double fill = NAN;
                                           if (fillKind) {
                                               fill = 33;
                                               r->att("v", fillKind == 1 ? "_FillValue" : "missing_value", a.t, {33});
                                           }
                                           if (scale != 0) // otherwise no attribute
                                               r->att("v", "scale_factor", CDM_DOUBLE, {scale});
                                           if (offset != 0)
                                               r->att("v", "add_offset", CDM_DOUBLE, {offset});
                                           r->att("v", "units", up.first);
                                           VD want, wantU;
                                           UnitsConverter_p uc;
                                           if (up.second != "m" || up.first == "m")
                                               uc = Units().getConverter(up.first, up.second);
                                           for (double x : raw) {
                                               const bool miss = fillKind && x == fill;
                                               const double y = x * (scale ? scale : 1) + offset;
                                               want.push_back(miss ? NAN : y);
                                               wantU.push_back(miss || !uc ? NAN : uc->convert(y));
                                           }
                                           const double tol = 1e-9;
                                           expectClose(r->getScaledData("v"), want, "scaled data", 1e-12, 1e-10);
                                           ex.step();
                                           if (!uc) {
                                               VF_CHECK(throws([&] { r->getScaledDataInUnit("v", up.second); }), "inconvertible unit accepted");
                                               VF_CHECK(throws([&] { r->getScaledDataSliceInUnit("v", up.second, 0); }), "inconvertible unit accepted");
                                               continue;
                                           }
                                           expectClose(r->getScaledDataInUnit("v", up.second), wantU, "scaled data in unit " + up.second, 1e-9, tol);
                                           for (size_t t = 0; t < (unlim ? 2 : 1); ++t) {
                                               VD w = want, wu = wantU;
                                               if (unlim) {
                                                   w = VD(want.begin() + 3 * t, want.begin() + 3 * t + 3);
                                                   wu = VD(wantU.begin() + 3 * t, wantU.begin() + 3 * t + 3);
                                               }
                                               expectClose(r->getScaledDataSlice("v", t), w, "scaled position", 1e-12, 1e-10);
                                               expectClose(r->getScaledDataSliceInUnit("v", up.second, t), wu, "scaled position in unit " + up.second, 1e-9, tol);
                                               ex.step(2);
                                           }
                                           for (size_t x0 = 0; x0 < 3; ++x0)
                                               for (size_t t0 = 0; t0 < 2; ++t0) {
                                                   SliceBuilder sb(r->getCDM(), "v");
                                                   sb.setStartAndSize("x", x0, 3 - x0);
                                                   sb.setStartAndSize("t", t0, 2 - t0);
                                                   expectClose(r->getScaledDataSlice("v", sb), refSlice(want, {3, 2}, {x0, t0}, {3 - x0, 2 - t0}), "scaled slice", 1e-12, 1e-10);
                                                   expectClose(r->getScaledDataSliceInUnit("v", up.second, sb), refSlice(wantU, {3, 2}, {x0, t0}, {3 - x0, 2 - t0}), "scaled slice in unit " + up.second, 1e-9, tol);
                                                   ex.step(2);
                                               }
                                           ex.state(string("rd") + a.name + up.first + up.second + std::to_string(mode * 2 + unlim) + std::to_string(fillKind) + std::to_string(scale) + std::to_string(offset));
                                       }
                           });
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceAs(ex);
    spaceConvert(ex);
    spaceSet(ex);
    spaceText(ex);
    spaceReader(ex);
}
