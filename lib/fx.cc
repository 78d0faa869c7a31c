#include "fx.h"

#include <algorithm>
#include <dirent.h>
#include <cstring>
#include <fstream>
#include <unistd.h>

namespace fx {

string str(const VD& v, size_t maxn)
{
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (size_t i = 0; i < v.size() && i < maxn; ++i)
        o << (i ? " " : "") << v[i];
    if (v.size() > maxn)
        o << " ...(" << v.size() << ")";
    o << "]";
    return o.str();
}
string str(const VS& v)
{
    std::ostringstream o;
    o << "[";
    for (size_t i = 0; i < v.size(); ++i)
        o << (i ? " " : "") << v[i];
    o << "]";
    return o.str();
}
string str(const vector<string>& v)
{
    string o = "[";
    for (size_t i = 0; i < v.size(); ++i)
        o += (i ? " " : "") + v[i];
    return o + "]";
}

VD values(DataPtr d)
{
    if (!d)
        VF_FAIL("no data object");
    auto a = d->asDouble();
    return VD(a.get(), a.get() + d->size());
}

void expectValues(DataPtr d, const VD& want, const string& what)
{
    const VD got = values(d);
    VF_CHECK(got.size() == want.size(), what << ": " << got.size() << " values instead of " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        VF_CHECK(sameD(got[i], want[i]), what << ": element " << i << " is " << got[i] << " instead of " << want[i] << "; got " << str(got) << " want "
                                              << str(want));
}

void expectClose(const VD& got, const VD& want, const string& what, double rel, double abs)
{
    VF_CHECK(got.size() == want.size(), what << ": " << got.size() << " values instead of " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        VF_CHECK(closeD(got[i], want[i], rel, abs), what << ": element " << i << " is " << got[i] << " instead of " << want[i] << "; got " << str(got) << " want "
                                                   << str(want));
}
void expectClose(DataPtr d, const VD& want, const string& what, double rel, double abs)
{
    expectClose(values(d), want, what, rel, abs);
}

DataPtr mk(CDMDataType t, const VD& v)
{
    if (t == CDM_STRINGS) {
        vector<string> s;
        for (double d : v)
            s.push_back(std::to_string(static_cast<long>(d)));
        return mkStrings(s);
    }
    if (t == CDM_STRING) {
        string s;
        for (double d : v)
            s += static_cast<char>(d);
        return createData(s);
    }
    return createData(t, v.begin(), v.end());
}
DataPtr mkStrings(const vector<string>& v)
{
    auto a = make_shared_array<string>(v.size());
    std::copy(v.begin(), v.end(), a.get());
    return createData(v.size(), a);
}

bool throws(const std::function<void()>& f, string* msg)
{
    try {
        f();
    } catch (vf::Violation&) {
        throw;
    } catch (std::exception& e) {
        if (msg)
            *msg = e.what();
        return true;
    }
    return false;
}

DataPtr dataSub(DataPtr full, const VS& dims, const VS& start, const VS& size)
{
    vector<size_t> idx(full->size());
    for (size_t i = 0; i < idx.size(); ++i)
        idx[i] = i;
    const vector<size_t> sub = refSlice(idx, dims, start, size);
    if (full->getDataType() == CDM_STRINGS) {
        auto a = full->asStrings();
        vector<string> o;
        for (size_t i : sub)
            o.push_back(a[i]);
        return mkStrings(o);
    }
    if (full->getDataType() == CDM_STRING) {
        const string a = full->asString();
        string o;
        for (size_t i : sub)
            o += a.at(i);
        return createData(o);
    }
    DataPtr out = full->clone();
    // exact copy through the widest representation of each type
    const size_t w = full->bytes_for_one();
    DataPtr r = createData(full->getDataType(), sub.size());
    for (size_t k = 0; k < sub.size(); ++k)
        memcpy(static_cast<char*>(r->getDataPtr()) + k * w, static_cast<char*>(out->getDataPtr()) + sub[k] * w, w);
    return r;
}

void TestReader::dim(const string& name, size_t len, bool unlimited)
{
    CDMDimension d(name, len);
    d.setUnlimited(unlimited);
    cdm_->addDimension(d);
}
void TestReader::var(const string& name, CDMDataType type, const vector<string>& shape, const VD& vals)
{
    varData(name, type, shape, mk(type, vals));
}
void TestReader::varData(const string& name, CDMDataType type, const vector<string>& shape, DataPtr f)
{
    cdm_->addVariable(CDMVariable(name, type, shape));
    full[name] = f;
}
void TestReader::varMem(const string& name, CDMDataType type, const vector<string>& shape, DataPtr f)
{
    CDMVariable v(name, type, shape);
    v.setData(f);
    cdm_->addVariable(v);
}
void TestReader::att(const string& v, const string& name, const string& val)
{
    cdm_->addOrReplaceAttribute(v.empty() ? CDM::globalAttributeNS() : v, CDMAttribute(name, val));
}
void TestReader::att(const string& v, const string& name, CDMDataType t, const VD& vals)
{
    cdm_->addOrReplaceAttribute(v.empty() ? CDM::globalAttributeNS() : v, CDMAttribute(name, mk(t, vals)));
}
void TestReader::attData(const string& v, const string& name, DataPtr d)
{
    cdm_->addOrReplaceAttribute(v.empty() ? CDM::globalAttributeNS() : v, CDMAttribute(name, d));
}
VS TestReader::dimsOf(const string& v) const
{
    VS d;
    for (auto& s : cdm_->getVariable(v).getShape())
        d.push_back(cdm_->getDimension(s).getLength());
    return d;
}
DataPtr TestReader::getDataSlice(const string& varName, size_t pos)
{
    reads++;
    const CDMVariable& v = cdm_->getVariable(varName);
    if (v.hasData())
        return getDataSliceFromMemory(v, pos);
    DataPtr f = full.at(varName);
    const VS d = dimsOf(varName);
    VS st(d.size(), 0), sz = d;
    const CDMDimension* u = cdm_->getUnlimitedDim();
    if (u)
        for (size_t i = 0; i < d.size(); ++i)
            if (v.getShape()[i] == u->getName()) {
                if (pos >= d[i])
                    return createData(v.getDataType(), 0);
                st[i] = pos;
                sz[i] = 1;
            }
    return dataSub(f, d, st, sz);
}
DataPtr TestReader::getDataSlice(const string& varName, const SliceBuilder& sb)
{
    const CDMVariable& v = cdm_->getVariable(varName);
    if (mode_ == BY_UNLIMITED || v.hasData())
        return CDMReader::getDataSlice(varName, sb);
    reads++;
    return dataSub(full.at(varName), dimsOf(varName), sb.getDimensionStartPositions(), sb.getDimensionSizes());
}

VD iota(size_t n, double first)
{
    VD v(n);
    for (size_t i = 0; i < n; ++i)
        v[i] = first + (i % 100);
    return v;
}

void product(size_t n, int lo, int hi, const std::function<void(const vector<int>&)>& f)
{
    vector<int> v(n, lo);
    for (;;) {
        f(v);
        size_t i = 0;
        for (; i < n; ++i) {
            if (++v[i] <= hi)
                break;
            v[i] = lo;
        }
        if (i == n)
            break;
    }
}

const vector<CDMDataType>& numericTypes()
{
    static const vector<CDMDataType> t = {CDM_CHAR,  CDM_SHORT, CDM_INT,    CDM_FLOAT, CDM_DOUBLE,
                                          CDM_UCHAR, CDM_USHORT, CDM_UINT, CDM_INT64, CDM_UINT64};
    return t;
}

static string dumpAtt(const CDMAttribute& a)
{
    std::ostringstream o;
    o << a.getName() << ":" << datatype2string(a.getDataType()) << "=";
    if (a.getDataType() == CDM_STRING)
        o << a.getStringValue();
    else
        o << a.getData()->asString(",");
    return o.str();
}

string dumpCDM(const CDM& cdm)
{
    std::map<string, string> lines;
    for (auto& d : cdm.getDimensions())
        lines["D " + d.getName()] = std::to_string(d.getLength()) + (d.isUnlimited() ? " unlimited" : "");
    auto atts = [&](const string& v) {
        std::map<string, string> m;
        for (auto& a : cdm.getAttributes(v))
            m[a.getName()] = dumpAtt(a);
        string s;
        for (auto& x : m)
            s += " {" + x.second + "}";
        return s;
    };
    for (auto& v : cdm.getVariables())
        lines["V " + v.getName()] = string(datatype2string(v.getDataType())) + str(v.getShape()) + atts(v.getName());
    lines["G"] = atts(CDM::globalAttributeNS());
    string s;
    for (auto& l : lines)
        s += l.first + " " + l.second + "\n";
    return s;
}

string dump(CDMReader_p r, bool withData)
{
    string s = dumpCDM(r->getCDM());
    if (withData) {
        std::map<string, string> m;
        for (auto& v : r->getCDM().getVariables()) {
            DataPtr d = r->getData(v.getName());
            if (v.getDataType() == CDM_STRING || v.getDataType() == CDM_STRINGS || v.getDataType() == CDM_NAT)
                m[v.getName()] = d->asString("|");
            else
                m[v.getName()] = str(values(d), 1000000);
        }
        for (auto& x : m)
            s += "data " + x.first + " " + x.second + "\n";
    }
    return s;
}

void axis(TestReader& r, const string& name, const VD& vals, const string& units, const string& stdname, CDMDataType t, bool unlimited)
{
    r.dim(name, vals.size(), unlimited);
    r.var(name, t, {name}, vals);
    if (!units.empty())
        r.att(name, "units", units);
    if (!stdname.empty())
        r.att(name, "standard_name", stdname);
}

string readFile(const string& fn)
{
    std::ifstream f(fn, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
void writeFile(const string& fn, const string& content)
{
    std::ofstream f(fn, std::ios::binary | std::ios::trunc);
    f << content;
}
void cleanDir(const string& dir)
{
    if (dir.find("vf-") == string::npos)
        return;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) {
            if (e->d_name[0] != '.')
                unlink((dir + "/" + e->d_name).c_str());
        }
        closedir(d);
    }
}

} // namespace fx
