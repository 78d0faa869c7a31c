// helpers to build small datasets and to compare data
#ifndef FX_H
#define FX_H
#include "vf.h"

#include "fimex/CDM.h"
#include "fimex/CDMAttribute.h"
#include "fimex/CDMDimension.h"
#include "fimex/CDMException.h"
#include "fimex/CDMReader.h"
#include "fimex/CDMVariable.h"
#include "fimex/CDMconstants.h"
#include "fimex/Data.h"
#include "fimex/DataUtils.h"
#include "fimex/SliceBuilder.h"

#include <cmath>
#include <map>
#include <string>
#include <vector>

namespace fx {
using namespace MetNoFimex;
using std::string;
using std::vector;

typedef vector<double> VD;
typedef vector<size_t> VS;

inline size_t prod(const VS& v)
{
    size_t p = 1;
    for (size_t x : v)
        p *= x;
    return p;
}

/// sub-array, fastest dimension first; naive reference
template <class T>
vector<T> refSlice(const vector<T>& all, const VS& dims, const VS& start, const VS& size)
{
    vector<T> out;
    if (prod(size) == 0)
        return out;
    VS p(dims.size(), 0);
    for (;;) {
        size_t off = 0, stride = 1;
        for (size_t i = 0; i < dims.size(); ++i) {
            off += (start[i] + p[i]) * stride;
            stride *= dims[i];
        }
        out.push_back(all.at(off));
        size_t i = 0;
        for (; i < dims.size(); ++i) {
            if (++p[i] < size[i])
                break;
            p[i] = 0;
        }
        if (i == dims.size())
            break;
    }
    return out;
}

inline bool sameD(double a, double b)
{
    return (std::isnan(a) && std::isnan(b)) || a == b;
}
inline bool closeD(double a, double b, double rel = 1e-6, double abs = 1e-9)
{
    if (std::isnan(a) || std::isnan(b))
        return std::isnan(a) && std::isnan(b);
    if (a == b)
        return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

string str(const VD& v, size_t maxn = 24);
string str(const VS& v);
string str(const vector<string>& v);

VD values(DataPtr d); ///< as doubles

void expectValues(DataPtr d, const VD& want, const string& what);
void expectClose(DataPtr d, const VD& want, const string& what, double rel = 1e-6, double abs = 1e-9);
void expectClose(const VD& got, const VD& want, const string& what, double rel = 1e-6, double abs = 1e-9);

DataPtr mk(CDMDataType t, const VD& v);
DataPtr mkStrings(const vector<string>& v);

/// call f, return true if it threw a std::exception (message in *msg)
bool throws(const std::function<void()>& f, string* msg = nullptr);

enum SliceMode {
    BY_UNLIMITED, ///< implements only the per-unlimited-position read
    BY_BUILDER,   ///< implements both reads
};

/// a reader holding its data outside of the dataset description; returns fresh copies
class TestReader : public CDMReader
{
public:
    explicit TestReader(SliceMode mode = BY_BUILDER) : mode_(mode) {}
    void dim(const string& name, size_t len, bool unlimited = false);
    void var(const string& name, CDMDataType type, const vector<string>& shape, const VD& vals);
    void varData(const string& name, CDMDataType type, const vector<string>& shape, DataPtr full);
    void varMem(const string& name, CDMDataType type, const vector<string>& shape, DataPtr full);
    void att(const string& var, const string& name, const string& val);
    void att(const string& var, const string& name, CDMDataType t, const VD& vals);
    void attData(const string& var, const string& name, DataPtr d);
    VS dimsOf(const string& var) const;

    using CDMReader::getDataSlice;
    DataPtr getDataSlice(const string& varName, size_t unLimDimPos) override;
    DataPtr getDataSlice(const string& varName, const SliceBuilder& sb) override;

    std::map<string, DataPtr> full;
    size_t reads = 0;

private:
    SliceMode mode_;
};
typedef std::shared_ptr<TestReader> TestReader_p;

DataPtr dataSub(DataPtr full, const VS& dims, const VS& start, const VS& size);

/// distinct values representable in every type: 1..n (mod 100)
VD iota(size_t n, double first = 1);

/// all vectors with lo<=v[i]<=hi, n entries
void product(size_t n, int lo, int hi, const std::function<void(const vector<int>&)>& f);

const vector<CDMDataType>& numericTypes();

/// full dump of a reader: metadata and data, canonical
string dump(CDMReader_p r, bool withData = true);
string dumpCDM(const CDM& cdm);

/// coordinate variable helper: adds dim and axis variable
void axis(TestReader& r, const string& name, const VD& vals, const string& units, const string& stdname, CDMDataType t = CDM_DOUBLE, bool unlimited = false);

string readFile(const string& fn);
void writeFile(const string& fn, const string& content);
void cleanDir(const string& dir); ///< removes plain files directly in dir (scratch only)

} // namespace fx
#endif
