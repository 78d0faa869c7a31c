// C02: every partial read equals the corresponding part of the full data, for every reader
#include "fx.h"

#include "fimex/CDMExtractor.h"
#include "fimex/CDMFileReaderFactory.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/CDMOverlay.h"
#include "fimex/CDMPressureConversions.h"
#include "fimex/CDMProcessor.h"
#include "fimex/CDMQualityExtractor.h"
#include "fimex/CDMReaderWriter.h"
#include "fimex/CDMTimeInterpolator.h"
#include "fimex/CDMVerticalInterpolator.h"
#include "fimex/C_CDMReader.h"
#include "fimex/CachedVectorReprojection.h"
#include "fimex/NcmlCDMReader.h"
#include "fimex/XMLInputString.h"
#include "fimex/c_fimex.h"
#include "fimex/mifi_cdm_reader.h"

#include <netcdf.h>
#include <stdexcept>

using namespace fx;

namespace {

const char* DN[] = {"d0", "d1", "d2", "d3"};
const char* NCML = "<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\">";

// request a slice with d dimensions; positions/sizes in [0..len]; all of them, including those beyond the end
void forAllSlices(const VS& dims, bool beyond, const std::function<void(const VS&, const VS&, bool)>& f)
{
    VS st(dims.size(), 0), sz(dims.size(), 0);
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == dims.size()) {
            bool ok = true;
            for (size_t k = 0; k < dims.size(); ++k)
                ok &= st[k] + sz[k] <= dims[k];
            f(st, sz, ok);
            return;
        }
        for (size_t a = 0; a <= dims[i] + (beyond ? 1 : 0); ++a)
            for (size_t b = 0; b <= dims[i] + (beyond ? 1 : 0); ++b) {
                if (!beyond && (b == 0 || a + b > dims[i]))
                    continue;
                st[i] = a;
                sz[i] = b;
                rec(i + 1);
            }
    };
    rec(0);
}

void expectSame(DataPtr got, DataPtr want, const string& what)
{
    VF_CHECK(got.get(), what << ": no data object");
    VF_CHECK(got->size() == want->size(), what << ": " << got->size() << " values instead of " << want->size());
    if (want->getDataType() == CDM_STRINGS) {
        VF_CHECK(got->getDataType() == CDM_STRINGS, what << ": type changed");
        auto g = got->asStrings(), w = want->asStrings();
        for (size_t i = 0; i < want->size(); ++i)
            VF_CHECK(g[i] == w[i], what << ": string " << i << " is '" << g[i] << "' instead of '" << w[i] << "'");
    } else if (want->getDataType() == CDM_STRING) {
        VF_CHECK(got->asString() == want->asString(), what << ": text differs: '" << got->asString() << "' instead of '" << want->asString() << "'");
    } else {
        expectValues(got, values(want), what);
    }
}

} // namespace

void vf::explore(Explorer& ex)
{
    // ------------------------------------------------------------------ request builder
    ex.space("slice request builder: all request sequences");
    {
        const size_t H = size_t(-1);
        struct Req { int dim; size_t st, sz; };
        vector<Req> reqs;
        for (int d = 0; d < 2; ++d)
            for (size_t st : {size_t(0), size_t(1), size_t(2), size_t(3), H})
                for (size_t sz : {size_t(0), size_t(1), size_t(2), size_t(3), H, H - 1})
                    reqs.push_back({d, st, sz});
        reqs.push_back({0, 77, 77}); // setAll
        reqs.push_back({1, 77, 77});
        reqs.push_back({2, 0, 1}); // unknown dimension
        for (size_t a = 0; a < reqs.size(); ++a)
            for (size_t b = 0; b < reqs.size(); ++b)
                ex.run([&] { return "requests " + std::to_string(a) + " then " + std::to_string(b); },
                       [&] {
                           SliceBuilder sb({"d0", "d1"}, {3, 2});
                           VS st = {0, 0}, sz = {3, 2}, mx = {3, 2};
                           bool set[2] = {false, false};
                           for (size_t k : {a, b}) {
                               const Req& r = reqs[k];
                               const bool all = r.st == 77;
                               bool legal = r.dim < 2 && (all || (r.st <= mx[r.dim] && r.sz <= mx[r.dim] - r.st));
                               bool thrown = throws([&] {
                                   if (all)
                                       sb.setAll(DN[r.dim]);
                                   else
                                       sb.setStartAndSize(DN[r.dim], r.st, r.sz);
                               });
                               ex.step();
                               VF_CHECK(thrown == !legal, "request dim=" << r.dim << " start=" << r.st << " size=" << r.sz << (legal ? " rejected" : " accepted"));
                               if (legal) {
                                   st[r.dim] = all ? 0 : r.st;
                                   sz[r.dim] = all ? mx[r.dim] : r.sz;
                                   set[r.dim] = true;
                               }
                               VF_CHECK(sb.getDimensionStartPositions() == st, "start positions");
                               VF_CHECK(sb.getDimensionSizes() == sz, "sizes");
                               VF_CHECK(sb.getMaxDimensionSizes() == mx, "max sizes");
                               VF_CHECK(sb.getDimensionNames() == vector<string>({"d0", "d1"}), "names");
                               vector<string> unset;
                               for (int d = 0; d < 2; ++d)
                                   if (!set[d])
                                       unset.push_back(DN[d]);
                               VF_CHECK(sb.getUnsetDimensionNames() == unset, "unset dimensions " << str(sb.getUnsetDimensionNames()));
                               ex.state(str(st) + str(sz));
                           }
                       });
    }

    // ------------------------------------------------------------------ Data::slice
    ex.space("multi-dimensional slices of a data array, all shapes, offsets and sizes");
    {
        vector<CDMDataType> types = numericTypes();
        types.push_back(CDM_STRINGS);
        for (CDMDataType t : types) {
            for (size_t nd = 0; nd <= 4; ++nd) {
                const int maxlen = nd <= 2 ? 3 : nd == 3 ? ex.bound(2, 3) : ex.bound(1, 2);
                product(nd, 1, maxlen, [&](const vector<int>& len) {
                    VS dims(len.begin(), len.end());
                    ex.run([&] { return string(datatype2string(t)) + " array " + str(dims) + ", every slice"; },
                           [&] {
                               DataPtr full = mk(t, iota(prod(dims), 65));
                               forAllSlices(dims, true, [&](const VS& st, const VS& sz, bool legal) {
                                   DataPtr r;
                                   const string what = "slice " + str(st) + " size " + str(sz);
                                   bool thrown = throws([&] { r = full->slice(dims, st, sz); });
                                   ex.step();
                                   if (!legal) {
                                       VF_CHECK(thrown, what << " beyond the array was answered");
                                   } else if (prod(sz) == 0) {
                                       VF_CHECK(thrown || (r && r->size() == 0), what << " empty slice returned data");
                                   } else {
                                       VF_CHECK(!thrown, what << " rejected");
                                       VF_CHECK(r->getDataType() == t, what << " changed the type");
                                       expectSame(r, dataSub(full, dims, st, sz), what);
                                   }
                                   ex.state(str(dims) + what);
                               });
                               // inconsistent shape information is rejected
                               VS wrong = dims;
                               if (nd > 0) {
                                   wrong[0] += 1;
                                   VF_CHECK(throws([&] { full->slice(wrong, VS(nd, 0), VS(nd, 1)); }), "shape with wrong element count accepted");
                               }
                           });
                });
            }
        }
    }

    // ------------------------------------------------------------------ readers
    struct Kind { string name; std::function<CDMReader_p(TestReader_p, const string&)> make; };
    auto file = [&](const char* type) {
        return [type](TestReader_p r, const string& dir) -> CDMReader_p {
            const string fn = dir + "/s.nc";
            CDMFileReaderFactory::createWriter(r, type, fn);
            return CDMFileReaderFactory::create("netcdf", fn);
        };
    };
    vector<Kind> kinds = {
        {"plain reader", [](TestReader_p r, const string&) -> CDMReader_p { return r; }},
        {"extractor", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<CDMExtractor>(r); }},
        {"processor", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<CDMProcessor>(r); }},
        {"quality extractor", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<CDMQualityExtractor>(r); }},
        {"interpolator", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<CDMInterpolator>(r); }},
        {"time interpolator", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<CDMTimeInterpolator>(r); }},
        {"c wrapper", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<C_CDMReader>(r); }},
        {"ncml", [](TestReader_p r, const string&) -> CDMReader_p { return std::make_shared<NcmlCDMReader>(r, XMLInputString(string(NCML) + "</netcdf>")); }},
        {"netcdf3 file", file("nc")},
        {"netcdf4 file", file("nc4")},
    };

    struct VarSpec { vector<string> shape; };
    const vector<vector<string>> shapes = {{}, {"t"}, {"x"}, {"x", "t"}, {"x", "y"}, {"x", "y", "t"}, {"x", "z", "y", "t"}, {"z"}};
    const vector<CDMDataType> ftypes = {CDM_SHORT, CDM_INT, CDM_FLOAT, CDM_DOUBLE, CDM_CHAR};
    for (const Kind& k : kinds) {
        ex.space("reader: " + k.name);
        const bool isfile = k.name.find("file") != string::npos;
        for (int unlim = 0; unlim <= 1; ++unlim) {
            for (int mode = 0; mode <= 2; ++mode) {
                if (isfile && mode == 2)
                    continue;
                for (size_t si = 0; si < shapes.size(); ++si) {
                    const auto& shape = shapes[si];
                    for (CDMDataType t : ftypes) {
                        if (!ex.thorough() && !(t == CDM_SHORT || (t == CDM_DOUBLE && si == 5) || (t == CDM_CHAR && si == 5)))
                            continue;
                        ex.run(
                            [&] {
                                return k.name + " variable " + datatype2string(t) + str(shape) + (unlim ? " t unlimited" : " fixed") +
                                       (mode == 0 ? " source reads by position" : mode == 1 ? " source reads by slice" : " data in memory");
                            },
                            [&] {
                                auto src = std::make_shared<TestReader>(mode == 0 ? BY_UNLIMITED : BY_BUILDER);
                                src->dim("x", 3);
                                src->dim("y", 2);
                                src->dim("z", 2);
                                src->dim("t", 3, unlim);
                                size_t n = 1;
                                VS dims;
                                for (auto& s : shape) {
                                    dims.push_back(s == "x" || s == "t" ? 3 : 2);
                                    n *= dims.back();
                                }
                                DataPtr full = mk(t, iota(n));
                                if (mode == 2)
                                    src->varMem("v", t, shape, full->clone());
                                else
                                    src->varData("v", t, shape, full);
                                src->att("v", "scale_factor", CDM_DOUBLE, {0.5});
                                src->att("v", "add_offset", CDM_DOUBLE, {-3});
                                src->att("v", "units", "m");
                                src->varData("w", CDM_INT, {"t"}, mk(CDM_INT, {7, 8, 9}));
                                CDMReader_p r = k.make(src, ex.scratch());
                                VF_CHECK(r->getCDM().getVariable("v").getShape() == shape, "shape changed");
                                auto scaled = [&](DataPtr d, double f) {
                                    VD v = values(d);
                                    for (auto& x : v)
                                        x = (0.5 * x - 3) * f;
                                    return v;
                                };
                                expectSame(r->getData("v"), full, "getData");
                                expectClose(r->getScaledData("v"), scaled(full, 1), "getScaledData");
                                expectClose(r->getScaledDataInUnit("v", "cm"), scaled(full, 100), "getScaledDataInUnit");
                                // by unlimited position
                                const CDMDimension* ud = r->getCDM().getUnlimitedDim();
                                int upos = -1;
                                for (size_t i = 0; i < shape.size(); ++i)
                                    if (ud && shape[i] == ud->getName())
                                        upos = i;
                                for (size_t p = 0; p < 3; ++p) {
                                    VS st(dims.size(), 0), sz = dims;
                                    if (upos >= 0) {
                                        st[upos] = p;
                                        sz[upos] = 1;
                                    }
                                    DataPtr want = dataSub(full, dims, st, sz);
                                    const string w = "position " + std::to_string(p);
                                    ex.step(3);
                                    expectSame(r->getDataSlice("v", p), want, "getDataSlice " + w);
                                    expectClose(r->getScaledDataSlice("v", p), scaled(want, 1), "getScaledDataSlice " + w);
                                    expectClose(r->getScaledDataSliceInUnit("v", "km", p), scaled(want, 1e-3), "getScaledDataSliceInUnit " + w);
                                }
                                if (upos >= 0)
                                    for (size_t p : {size_t(3), size_t(4), size_t(1) << 31}) {
                                        ex.step();
                                        size_t got = 0;
                                        VF_CHECK(throws([&] { got = r->getDataSlice("v", p)->size(); }) || got == 0, "getDataSlice answers position " << p << " behind the end");
                                    }
                                // by slice
                                forAllSlices(dims, false, [&](const VS& st, const VS& sz, bool) {
                                    SliceBuilder sb(r->getCDM(), "v");
                                    for (size_t i = 0; i < dims.size(); ++i)
                                        sb.setStartAndSize(shape[i], st[i], sz[i]);
                                    DataPtr want = dataSub(full, dims, st, sz);
                                    const string w = str(st) + "+" + str(sz);
                                    ex.step(3);
                                    expectSame(r->getDataSlice("v", sb), want, "getDataSlice " + w);
                                    expectClose(r->getScaledDataSlice("v", sb), scaled(want, 1), "getScaledDataSlice " + w);
                                    expectClose(r->getScaledDataSliceInUnit("v", "cm", sb), scaled(want, 100), "getScaledDataSliceInUnit " + w);
                                    ex.state(k.name + str(dims) + w + std::to_string(upos));
                                });
                                // reading does not change what is read
                                expectSame(r->getData("v"), full, "second getData");
                                expectSame(r->getData("w"), mk(CDM_INT, {7, 8, 9}), "other variable");
                                r.reset();
                                cleanDir(ex.scratch());
                            });
                    }
                }
            }
        }
    }

    // ------------------------------------------------------------------ files not written by fimex
    ex.space("netcdf files with the unlimited dimension at any position");
    for (int fmt = 0; fmt < 3; ++fmt)
        for (int nd = 1; nd <= 3; ++nd)
            for (int up = -1; up < nd; ++up) {
                if (fmt < 2 && up > 0)
                    continue; // only netcdf4 allows this
                for (nc_type nt : {NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE, NC_UBYTE, NC_USHORT, NC_UINT, NC_INT64, NC_UINT64, NC_STRING}) {
                    if (fmt < 2 && nt > NC_DOUBLE)
                        continue;
                    ex.run([&] { return "format " + std::to_string(fmt) + " ndims " + std::to_string(nd) + " unlimited file dim " + std::to_string(up) + " type " + std::to_string(nt); },
                           [&] {
                               const string fn = ex.scratch() + "/f.nc";
                               int nc, dimid[3], v;
                               auto ck = [](int e) {
                                   if (e != NC_NOERR)
                                       throw std::logic_error(nc_strerror(e));
                               };
                               ck(nc_create(fn.c_str(), NC_CLOBBER | (fmt == 1 ? NC_64BIT_OFFSET : fmt == 2 ? NC_NETCDF4 : 0), &nc));
                               const size_t len[3] = {2, 3, 2};
                               VS dims; // fimex order
                               vector<string> shape;
                               size_t n = 1;
                               for (int i = 0; i < nd; ++i) {
                                   ck(nc_def_dim(nc, DN[i], i == up ? NC_UNLIMITED : len[i], &dimid[i]));
                                   dims.insert(dims.begin(), len[i]);
                                   shape.insert(shape.begin(), DN[i]);
                                   n *= len[i];
                               }
                               ck(nc_def_var(nc, "v", nt, nd, dimid, &v));
                               ck(nc_enddef(nc));
                               size_t st0[3] = {0, 0, 0};
                               vector<long long> vals(n);
                               vector<string> strs(n);
                               vector<const char*> cs(n);
                               string text;
                               for (size_t i = 0; i < n; ++i) {
                                   vals[i] = 65 + i;
                                   strs[i] = "s" + std::to_string(i);
                                   cs[i] = strs[i].c_str();
                                   text += char(65 + i);
                               }
                               if (nt == NC_STRING)
                                   ck(nc_put_vara_string(nc, v, st0, len, cs.data()));
                               else if (nt == NC_CHAR)
                                   ck(nc_put_vara_text(nc, v, st0, len, text.c_str()));
                               else
                                   ck(nc_put_vara_longlong(nc, v, st0, len, vals.data()));
                               ck(nc_close(nc));
                               DataPtr full = nt == NC_STRING ? mkStrings(strs) : mk(nt == NC_CHAR ? CDM_STRING : CDM_DOUBLE, VD(vals.begin(), vals.end()));
                               CDMReader_p r = CDMFileReaderFactory::create("netcdf", fn);
                               VF_CHECK(r->getCDM().getVariable("v").getShape() == shape, "shape");
                               auto cmp = [&](DataPtr got, DataPtr want, const string& w) {
                                   if (nt == NC_CHAR)
                                       VF_CHECK(got->asString() == want->asString(), w << ": text '" << got->asString() << "' instead of '" << want->asString() << "'");
                                   else
                                       expectSame(got, want, w);
                               };
                               cmp(r->getData("v"), full, "getData");
                               // the position counts along whatever the reader declares unlimited; without that, one position is everything
                               const bool hasU = r->getCDM().hasUnlimitedDim(r->getCDM().getVariable("v"));
                               if (up == 0)
                                   VF_CHECK(hasU, "outermost unlimited dimension is not reported as unlimited");
                               const int upos = hasU ? nd - 1 - up : -1;
                               for (size_t p = 0; p < (hasU ? len[up] : 1); ++p) {
                                   VS st(dims.size(), 0), sz = dims;
                                   if (upos >= 0) {
                                       st[upos] = p;
                                       sz[upos] = 1;
                                   }
                                   ex.step();
                                   cmp(r->getDataSlice("v", p), dataSub(full, dims, st, sz), "getDataSlice position " + std::to_string(p));
                               }
                               forAllSlices(dims, false, [&](const VS& st, const VS& sz, bool) {
                                   SliceBuilder sb(r->getCDM(), "v");
                                   for (size_t i = 0; i < dims.size(); ++i)
                                       sb.setStartAndSize(shape[i], st[i], sz[i]);
                                   ex.step();
                                   cmp(r->getDataSlice("v", sb), dataSub(full, dims, st, sz), "getDataSlice " + str(st) + "+" + str(sz));
                                   ex.state("file" + std::to_string(upos) + str(dims) + str(st) + str(sz) + std::to_string(nt));
                               });
                               r.reset();
                               cleanDir(ex.scratch());
                           });
                }
            }
}
