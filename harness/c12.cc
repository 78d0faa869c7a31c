// C12: filling of undefined cells, distances of grid cells
#include "fx.h"
#include "fimex/CDMInterpolator.h"
#include "fimex/interpolation.h"
#include "fimex/mifi_constants.h"

#include <algorithm>
#include <cstring>
#include <limits>

using namespace fx;

namespace {
const float NANF = std::numeric_limits<float>::quiet_NaN();
const double NaN = std::numeric_limits<double>::quiet_NaN();

struct Filler
{
    string name;
    bool usesDefault;
    bool laplace;
    double def;
    std::function<int(size_t, size_t, float*, size_t*)> f;
};

const vector<Filler>& fillers()
{
    static vector<Filler> f;
    if (f.empty()) {
        for (double eff : {1.2, 1.6})
            f.push_back({"laplace, overrelaxation " + std::to_string(eff), false, true, 0, [eff](size_t nx, size_t ny, float* v, size_t* n) { return mifi_fill2d_f(nx, ny, v, 1e-6f, eff, 2000, n); }});
        for (size_t loops : {0, 1, 3, 5, 6, 20})
            f.push_back({"laplace, " + std::to_string(loops) + " scans", false, false, 0, [loops](size_t nx, size_t ny, float* v, size_t* n) { return mifi_fill2d_f(nx, ny, v, 1e-3f, 1.6f, loops, n); }});
        for (int rep : {0, 1, 2, 20})
            for (int w : {1, 2, 5})
                f.push_back({"creep, " + std::to_string(rep) + " repeats, weight " + std::to_string(w), false, false, 0, [rep, w](size_t nx, size_t ny, float* v, size_t* n) { return mifi_creepfill2d_f(nx, ny, v, rep, w, n); }});
        for (double d : {0., -50., 3.})
            for (int rep : {1, 20})
                f.push_back({"creep to " + std::to_string(d) + ", " + std::to_string(rep) + " repeats", true, false, d, [rep, d](size_t nx, size_t ny, float* v, size_t* n) { return mifi_creepfillval2d_f(nx, ny, v, d, rep, 2, n); }});
    }
    return f;
}

void checkFilled(const Filler& f, size_t nx, size_t ny, const std::vector<float>& in, const std::vector<float>& out, size_t changed, const string& what)
{
    size_t undef = 0;
    double lo = 1e30, hi = -1e30;
    for (float v : in) {
        if (std::isnan(v))
            ++undef;
        else {
            lo = std::min<double>(lo, v);
            hi = std::max<double>(hi, v);
        }
    }
    VF_CHECK(changed == undef, what << ": reported " << changed << " undefined cells instead of " << undef);
    for (size_t i = 0; i < in.size(); ++i)
        if (!std::isnan(in[i]))
            VF_CHECK(std::memcmp(&in[i], &out[i], sizeof(float)) == 0, what << ": defined cell " << i << " changed from " << in[i] << " to " << out[i]);
    if (undef == in.size()) {
        for (size_t i = 0; i < in.size(); ++i)
            VF_CHECK(std::isnan(out[i]) || (f.usesDefault && out[i] == f.def), what << ": value " << out[i] << " without any defined value");
        return;
    }
    const double glo = f.usesDefault ? std::min(lo, f.def) : lo, ghi = f.usesDefault ? std::max(hi, f.def) : hi;
    const double eps = 1e-3 * (1 + ghi - glo);
    for (size_t i = 0; i < in.size(); ++i)
        if (std::isnan(in[i])) {
            VF_CHECK(std::isfinite(out[i]), what << ": undefined cell " << i << " is " << out[i]);
            // over-relaxed scans may overshoot until they converged
            const bool scans = f.name.find("scans") != string::npos;
            if (!scans)
                VF_CHECK(out[i] >= glo - eps && out[i] <= ghi + eps, what << ": cell " << i << " filled with " << out[i] << " outside of the values " << glo << ".." << ghi);
        }
    if (f.laplace && nx > 2 && ny > 2) {
        const double tol = 1e-2 * (hi - lo) + 1e-4;
        for (size_t y = 0; y < ny; ++y)
            for (size_t x = 0; x < nx; ++x) {
                const size_t i = y * nx + x;
                if (!std::isnan(in[i]))
                    continue;
                const bool bx = x == 0 || x + 1 == nx, by = y == 0 || y + 1 == ny;
                double want;
                if (!bx && !by)
                    want = (double(out[i - 1]) + out[i + 1] + out[i - nx] + out[i + nx]) / 4;
                else if (by)
                    want = out[y == 0 ? i + nx : i - nx];
                else
                    want = out[x == 0 ? i + 1 : i - 1];
                VF_CHECK(std::fabs(out[i] - want) <= tol, what << ": cell (" << x << "," << y << ") is " << out[i] << ", its neighbours give " << want);
            }
    }
}

void spaceFill(vf::Explorer& ex)
{
    const int maxCells = ex.bound(15, 16);
    ex.space("all masks of undefined cells of all fields, all filling methods");
    vector<std::pair<size_t, size_t>> sizes;
    for (size_t nx = 0; nx <= 6; ++nx)
        for (size_t ny = 0; ny <= 6; ++ny)
            if (nx * ny <= size_t(maxCells))
                sizes.push_back({nx, ny});
    for (const auto& s : sizes)
        for (const Filler& f : fillers())
            ex.run([&] { return f.name + ", " + std::to_string(s.first) + "x" + std::to_string(s.second) + " field"; },
                   [&] {
                       const size_t nx = s.first, ny = s.second, n = nx * ny;
                       for (size_t mask = 0; mask < (size_t(1) << n); ++mask) {
                           std::vector<float> in;
                           for (size_t i = 0; i < n; ++i)
                               in.push_back(mask & (size_t(1) << i) ? NANF : float((i * 7) % 11) - 3.25f);
                           std::vector<float> out = in;
                           size_t changed = 0;
                           ex.step();
                           const int rc = f.f(nx, ny, out.data(), &changed);
                           VF_CHECK(rc == MIFI_OK, "mask " << mask << ": return code " << rc);
                           checkFilled(f, nx, ny, in, out, changed, "mask " + std::to_string(mask));
                       }
                       ex.state(f.name + std::to_string(nx) + "x" + std::to_string(ny));
                   });
    ex.space("single defined or undefined cells and blocks in larger fields");
    for (const auto& s : vector<std::pair<size_t, size_t>>{{5, 4}, {4, 7}, {8, 6}})
        for (const Filler& f : fillers())
            ex.run([&] { return f.name + ", " + std::to_string(s.first) + "x" + std::to_string(s.second) + " field"; },
                   [&] {
                       const size_t nx = s.first, ny = s.second, n = nx * ny;
                       for (size_t a = 0; a < n; ++a)
                           for (size_t b = a; b < n; ++b)
                               for (int inv = 0; inv < 2; ++inv) {
                                   std::vector<float> in;
                                   const size_t x0 = std::min(a % nx, b % nx), x1 = std::max(a % nx, b % nx), y0 = a / nx, y1 = b / nx;
                                   for (size_t i = 0; i < n; ++i) {
                                       const bool inside = i % nx >= x0 && i % nx <= x1 && i / nx >= y0 && i / nx <= y1;
                                       in.push_back(inside != bool(inv) ? NANF : 100 + float((i * 7) % 11));
                                   }
                                   std::vector<float> out = in;
                                   size_t changed = 0;
                                   ex.step();
                                   const int rc = f.f(nx, ny, out.data(), &changed);
                                   VF_CHECK(rc == MIFI_OK, "return code " << rc);
                                   checkFilled(f, nx, ny, in, out, changed, "block " + std::to_string(a) + ".." + std::to_string(b) + (inv ? " defined" : " undefined"));
                               }
                       ex.state("b" + f.name + std::to_string(nx) + "x" + std::to_string(ny));
                   });
}

void spaceProcess(vf::Explorer& ex)
{
    ex.space("filling before and after interpolation: all layers, all masks of 2x3 cells");
    const string LL = "+proj=latlong +R=6371000 +no_defs";
    for (int kind = 0; kind < 3; ++kind)
        for (int post = 0; post < 3; ++post)
            for (int mask = 0; mask < 64; ++mask)
                ex.run([=] { return "filling " + std::to_string(kind) + (post == 0 ? " before" : post == 1 ? " after" : " before and after") + ", mask " + std::to_string(mask); },
                       [&] {
                           auto make = [&]() -> InterpolatorProcess2d_p {
                               if (kind == 0)
                                   return std::make_shared<InterpolatorFill2d>(1e-4f, 1.6f, 100);
                               else if (kind == 1)
                                   return std::make_shared<InterpolatorCreepFill2d>(20, 2);
                               return std::make_shared<InterpolatorCreepFillVal2d>(20, 2, 5.f);
                           };
                           auto fill = [&](std::vector<float>& v, size_t nx, size_t ny) {
                               size_t n;
                               if (kind == 0)
                                   mifi_fill2d_f(nx, ny, v.data(), 1e-4f, 1.6f, 100, &n);
                               else if (kind == 1)
                                   mifi_creepfill2d_f(nx, ny, v.data(), 20, 2, &n);
                               else
                                   mifi_creepfillval2d_f(nx, ny, v.data(), 5.f, 20, 2, &n);
                           };
                           auto r = std::make_shared<TestReader>(BY_BUILDER);
                           r->att("", "Conventions", "CF-1.6");
                           axis(*r, "lon", {0, 1}, "degrees_east", "longitude");
                           axis(*r, "lat", {50, 51, 52}, "degrees_north", "latitude");
                           r->dim("z", 2);
                           VD v;
                           for (int z = 0; z < 2; ++z)
                               for (int i = 0; i < 6; ++i)
                                   v.push_back(((z ? mask * 37 % 64 : mask) & (1 << i)) ? -99 : 1 + i * i + 10 * z);
                           r->var("v", CDM_FLOAT, {"lon", "lat", "z"}, v);
                           r->att("v", "_FillValue", CDM_FLOAT, {-99});
                           CDMInterpolator ip(r);
                           if (post != 1)
                               ip.addPreprocess(make());
                           if (post != 0)
                               ip.addPostprocess(make());
                           // the grid itself with one row and column more: nearest neighbour
                           ip.changeProjection(MIFI_INTERPOL_NEAREST_NEIGHBOR, LL, VD{0, 1, 2}, VD{49, 50, 51, 52}, "degrees_east", "degrees_north", CDM_DOUBLE, CDM_DOUBLE);
                           ex.step();
                           const VD got = values(ip.getScaledData("v"));
                           VF_CHECK(got.size() == 24, "size " << got.size());
                           VD want;
                           for (int z = 0; z < 2; ++z) {
                               std::vector<float> in;
                               for (int i = 0; i < 6; ++i)
                                   in.push_back(v[z * 6 + i] == -99 ? NANF : float(v[z * 6 + i]));
                               if (post != 1)
                                   fill(in, 2, 3);
                               std::vector<float> out(12, NANF);
                               for (int y = 0; y < 3; ++y)
                                   for (int x = 0; x < 2; ++x)
                                       out[(y + 1) * 3 + x] = in[y * 2 + x];
                               if (post != 0)
                                   fill(out, 3, 4);
                               want.insert(want.end(), out.begin(), out.end());
                           }
                           for (size_t i = 0; i < want.size(); ++i)
                               VF_CHECK(closeD(got[i], want[i], 1e-5, 1e-5), "cell " << i << ": " << got[i] << " instead of " << want[i] << "; " << str(got) << " instead of " << str(want));
                           ex.state(std::to_string(kind * 3 + post) + "." + std::to_string(mask));
                       });
}

double arc(double lon0, double lat0, double lon1, double lat1)
{
    const double r = M_PI / 180;
    const double x = std::cos(lat0 * r) * std::cos(lon0 * r) - std::cos(lat1 * r) * std::cos(lon1 * r), y = std::cos(lat0 * r) * std::sin(lon0 * r) - std::cos(lat1 * r) * std::sin(lon1 * r),
                 z = std::sin(lat0 * r) - std::sin(lat1 * r);
    return 2 * std::asin(std::min(1., std::sqrt(x * x + y * y + z * z) / 2));
}

void spaceDistance(vf::Explorer& ex)
{
    ex.space("distances of neighbouring grid cells: all sizes, regular, skewed, date line, pole, coinciding points");
    for (int kind = 0; kind < 6; ++kind)
        for (size_t nx = 1; nx <= 6; ++nx)
            for (size_t ny = 1; ny <= 6; ++ny)
                ex.run([=] { return "grid kind " + std::to_string(kind) + ", " + std::to_string(nx) + "x" + std::to_string(ny); },
                       [&] {
                           const size_t n = nx * ny;
                           VD lon, lat;
                           for (size_t j = 0; j < ny; ++j)
                               for (size_t i = 0; i < nx; ++i) {
                                   switch (kind) {
                                   case 0: lon.push_back(2. * i), lat.push_back(50 + 1.5 * j); break;
                                   case 1: lon.push_back(2. * i + 0.3 * j * j), lat.push_back(50 + 1.5 * j * j - 0.2 * i); break;
                                   case 2: lon.push_back(178 + 1. * i > 180 ? 178. + i - 360 : 178. + i), lat.push_back(-3 + 2. * j); break;
                                   case 3: lon.push_back(30. * i), lat.push_back(90 - 2. * j); break; // first row at the pole
                                   case 4: lon.push_back(11.3), lat.push_back(60.7); break;
                                   default: lon.push_back(10 + 1e-3 * i), lat.push_back(60 + 1e-3 * j); break;
                                   }
                               }
                           std::vector<float> dx(n, -1), dy(n, -1);
                           ex.step();
                           const int rc = mifi_griddistance(nx, ny, lon.data(), lat.data(), dx.data(), dy.data());
                           VF_CHECK((rc == MIFI_OK) == (n > 1), "return code " << rc);
                           if (n == 1)
                               return;
                           const double R = MIFI_EARTH_RADIUS_M;
                           for (size_t j = 0; j < ny; ++j)
                               for (size_t i = 0; i < nx; ++i) {
                                   double wx, wy;
                                   if (nx == 1 || ny == 1) {
                                       const size_t k = std::min(i + j, n - 2);
                                       wx = wy = R * arc(lon[k], lat[k], lon[k + 1], lat[k + 1]);
                                   } else {
                                       // the last column and row have the distances of their neighbour
                                       const size_t k = std::min(i, nx - 2) + nx * std::min(j, ny - 2);
                                       wx = R * arc(lon[k], lat[k], lon[k + 1], lat[k + 1]);
                                       wy = R * arc(lon[k], lat[k], lon[k + nx], lat[k + nx]);
                                   }
                                   const size_t p = i + nx * j;
                                   VF_CHECK(closeD(dx[p], wx, 1e-3, 1) && closeD(dy[p], wy, 1e-3, 1), "cell (" << i << "," << j << "): distances " << dx[p] << "," << dy[p] << " instead of " << wx << "," << wy);
                               }
                           ex.state("d" + std::to_string(kind) + std::to_string(nx * 10 + ny));
                       });
}
} // namespace

void vf::explore(Explorer& ex)
{
    spaceFill(ex);
    spaceProcess(ex);
    spaceDistance(ex);
}
