// C17: unit conversion
#include "fx.h"

#include "fimex/Units.h"
#include "fimex/UnitsConverter.h"
#include "fimex/UnitsException.h"

using namespace fx;

namespace {
struct U
{
    const char* name;
    int family;
    long double scale, offset; // SI = scale * x + offset
};
const long double PI = 3.14159265358979323846264338327950288L;
const vector<U> UNITS = {
    {"K", 1, 1, 0},
    {"kelvin", 1, 1, 0},
    {"degC", 1, 1, 273.15L},
    {"Celsius", 1, 1, 273.15L},
    {"degF", 1, 5.0L / 9, 459.67L * 5 / 9},
    {"mK", 1, 1e-3L, 0},
    {"Pa", 2, 1, 0},
    {"hPa", 2, 100, 0},
    {"mbar", 2, 100, 0},
    {"bar", 2, 1e5L, 0},
    {"N/m^2", 2, 1, 0},
    {"kg m-1 s-2", 2, 1, 0},
    {"m", 3, 1, 0},
    {"km", 3, 1000, 0},
    {"cm", 3, 0.01L, 0},
    {"mm", 3, 0.001L, 0},
    {"ft", 3, 0.3048L, 0},
    {"nautical_mile", 3, 1852, 0},
    {"m/s", 4, 1, 0},
    {"m s-1", 4, 1, 0},
    {"km/h", 4, 1 / 3.6L, 0},
    {"knot", 4, 1852.0L / 3600, 0},
    {"1", 5, 1, 0},
    {"%", 5, 0.01L, 0},
    {"kg/kg", 5, 1, 0},
    {"g/kg", 5, 1e-3L, 0},
    {"degree", 5, PI / 180, 0}, // plane angles are dimensionless
    {"radian", 5, 1, 0},
    {"s", 6, 1, 0},
    {"min", 6, 60, 0},
    {"hours", 6, 3600, 0},
    {"days", 6, 86400, 0},
    {"kg m-2", 7, 1, 0},
    {"g m-2", 7, 1e-3L, 0},
    {"m2 s-2", 8, 1, 0},
    {"J/kg", 8, 1, 0},
    {"W m-2", 9, 1, 0},
    {"kW m-2", 9, 1000, 0},
    {"J m-2 s-1", 9, 1, 0},
    {"0.1 hPa", 2, 10, 0},
    {"1e-3 m", 3, 1e-3L, 0},
};
const VD X = {0, 1, -1, 10, 273.15, -40, 100, 1013.25, 1e5, -1e-4, 123456.789, 1e10};

long double ref(const U& a, const U& b, long double x)
{
    return (a.scale * x + a.offset - b.offset) / b.scale;
}
void spacePairs(vf::Explorer& ex)
{
    ex.space("all ordered pairs of units, values, and chains through a third unit");
    for (const U& a : UNITS)
        for (const U& b : UNITS)
            ex.run([&] { return string("convert ") + a.name + " -> " + b.name; },
                   [&] {
                       Units units;
                       const bool conv = a.family == b.family;
                       VF_CHECK(units.areConvertible(a.name, b.name) == conv, "areConvertible");
                       ex.step();
                       double sl = 0, of = 0;
                       if (!conv) {
                           bool unitEx = false;
                           try {
                               units.getConverter(a.name, b.name);
                           } catch (UnitException&) {
                               unitEx = true;
                           }
                           VF_CHECK(unitEx, "converter between incompatible units");
                           VF_CHECK(throws([&] { units.convert(a.name, b.name, sl, of); }), "scale and offset between incompatible units");
                           // and the failure leaves nothing behind
                           VF_CHECK(units.areConvertible("m", "km"), "after a failure");
                           VF_CHECK(units.getConverter("km", "m")->convert(2.) == 2000, "after a failure");
                           ex.state(string("no") + a.name + b.name);
                           return;
                       }
                       UnitsConverter_p c = units.getConverter(a.name, b.name), back = units.getConverter(b.name, a.name);
                       VF_CHECK(c->isLinear() || b.scale < 1e-2L * a.scale, "linear conversion not recognised as such");
                       units.convert(a.name, b.name, sl, of);
                       double sl2, of2;
                       c->getScaleOffset(sl2, of2);
                       VF_CHECK(sl == sl2 && of == of2, "two answers for scale and offset");
                       for (double x : X) {
                           ex.step(3);
                           const long double want = ref(a, b, x);
                           const long double mag = (fabsl(a.scale * x) + fabsl(a.offset) + fabsl(b.offset)) / b.scale;
                           const double got = c->convert(x);
                           VF_CHECK(fabsl(got - want) <= 1e-12L * mag + 1e-12L, "convert(" << x << ") = " << got << " instead of " << double(want));
                           VF_CHECK(fabsl(sl * x + of - want) <= 1e-10L * mag + 1e-10L, "scale/offset at " << x << ": " << sl * x + of << " instead of " << double(want));
                           const float gf = c->convert(float(x));
                           VF_CHECK(fabsl(gf - want) <= 1e-6L * mag + 1e-6L, "float convert(" << x << ") = " << gf << " instead of " << double(want));
                           VF_CHECK((*c)(x) == got, "functor");
                           VF_CHECK(fabsl(back->convert(got) - x) <= 1e-11L * (mag * b.scale / a.scale + fabsl(x)) + 1e-11L, "not inverted by the opposite conversion: " << back->convert(got) << " for " << x);
                           for (const U& m : UNITS)
                               if (m.family == a.family) {
                                   const long double mm = (fabsl(a.scale * x) + fabsl(a.offset) + fabsl(b.offset) + fabsl(m.offset)) / b.scale;
                                   const double via = units.getConverter(m.name, b.name)->convert(units.getConverter(a.name, m.name)->convert(x));
                                   ex.step();
                                   VF_CHECK(fabsl(via - want) <= 1e-11L * mm + 1e-11L, "through " << m.name << " converts " << x << " to " << via << " instead of " << double(want));
                               }
                       }
                       ex.state(string("yes") + a.name + b.name);
                   });
    ex.space("non-linear conversions");
    struct N
    {
        const char *a, *b;
        double (*f)(double);
    };
    static const N nl[] = {{"W", "lg(re mW)", [](double x) { return std::log10(x * 1e3); }},
                           {"lg(re mW)", "W", [](double x) { return std::pow(10., x) * 1e-3; }},
                           {"mm6 m-3", "lg(re mm6 m-3)", [](double x) { return std::log10(x); }},
                           {"lg(re mm6 m-3)", "mm6 m-3", [](double x) { return std::pow(10., x); }},
                           {"Pa", "ln(re Pa)", [](double x) { return std::log(x); }},
                           {"ln(re Pa)", "Pa", [](double x) { return std::exp(x); }}};
    for (const N& n : nl)
        ex.run([&] { return string("nonlinear ") + n.a + " -> " + n.b; },
               [&] {
                   Units units;
                   UnitsConverter_p c = units.getConverter(n.a, n.b);
                   VF_CHECK(!c->isLinear(), "said to be linear");
                   double s, o;
                   VF_CHECK(throws([&] { c->getScaleOffset(s, o); }), "scale and offset of a non-linear conversion");
                   VF_CHECK(throws([&] { units.convert(n.a, n.b, s, o); }), "scale and offset of a non-linear conversion");
                   for (double x : {0.001, 0.5, 1., 2., 5., 10.}) {
                       ex.step();
                       VF_CHECK(closeD(c->convert(x), n.f(x), 1e-9), "value " << x << " gives " << c->convert(x) << " instead of " << n.f(x));
                       ex.state(string(n.a) + n.b + std::to_string(x));
                       // and through a reader, with missing values kept
                       auto r = std::make_shared<TestReader>();
                       r->dim("x", 2);
                       r->var("v", CDM_DOUBLE, {"x"}, {x, -999});
                       r->att("v", "units", n.a);
                       r->att("v", "_FillValue", CDM_DOUBLE, {-999});
                       expectClose(r->getScaledDataInUnit("v", n.b), {n.f(x), NAN}, "read in unit", 1e-9);
                   }
               });
}

void spaceSeq(vf::Explorer& ex)
{
    ex.space("sequences of unit operations");
    const int L = ex.bound(3, 5);
    static const char* names[] = {"convert", "unknown unit", "inconvertible", "isTime", "unload", "keep converter", "use converter", "syntax error"};
    for (int len = 1; len <= L; ++len)
        product(len, 0, 7, [&](const vector<int>& seq) {
            ex.run(
                [&] {
                    string s = "units";
                    for (int o : seq)
                        s += string(" / ") + names[o];
                    return s;
                },
                [&] {
                    UnitsConverter_p kept;
                    std::unique_ptr<Units> u(new Units());
                    for (int o : seq) {
                        ex.step();
                        switch (o) {
                        case 0: VF_CHECK(u->getConverter("km", "m")->convert(3.) == 3000., "km to m"); break;
                        case 1: VF_CHECK(throws([&] { u->getConverter("noSuchUnit", "m"); }), "unknown unit accepted"); break;
                        case 2: VF_CHECK(throws([&] { u->getConverter("K", "m"); }), "inconvertible accepted"); break;
                        case 3:
                            VF_CHECK(u->isTime("days since 2000-01-01 00:00:00") && !u->isTime("days") && !u->isTime("m") && !u->isTime("gibberish"), "isTime");
                            break;
                        case 4:
                            Units::unload(true);
                            u.reset(new Units());
                            kept.reset(); // belongs to the unloaded system
                            break;
                        case 5: kept = u->getConverter("degC", "K"); break;
                        case 6:
                            if (kept)
                                VF_CHECK(closeD(kept->convert(1.), 274.15, 1e-12), "kept converter");
                            break;
                        case 7: VF_CHECK(throws([&] { u->getConverter("m (", "m"); }), "syntax error accepted"); break;
                        }
                        string s;
                        for (int q : seq)
                            s += char('0' + q);
                        ex.state(s);
                    }
                });
        });
}
} // namespace

void vf::explore(Explorer& ex)
{
    spacePairs(ex);
    spaceSeq(ex);
}
