// C15: times and lists written as text and in units
#include "fx.h"
#include "fimex/FimexTime.h"
#include "fimex/SpatialAxisSpec.h"
#include "fimex/String2Type.h"
#include "fimex/StringUtils.h"
#include "fimex/TimeSpec.h"
#include "fimex/TimeUnit.h"
#include "fimex/TimeUtils.h"
#include "fimex/TokenizeDotted.h"
#include "fimex/Type2String.h"

#include <limits>
#include <sstream>

using namespace fx;

namespace {
vf::Explorer* EX = nullptr;
typedef long long ll;

/// days since 1970-01-01 in the Gregorian calendar
ll daysFrom(ll y, int m, int d)
{
    y -= m <= 2;
    const ll era = (y >= 0 ? y : y - 399) / 400;
    const unsigned yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}

ll msOf(const FimexTime& t)
{
    return (((daysFrom(t.getYear(), t.getMonth(), t.getMDay()) * 24 + t.getHour()) * 60 + t.getMinute()) * 60 + t.getSecond()) * 1000 + t.getMSecond();
}

FimexTime fromMs(ll ms)
{
    ll days = ms / 86400000, r = ms % 86400000;
    if (r < 0) {
        r += 86400000;
        --days;
    }
    const ll z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    const unsigned doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    const unsigned d = doy - (153 * mp + 2) / 5 + 1, m = mp < 10 ? mp + 3 : mp - 9;
    return FimexTime(yoe + era * 400 + (m <= 2), m, d, r / 3600000, r / 60000 % 60, r / 1000 % 60, r % 1000);
}

string show(const FimexTime& t)
{
    std::ostringstream o;
    o << t.getYear() << '-' << int(t.getMonth()) << '-' << int(t.getMDay()) << ' ' << int(t.getHour()) << ':' << int(t.getMinute()) << ':' << int(t.getSecond()) << '.' << t.getMSecond();
    return o.str();
}

struct U
{
    const char* text;
    ll originMs;
    double lenMs;
};
const ll H = 3600000;
vector<U> units()
{
    return {{"seconds since 1970-01-01 00:00:00", 0, 1000},
            {"seconds since 1970-01-01 00:00:00 +00:00", 0, 1000},
            {"seconds since 1970-01-01", 0, 1000},
            {"minutes since 2000-01-01 00:00:00", daysFrom(2000, 1, 1) * 24 * H, 60000},
            {"hours since 2000-01-01 00:00:00", daysFrom(2000, 1, 1) * 24 * H, H},
            {"hours since 2007-05-16 06:30:15", daysFrom(2007, 5, 16) * 24 * H + 6 * H + 30 * 60000 + 15000, H},
            {"hours since 2000-01-01 00:00:00 +02:00", daysFrom(2000, 1, 1) * 24 * H - 2 * H, H},
            {"days since 1900-01-01 00:00:00", daysFrom(1900, 1, 1) * 24 * H, 24. * H},
            {"days since 2030-12-31T12:00:00Z", daysFrom(2030, 12, 31) * 24 * H + 12 * H, 24. * H},
            {"6 hours since 2000-01-01 00:00:00", daysFrom(2000, 1, 1) * 24 * H, 6. * H}};
}

void there(const TimeUnit& tu, const U& u, ll ms)
{
    const FimexTime ft = fromMs(ms);
    const double v = tu.fimexTime2unitTime(ft);
    const double want = double(ms - u.originMs) / u.lenMs;
    VF_CHECK(std::fabs(v - want) * u.lenMs <= 0.01 + std::fabs(want) * u.lenMs * 4e-16, show(ft) << " is " << fx::str(VD{v}) << ' ' << u.text << ", should be " << fx::str(VD{want}));
    const FimexTime back = tu.unitTime2fimexTime(want);
    VF_CHECK(back == ft, fx::str(VD{want}) << ' ' << u.text << " is " << show(back) << ", should be " << show(ft));
    const FimexTime again = tu.unitTime2fimexTime(v);
    VF_CHECK(again == ft, show(ft) << " to " << u.text << " and back is " << show(again));
    const double es = tu.unitTime2epochSeconds(want);
    VF_CHECK(std::fabs(es * 1000 - ms) <= 0.01, fx::str(VD{want}) << ' ' << u.text << " in epoch seconds " << fx::str(VD{es}));
    const double ev = tu.epochSeconds2unitTime(ms / 1000.);
    VF_CHECK(std::fabs(ev - want) * u.lenMs <= 0.01 + std::fabs(want) * u.lenMs * 4e-16, "epoch seconds " << ms / 1000. << " to " << u.text << " is " << fx::str(VD{ev}));
    EX->step(4);
}

/// any value gives the closest millisecond
void fractional(const TimeUnit& tu, const U& u, double v)
{
    const FimexTime t = tu.unitTime2fimexTime(v);
    VF_CHECK(t.getMonth() >= 1 && t.getMonth() <= 12 && t.getMDay() >= 1 && t.getMDay() <= 31 && t.getHour() >= 0 && t.getHour() < 24 && t.getMinute() >= 0 && t.getMinute() < 60 && t.getSecond() >= 0 && t.getSecond() < 60 && t.getMSecond() < 1000,
             fx::str(VD{v}) << ' ' << u.text << " is no time: " << show(t));
    const double exact = v * u.lenMs + u.originMs;
    VF_CHECK(std::fabs(msOf(t) - exact) <= 0.51 + std::fabs(exact) * 4e-16, fx::str(VD{v}) << ' ' << u.text << " is " << show(t) << ", off by " << msOf(t) - exact << " ms");
    EX->step(1);
}

void calendarDay(ll day)
{
    const ll ms = day * 24 * H;
    for (ll s : {0LL, 1LL, 43200LL, 86399LL}) {
        const FimexTime ft = fromMs(ms + s * 1000);
        const time_point tp = asTimePoint(ft);
        VF_CHECK(timePoint2epochTime(tp) == ms / 1000 + s && fimexTime2epochTime(ft) == ms / 1000 + s, show(ft) << " epoch " << timePoint2epochTime(tp));
        VF_CHECK(fromTimePoint(tp) == ft, show(ft) << " as time point and back: " << show(fromTimePoint(tp)));
        VF_CHECK(make_time_from_timet(ms / 1000 + s) == tp, "from time_t");
        VF_CHECK(make_time_point(ft.getYear(), ft.getMonth(), ft.getMDay(), ft.getHour(), ft.getMinute(), ft.getSecond()) == tp, "make_time_point");
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", ft.getYear(), ft.getMonth(), ft.getMDay(), ft.getHour(), ft.getMinute(), ft.getSecond());
        VF_CHECK(make_time_string_extended(tp) == b && make_time_string_extended(ft) == b, "extended time string " << make_time_string_extended(ft));
        VF_CHECK(make_time_from_string(b) == tp && string2FimexTime(b) == ft, "time from string " << b);
        snprintf(b, sizeof b, "%04d%02d%02dT%02d%02d%02d", ft.getYear(), ft.getMonth(), ft.getMDay(), ft.getHour(), ft.getMinute(), ft.getSecond());
        VF_CHECK(make_time_string(tp) == b && make_time_string(ft) == b, "time string " << make_time_string(ft));
        EX->step(6);
    }
}

void ordering(const vector<ll>& times)
{
    for (ll a : times)
        for (ll b : times) {
            const FimexTime A = fromMs(a), B = fromMs(b);
            VF_CHECK((A == B) == (a == b) && (A != B) == (a != b) && (A < B) == (a < b) && (A > B) == (a > b) && (A <= B) == (a <= b) && (A >= B) == (a >= b), "comparison of " << show(A) << " and " << show(B));
            EX->step(1);
        }
    const FimexTime lo(FimexTime::min_date_time), hi(FimexTime::max_date_time);
    VF_CHECK(lo.invalid() && hi.invalid(), "special times are valid");
    for (ll a : times) {
        const FimexTime A = fromMs(a);
        VF_CHECK(!A.invalid(), show(A) << " invalid");
        VF_CHECK(lo < A && A < hi, "special times out of order");
        VF_CHECK(FimexTime::fromEncoded(A.toEncoded()) == A, show(A) << " encoded and decoded: " << show(FimexTime::fromEncoded(A.toEncoded())));
    }
}

void iso(int form, const FimexTime& t, int frac)
{
    char b[80];
    FimexTime want = t;
    string f;
    switch (frac) {
    case 1: f = ".5"; want.setMSecond(500); break;
    case 2: f = ".25"; want.setMSecond(250); break;
    case 3: f = ".007"; want.setMSecond(7); break;
    case 4: f = ".9999"; want.setMSecond(999); break;
    default: want.setMSecond(0);
    }
    switch (form) {
    case 0: snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", t.getYear(), t.getMonth(), t.getMDay(), t.getHour(), t.getMinute(), t.getSecond()); break;
    case 1: snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", t.getYear(), t.getMonth(), t.getMDay(), t.getHour(), t.getMinute(), t.getSecond()); break;
    case 2:
        snprintf(b, sizeof b, " %d-%d-%dT%d:%d", t.getYear(), t.getMonth(), t.getMDay(), t.getHour(), t.getMinute());
        f.clear();
        want.setSecond(0);
        want.setMSecond(0);
        break;
    case 3:
        snprintf(b, sizeof b, "%d-%02d-%02d ", t.getYear(), t.getMonth(), t.getMDay());
        f.clear();
        want = FimexTime(t.getYear(), t.getMonth(), t.getMDay());
        break;
    }
    FimexTime got;
    VF_CHECK(got.parseISO8601(b + f), "'" << b << f << "' not accepted");
    const ll d = msOf(got) - msOf(want);
    VF_CHECK(got.getMSecond() < 1000 && got.getSecond() < 60 && d >= 0 && d <= (frac == 4 ? 1 : 0), "'" << b << f << "' is " << show(got) << ", should be " << show(want));
    std::ostringstream o;
    o << got;
    FimexTime again;
    VF_CHECK(again.parseISO8601(o.str()) && again == got, "printed as '" << o.str() << "', read as " << show(again));
}

/// strings that are no times: false or an exception, but not a time
void notIso(const string& s)
{
    FimexTime t;
    bool ok = false;
    try {
        ok = t.parseISO8601(s);
    } catch (std::exception&) {
    }
    VF_CHECK(!ok, "'" << s << "' accepted as " << show(t));
    VF_CHECK(throws([&] { string2FimexTime(s); }), "'" << s << "' accepted");
}

// ---------------------------------------------------------------------------------------------- lists

/// the meaning of a list; returns false if it is refused
bool listOf(const vector<string>& toks, VD& v)
{
    for (size_t i = 0; i < toks.size(); ++i) {
        if (toks[i] == "...") {
            if (v.size() < 2)
                return false;
            const double last = v.back(), d = last - v[v.size() - 2];
            if (i + 1 == toks.size())
                return true;
            if (toks[i + 1] == "...")
                return false;
            const double end = std::stod(toks[++i]);
            if (d == 0 && end != last)
                return false; // never arrives
            for (int k = 1; d != 0 && (d > 0 ? last + k * d < end - 1e-6 * d : last + k * d > end - 1e-6 * d); ++k)
                v.push_back(last + k * d);
            v.push_back(end);
        } else {
            v.push_back(std::stod(toks[i]));
        }
    }
    return true;
}

template <typename T>
void dotted(const vector<string>& toks, double scale)
{
    string text;
    vector<string> st;
    for (const string& t : toks) {
        st.push_back(t == "..." ? t : type2string(std::stod(t) * scale));
        text += (text.empty() ? "" : ",") + st.back();
    }
    VD want;
    const bool ok = listOf(st, want);
    vector<T> got;
    string msg;
    const bool refused = throws([&] { got = tokenizeDotted<T>(text); }, &msg);
    VF_CHECK(refused == !ok, "list '" << text << "' " << (refused ? "refused: " + msg : "accepted as " + fx::str(VD(got.begin(), got.end()))));
    if (!ok)
        return;
    VF_CHECK(got.size() == want.size(), "list '" << text << "' has " << got.size() << " elements, should be " << want.size());
    for (size_t i = 0; i < got.size(); ++i)
        VF_CHECK(std::fabs(got[i] - want[i]) <= 1e-5 * scale, "list '" << text << "' element " << i << " is " << got[i] << ", should be " << want[i]);
    EX->step(got.size());
}

/// tokenize, split_any, trim, join
void strings(const string& s)
{
    vector<string> all(1), nonEmpty;
    for (char c : s)
        if (c == ',' || c == ';')
            all.push_back(string());
        else
            all.back() += c;
    for (const string& t : all)
        if (!t.empty())
            nonEmpty.push_back(t);
    VF_CHECK(tokenize(s, ",;") == nonEmpty, "tokens of '" << s << "'");
    VF_CHECK(split_any(s, ",;") == all, "parts of '" << s << "'");
    size_t a = 0, e = s.size();
    while (a < e && s[a] == ' ')
        ++a;
    while (e > a && s[e - 1] == ' ')
        --e;
    VF_CHECK(trim(s) == s.substr(a, e - a), "trim of '" << s << "' is '" << trim(s) << "'");
    if (s.find(';') == string::npos)
        VF_CHECK(join(all.begin(), all.end(), ",") == s, "join");
    VF_CHECK(starts_with(s, s) && ends_with(s, s) && starts_with(s + "x", s) && ends_with("x" + s, s) && !starts_with(s, s + "x") && !ends_with(s, "x" + s), "starts/ends with");
    EX->step(5);
}

template <typename T>
void number(T v)
{
    const string s = type2string(v);
    const T got = string2type<T>(s);
    if (std::is_integral<T>::value)
        VF_CHECK(got == v, +v << " written '" << s << "', read " << +got);
    else
        VF_CHECK(std::fabs(double(got) - double(v)) <= std::fabs(double(v)) * (sizeof(T) == 4 ? 6e-7 : 6e-16), v << " written '" << s << "', read " << got);
    VF_CHECK(throws([&] { string2type<T>(s + "x"); }) && throws([&] { string2type<T>("x" + s); }) && throws([&] { string2type<T>(""); }), "garbage around a number accepted");
    EX->step(1);
}

// ---------------------------------------------------------------------------------------------- specifications

void absoluteTimes(ll startMs, ll stepMs, int n, int form, const U& unit)
{
    auto text = [&](ll ms) {
        const FimexTime t = fromMs(ms);
        char b[64];
        snprintf(b, sizeof b, form & 1 ? "%04d-%02d-%02dT%02d:%02d:%02d" : "%04d-%02d-%02d %02d:%02d:%02d", t.getYear(), t.getMonth(), t.getMDay(), t.getHour(), t.getMinute(), t.getSecond());
        return string(b);
    };
    vector<ll> want;
    string spec;
    if (form & 2 && n >= 3) {
        for (int i = 0; i < n; ++i)
            want.push_back(startMs + i * stepMs);
        spec = text(want[0]) + "," + text(want[1]) + ",...," + text(want.back());
        if (form & 4) { // and another one, not on the way
            want.push_back(startMs + n * stepMs + stepMs / 3000 * 1000);
            spec += "," + text(want.back());
        }
    } else {
        for (int i = 0; i < n; ++i) {
            want.push_back(startMs + (form & 4 ? (i * 7) % 5 : i) * stepMs);
            spec += (i ? "," : "") + text(want.back());
        }
    }
    spec += string(";unit=") + unit.text;
    const TimeSpec ts(spec, fromMs(0), fromMs(1));
    VF_CHECK(ts.getUnitString() == unit.text, "unit " << ts.getUnitString());
    VF_CHECK(ts.getTimeSteps().size() == want.size(), "'" << spec << "' has " << ts.getTimeSteps().size() << " times, should be " << want.size());
    for (size_t i = 0; i < want.size(); ++i)
        VF_CHECK(ts.getTimeSteps()[i] == fromMs(want[i]), "'" << spec << "' time " << i << " is " << show(ts.getTimeSteps()[i]) << ", should be " << show(fromMs(want[i])));
    EX->step(want.size());
}

struct Rel
{
    const char* text;
    std::function<VD(double, double, double)> values; ///< by position of 0, of x, and the step
};

/// lists with steps d: tokens are multiples of d
vector<vector<string>> relLists()
{
    return {{"0", "1"}, {"0", "1", "...", "x"}, {"0", "1", "...", "x", "x+1"}, {"-1", "0", "...", "x"}, {"-1", "0", "1", "...", "x-1"}, {"0", "1", "...", "x-2", "x"}, {"1", "2", "...", "x+1.5"}, {"0", "1", "x"}, {"0", "1", "...", "x + 12"}, {"0", "1", "...", "x+12.5"}, {"0", "1", "...", "x - 0.5"}, {"0", "2", "...", "x"}};
}

string relText(const vector<string>& l, double d, VD& want, double zero, double last)
{
    vector<string> abs;
    string text;
    for (const string& t : l) {
        string w = t, a = t;
        if (t != "...") {
            if (t[0] == 'x') {
                double off = 0;
                string sep;
                const size_t p = t.find_first_of("+-");
                if (p != string::npos) {
                    off = std::stod(trim(t.substr(p + 1)));
                    if (t[p] == '-')
                        off = -off;
                    w = t.substr(0, p + 1) + (t[p + 1] == ' ' ? " " : "") + type2string(std::fabs(off) * d);
                }
                a = type2string(last + off * d);
            } else {
                w = type2string(std::stod(t) * d);
                a = type2string(zero + std::stod(t) * d);
            }
        }
        text += (text.empty() ? "" : ",") + w;
        abs.push_back(a);
    }
    VF_CHECK(listOf(abs, want), "harness: bad list");
    return text;
}

void relativeTimes(const U& u, const vector<string>& list, double d, double startU, double endU)
{
    VD want;
    const double step = d * (std::stod(list[1]) - std::stod(list[0]));
    const double zero = std::floor(startU / step) * step, last = std::floor(endU / step) * step;
    const string spec = relText(list, d, want, zero, last) + ";relativeUnit=" + u.text + ";unit=hours since 2000-01-01 00:00:00";
    auto at = [&](double v) { return fromMs(ll(std::llround(v * u.lenMs)) + u.originMs); };
    const TimeSpec ts(spec, at(startU), at(endU));
    VF_CHECK(ts.getTimeSteps().size() == want.size(), "'" << spec << "' from " << startU << " to " << endU << " has " << ts.getTimeSteps().size() << " times, should be " << fx::str(want));
    for (size_t i = 0; i < want.size(); ++i)
        VF_CHECK(ts.getTimeSteps()[i] == at(want[i]), "'" << spec << "' from " << startU << " to " << endU << " time " << i << " is " << show(ts.getTimeSteps()[i]) << ", should be " << show(at(want[i])));
    EX->step(want.size());
}

void relativeAxis(const vector<string>& list, double d, double start, double end, bool late)
{
    VD want;
    const double step = d * (std::stod(list[1]) - std::stod(list[0]));
    const double zero = std::floor(start / step) * step, last = std::floor(end / step) * step;
    const string spec = relText(list, d, want, zero, last) + ";relativeStart=0";
    std::shared_ptr<SpatialAxisSpec> s;
    if (late) {
        s = std::make_shared<SpatialAxisSpec>(spec);
        VF_CHECK(s->requireStartEnd(), "start and end not required");
        VF_CHECK(throws([&] { s->getAxisSteps(); }), "relative axis without start and end");
        s->setStartEnd(start, end);
    } else {
        s = std::make_shared<SpatialAxisSpec>(spec, start, end);
    }
    VF_CHECK(!s->requireStartEnd(), "start and end required");
    for (int round = 0; round < 2; ++round) {
        const VD got = s->getAxisSteps();
        VF_CHECK(got.size() == want.size(), "'" << spec << "' from " << start << " to " << end << " is " << fx::str(got) << ", should be " << fx::str(want));
        for (size_t i = 0; i < got.size(); ++i)
            VF_CHECK(std::fabs(got[i] - want[i]) <= 1e-6 * d, "'" << spec << "' from " << start << " to " << end << " is " << fx::str(got) << ", should be " << fx::str(want));
        EX->step(got.size());
    }
}

} // namespace

void vf::explore(vf::Explorer& ex)
{
    EX = &ex;
    const bool T = ex.thorough();
    const vector<U> us = units();
    const ll D = 24 * H;

    ex.space("every day x time unit");
    for (const U& u : us)
        for (int y = T ? 1800 : 1895; y < (T ? 2400 : 2105); y += 5)
            ex.run([=] { return string(u.text) + " years from " + std::to_string(y); }, [=] {
                const TimeUnit tu(u.text);
                for (ll d = daysFrom(y, 1, 1); d < daysFrom(y + 5, 1, 1); ++d) {
                    there(tu, u, d * D);
                    there(tu, u, d * D + 12345678 + d % 1000);
                    there(tu, u, d * D + D - 1);
                }
            });
    ex.space("every second of a day x time unit");
    for (const U& u : us)
        for (int h = 0; h < 24; ++h)
            for (ll day : {daysFrom(2016, 2, 29), daysFrom(1969, 12, 31)})
                ex.run([=] { return string(u.text) + " day " + std::to_string(day) + " hour " + std::to_string(h); }, [=] {
                    const TimeUnit tu(u.text);
                    for (int s = 0; s < 3600; s += T ? 1 : 7)
                        there(tu, u, day * D + h * H + s * 1000);
                });
    ex.space("every millisecond of a minute x time unit");
    for (const U& u : us)
        for (ll m : {daysFrom(2020, 12, 31) * D + D - 60000, daysFrom(1950, 3, 1) * D})
            for (int part = 0; part < 6; ++part)
                ex.run([=] { return string(u.text) + " minute at " + std::to_string(m) + " part " + std::to_string(part); }, [=] {
                    const TimeUnit tu(u.text);
                    for (int s = part * 10000; s < (part + 1) * 10000; s += T ? 1 : 3)
                        there(tu, u, m + s);
                });
    ex.space("fractional values x time unit");
    for (const U& u : us)
        for (int k = -40; k <= 40; ++k)
            ex.run([=] { return string(u.text) + " around " + std::to_string(k * 1000); }, [=] {
                const TimeUnit tu(u.text);
                const double range = 3e12 / u.lenMs; // about 95 years
                for (int j = 0; j < (T ? 1000 : 100); ++j) {
                    fractional(tu, u, range * k / 40 + j / 7.);
                    fractional(tu, u, std::floor(range * k / 40) + j / 3.);
                    fractional(tu, u, std::floor(range * k / 40) + j * 0.1 - 1e-9);
                }
            });

    ex.space("every day as time point and text");
    for (int y = T ? 1680 : 1890; y < (T ? 2260 : 2110); y += 10)
        ex.run([=] { return "years from " + std::to_string(y); }, [=] {
            for (ll d = daysFrom(y, 1, 1); d < daysFrom(y + 10, 1, 1); ++d)
                calendarDay(d);
        });

    ex.space("order of times");
    ex.run([=] { return "all pairs"; }, [=] {
        vector<ll> t;
        for (ll base : {daysFrom(1999, 12, 31) * D, daysFrom(2000, 2, 29) * D, daysFrom(2000, 3, 1) * D, daysFrom(100, 1, 1) * D, daysFrom(4000, 12, 31) * D})
            for (ll off : {0LL, 1LL, 255LL, 256LL, 999LL, 1000LL, 59999LL, 60000LL, 3599999LL, 3600000LL, 86399999LL, -1LL})
                t.push_back(base + off);
        ordering(t);
    });

    ex.space("ISO times");
    for (int form = 0; form < 4; ++form)
        for (int frac = 0; frac < 5; ++frac)
            for (ll t : {0LL, 86399000LL, daysFrom(1999, 12, 31) * D + 3661000, daysFrom(2024, 2, 29) * D + 43200000, daysFrom(999, 9, 9) * D + 9 * H})
                ex.run([=] { return "form " + std::to_string(form) + " fraction " + std::to_string(frac) + " at " + std::to_string(t); }, [=] { iso(form, fromMs(t), frac); });
    for (const char* s : {"", " ", "T", "2019", "2019-01", "12:00:00", "2019-01-02 03", "2019-01-02T03", "2019-01-02 03:04:05 06", "2019-01-02T03:04:05T06", "2019-01-02-03 04:05:06", "x-01-02", "2019-x-02", "2019-01-02 x:00:00", "2019-01-02 03:04:x", "2019-01-02 03:04:05.x", "2019-01-02 1:2:3:4", "hello", "hello world", "20190102T030405"})
        ex.run([=] { return string("no time: '") + s + "'"; }, [=] { notIso(s); });

    ex.space("lists with ...");
    const vector<string> tk = {"0", "1", "3", "-2", "..."};
    for (int len = 1; len <= (T ? 6 : 5); ++len) {
        int n = 1;
        for (int i = 0; i < len; ++i)
            n *= tk.size();
        for (int c = 0; c < n; ++c) {
            vector<string> l;
            string what;
            for (int i = 0, q = c; i < len; ++i, q /= int(tk.size())) {
                l.push_back(tk[q % tk.size()]);
                what += l.back() + " ";
            }
            ex.run([=] { return what; }, [=] {
                dotted<int>(l, 1);
                dotted<double>(l, 1);
                dotted<double>(l, 0.1);
                dotted<float>(l, 100);
            });
        }
    }

    ex.space("strings");
    const string abc = "a,; ";
    for (int len = 0; len <= (T ? 8 : 6); ++len) {
        int n = 1;
        for (int i = 0; i < len; ++i)
            n *= 4;
        const int chunk = 1024;
        for (int c0 = 0; c0 < n; c0 += chunk)
            ex.run([=] { return "length " + std::to_string(len) + " from " + std::to_string(c0); }, [=] {
                for (int c = c0; c < std::min(n, c0 + chunk); ++c) {
                    string s;
                    for (int i = 0, q = c; i < len; ++i, q /= 4)
                        s += abc[q % 4];
                    strings(s);
                }
            });
    }

    ex.space("numbers as text");
    ex.run([=] { return "char"; }, [=] {
        for (int i = -128; i < 128; ++i)
            number<char>(i);
        for (int i = 0; i < 256; ++i)
            number<unsigned char>(i);
    });
    ex.run([=] { return "short"; }, [=] {
        for (int i = -32768; i < 32768; ++i)
            number<short>(i);
    });
    ex.run([=] { return "other"; }, [=] {
        for (int b = 0; b < 63; ++b)
            for (int o = -1; o <= 1; ++o) {
                const ll v = (1LL << b) + o;
                number<long long>(v);
                number<long long>(-v);
                number<unsigned long long>(2 * (unsigned long long)(v));
                if (b < 31) {
                    number<int>(v);
                    number<int>(-v);
                }
                number<double>(v * 1.1);
                number<double>(-1 / double(v == 0 ? 3 : v));
                number<float>(v * 1.1f);
                number<float>(-1 / float(v == 0 ? 3 : v));
            }
    });

    ex.space("time specifications");
    for (const U& u : us)
        for (ll start : {daysFrom(2000, 1, 1) * D, daysFrom(1999, 12, 31) * D + 21 * H + 30 * 60000, daysFrom(1955, 2, 28) * D})
            for (ll step : {3 * H, 6 * H, D, ll(600000), ll(1000), -3 * H})
                for (int n = 1; n <= 7; n += 3)
                    for (int form = 0; form < 8; ++form)
                        ex.run([=] { return string(u.text) + " from " + show(fromMs(start)) + " step " + std::to_string(step) + " n " + std::to_string(n) + " form " + std::to_string(form); },
                               [=] { absoluteTimes(start, step, n, form, u); });
    const vector<vector<string>> rl = relLists();
    for (const U& u : {us[4], us[5], us[7], us[0], us[3]})
        for (size_t l = 0; l < rl.size(); ++l)
            for (double d : {1., 3., 0.5, 6.})
                for (double start : {0., 12., 13., 13.5, -12., -13., 61368., 4e8})
                    for (double len : {0., 5., 24., 25.5}) {
                        if (std::fabs(start * u.lenMs) > 3e12)
                            continue;
                        ex.run([=] { return string(u.text) + " list " + std::to_string(l) + " step " + std::to_string(d) + " from " + std::to_string(start) + " length " + std::to_string(len); }, [=] { relativeTimes(u, rl[l], d, start, start + len); });
                    }
    for (const char* s : {"0,3,...,x;relativeUnit=m", "0;relativeUnit=hours since 2000-01-01", "2000-01-01 00:00:00;unit=m", "2000-01-01 00:00:00;what=1", "2000-01-01 00:00:00;2000-01-01 00:00:00", "2000-01-01 00:00:00;unit=a=b", "0,1,...,y;relativeUnit=hours since 2000-01-01 00:00:00", "0,1,...,xyz;relativeUnit=hours since 2000-01-01 00:00:00", "0,1,x5;relativeUnit=hours since 2000-01-01 00:00:00", "yesterday"})
        ex.run([=] { return string("refused: ") + s; }, [=] { VF_CHECK(throws([&] { TimeSpec ts(s, fromMs(0), fromMs(D)); }), "'" << s << "' accepted"); });

    ex.space("axis specifications");
    for (size_t l = 0; l < rl.size(); ++l)
        for (double d : {1., 50000., 0.25})
            for (double start : {0., 0.6, 1., 2.5, -0.6, -1., -2., -2.5, -20.})
                for (double len : {0., 0.5, 4., 5.5})
                    for (int late = 0; late < 2; ++late)
                        ex.run([=] { return "list " + std::to_string(l) + " step " + std::to_string(d) + " from " + std::to_string(start * d) + " length " + std::to_string(len * d) + (late ? " late" : ""); },
                               [=] { relativeAxis(rl[l], d, start * d, (start + len) * d, late); });
    for (const char* s : {"0,1;unit=km", "0,1;what=1", "0,1;2,3", "0,1;a=b=c", "0,a", "0;relativeStart=0", "x,1", "0,1,...,xyz;relativeStart=0"})
        ex.run([=] { return string("refused: ") + s; }, [=] { VF_CHECK(throws([&] { SpatialAxisSpec(s, 0, 5).getAxisSteps(); }), "'" << s << "' accepted"); });
    for (size_t i = 0; i < tk.size(); ++i)
        for (size_t j = 0; j < tk.size(); ++j)
            ex.run([=] { return "absolute axis " + std::to_string(i) + " " + std::to_string(j); }, [=] {
                const vector<string> l = {"-5.5", tk[i], tk[j], "9"};
                VD want;
                const bool ok = listOf(l, want);
                VD got;
                const bool refused = throws([&] { got = SpatialAxisSpec(join(l.begin(), l.end())).getAxisSteps(); });
                VF_CHECK(ok == !refused && (refused || got.size() == want.size()), "list " << str(got) << ", should be " << str(want));
            });
}
