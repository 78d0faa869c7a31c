// builds and decodes GRIB messages with the codec library alone (no fimex code): the independent side
// of the GRIB checks
#ifndef GRIBMSG_H
#define GRIBMSG_H
#include "vf.h"

#include <grib_api.h>

#include <cmath>
#include <cstdio>
#include <fstream>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace gm {
using std::string;
using std::vector;

typedef std::shared_ptr<grib_handle> H;

struct Key
{
    string name;
    char type; // l, d, s
    long l;
    double d;
    string s;
};
inline Key L(const string& n, long v) { return Key{n, 'l', v, 0, ""}; }
inline Key D(const string& n, double v) { return Key{n, 'd', 0, v, ""}; }
inline Key S(const string& n, const string& v) { return Key{n, 's', 0, 0, v}; }
typedef vector<Key> Keys;

inline Keys operator+(Keys a, const Keys& b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}

inline void ck(int err, const string& what)
{
    if (err)
        VF_FAIL("HARNESS: codec library: " << what << ": " << grib_get_error_message(err));
}

inline H sample(int edition)
{
    return H(grib_handle_new_from_samples(0, edition == 1 ? "GRIB1" : "GRIB2"), grib_handle_delete);
}

inline void set(H h, const Keys& ks)
{
    for (const Key& k : ks) {
        if (k.type == 'l')
            ck(grib_set_long(h.get(), k.name.c_str(), k.l), k.name);
        else if (k.type == 'd')
            ck(grib_set_double(h.get(), k.name.c_str(), k.d), k.name);
        else {
            size_t n = k.s.size();
            ck(grib_set_string(h.get(), k.name.c_str(), k.s.c_str(), &n), k.name);
        }
    }
}

const double MISSING = 9999;

/// a message with the given keys and values; values equal to MISSING are missing
inline string message(int edition, const Keys& ks, const vector<double>& vals)
{
    H h = sample(edition);
    VF_CHECK(h, "HARNESS: no sample");
    set(h, ks);
    bool miss = false;
    for (double v : vals)
        miss = miss || v == MISSING;
    ck(grib_set_double(h.get(), "missingValue", MISSING), "missingValue");
    ck(grib_set_long(h.get(), "bitmapPresent", miss ? 1 : 0), "bitmapPresent");
    ck(grib_set_long(h.get(), "bitsPerValue", 16), "bitsPerValue");
    ck(grib_set_double_array(h.get(), "values", vals.data(), vals.size()), "values");
    const void* buf;
    size_t n;
    ck(grib_get_message(h.get(), &buf, &n), "message");
    return string(static_cast<const char*>(buf), n);
}

inline void write(const string& fn, const string& bytes)
{
    std::ofstream f(fn.c_str(), std::ios::binary | std::ios::trunc);
    f.write(bytes.data(), bytes.size());
    f.close();
    VF_CHECK(f.good(), "HARNESS: write " << fn);
}

inline string read(const string& fn)
{
    std::ifstream f(fn.c_str(), std::ios::binary);
    return string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

/// all messages of a file
inline vector<H> decode(const string& bytes)
{
    vector<H> out;
    size_t pos = 0;
    while (pos + 16 <= bytes.size()) {
        VF_CHECK(bytes.compare(pos, 4, "GRIB") == 0, "no GRIB message at byte " << pos << " of the file");
        const unsigned char* b = reinterpret_cast<const unsigned char*>(bytes.data()) + pos;
        size_t n = 0;
        if (b[7] == 1)
            n = (size_t(b[4]) << 16) | (size_t(b[5]) << 8) | b[6];
        else
            for (int i = 8; i < 16; ++i)
                n = (n << 8) | b[i];
        VF_CHECK(n >= 16 && pos + n <= bytes.size(), "the last GRIB message of the file is not complete");
        out.push_back(H(grib_handle_new_from_message_copy(0, b, n), grib_handle_delete));
        VF_CHECK(out.back(), "the codec library rejects the message at byte " << pos);
        pos += n;
    }
    VF_CHECK(pos == bytes.size(), "trailing bytes after the last GRIB message");
    return out;
}

inline long getL(H h, const string& k)
{
    long v;
    int e = grib_get_long(h.get(), k.c_str(), &v);
    VF_CHECK(!e, "codec library cannot read " << k << ": " << grib_get_error_message(e));
    return v;
}
inline double getD(H h, const string& k)
{
    double v;
    int e = grib_get_double(h.get(), k.c_str(), &v);
    VF_CHECK(!e, "codec library cannot read " << k << ": " << grib_get_error_message(e));
    return v;
}
inline string getS(H h, const string& k)
{
    char b[1024];
    size_t n = sizeof(b);
    int e = grib_get_string(h.get(), k.c_str(), b, &n);
    VF_CHECK(!e, "codec library cannot read " << k << ": " << grib_get_error_message(e));
    return b;
}

struct Pt
{
    double lat, lon, val;
};
/// positions and values of all points as the codec library sees them
inline vector<Pt> points(H h)
{
    long n = getL(h, "numberOfDataPoints");
    vector<double> la(n), lo(n), v(n);
    ck(grib_set_double(h.get(), "missingValue", MISSING), "missingValue");
    int e = grib_get_data(h.get(), la.data(), lo.data(), v.data());
    VF_CHECK(!e, "codec library cannot locate the points of the message: " << grib_get_error_message(e));
    vector<Pt> out;
    for (long i = 0; i < n; ++i)
        out.push_back(Pt{la[i], lo[i], v[i]});
    return out;
}

inline double dlon(double a, double b)
{
    double d = std::fmod(std::fabs(a - b), 360.);
    return d > 180 ? 360 - d : d;
}
} // namespace gm
#endif
