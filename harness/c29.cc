// C29: files are found by patterns and recognised by what they are
#include "fx.h"
#include "gribmsg.h"

#include "fimex/CDMFileReaderFactory.h"
#include "fimex/FileUtils.h"
#include "fimex/XMLInputString.h"

#include <netcdf.h>

#include <algorithm>
#include <set>
#include <sys/stat.h>
#include <unistd.h>

using namespace fx;
using std::to_string;

namespace {
vf::Explorer* EX = nullptr;

// ---------------------------------------------------------------- trees of files
struct Entry
{
    const char* path; // ending with '/' for directories
    char kind;        // f file, d directory, l link to a file, m link to a directory, b broken link, p fifo
};

struct Tree
{
    string top, root; // root lies some levels below top
    std::set<string> files; // relative to root, through links
    std::set<string> dirs;  // relative to root, ending with '/'; "" is the root
};

void rmTree(const string& path, const string& top)
{
    // plain removal of what the harness has made itself, below its own scratch directory
    if (path.compare(0, EX->scratch().size() + 1, EX->scratch() + "/") != 0)
        VF_FAIL("HARNESS: not a scratch path");
    string cmd = "rm -rf '" + path + "'";
    if (system(cmd.c_str()) != 0)
        VF_FAIL("HARNESS: cannot remove");
}

void mkdirs(const string& path)
{
    for (size_t i = 1; i <= path.size(); ++i)
        if (i == path.size() || path[i] == '/')
            mkdir(path.substr(0, i).c_str(), 0755);
}

const char* LEVELS = "/p/q/r/s/root";

/// makes the tree; the set of existing entries is given by mask
Tree makeTree(const vector<Entry>& universe, unsigned mask)
{
    Tree t;
    t.top = EX->scratch() + "/tree";
    t.root = t.top + LEVELS;
    rmTree(t.top, t.top);
    mkdirs(t.root);
    t.dirs.insert("");
    vector<std::pair<string, string>> links;
    for (size_t i = 0; i < universe.size(); ++i) {
        if (!(mask & (1u << i)))
            continue;
        const string p = universe[i].path, full = t.root + "/" + p;
        for (size_t k = 0; k < p.size(); ++k)
            if (p[k] == '/')
                t.dirs.insert(p.substr(0, k + 1));
        mkdirs(removeFilename(full).substr(0, removeFilename(full).size() - 1));
        switch (universe[i].kind) {
        case 'f':
            writeFile(full, "x");
            t.files.insert(p);
            break;
        case 'd': break;
        case 'l':
            mkdirs(t.top + "/target");
            writeFile(t.top + "/target/file", "x");
            VF_CHECK(symlink((t.top + "/target/file").c_str(), full.c_str()) == 0, "HARNESS: link");
            t.files.insert(p);
            break;
        case 'm':
            mkdirs(t.top + "/target");
            writeFile(t.top + "/target/file", "x");
            VF_CHECK(symlink((t.top + "/target").c_str(), full.c_str()) == 0, "HARNESS: link");
            t.files.insert(p + "/file");
            t.dirs.insert(p + "/");
            break;
        case 'b': VF_CHECK(symlink("/nonexisting-target", full.c_str()) == 0, "HARNESS: link"); break;
        case 'p': VF_CHECK(mkfifo(full.c_str(), 0644) == 0, "HARNESS: fifo"); break;
        }
    }
    return t;
}

/// ? one character, * characters within a name, ** characters across directories
bool globMatch(const char* g, const char* s)
{
    if (!*g)
        return !*s;
    if (*g == '*') {
        const bool across = g[1] == '*';
        const char* rest = g + (across ? 2 : 1);
        for (;; ++s) {
            if (globMatch(rest, s))
                return true;
            if (!*s || (*s == '/' && !across))
                return false;
        }
    }
    if (!*s)
        return false;
    if (*g == '?')
        return *s != '/' && globMatch(g + 1, s + 1);
    return *g == *s && globMatch(g + 1, s + 1);
}

/// directory named by a literal path below the root; false if it does not exist; ups: levels above the root
bool resolve(const Tree& t, const string& literal, string& rel)
{
    vector<string> at{"p", "q", "r", "s", "root"};
    string comp;
    auto exists = [&] {
        const vector<string> fixed{"p", "q", "r", "s", "root"};
        if (!std::equal(at.begin(), at.begin() + std::min<size_t>(5, at.size()), fixed.begin()))
            return false;
        if (at.size() < 5)
            return true;
        string d;
        for (size_t i = 5; i < at.size(); ++i)
            d += at[i] + "/";
        return t.dirs.count(d) > 0;
    };
    for (size_t i = 0; i <= literal.size(); ++i) {
        if (i < literal.size() && literal[i] != '/') {
            comp += literal[i];
            continue;
        }
        if (comp == "..")
            at.pop_back();
        else if (!comp.empty() && comp != ".")
            at.push_back(comp);
        comp.clear();
        if (!exists())
            return false;
    }
    rel.clear();
    // path below top of the directory
    for (auto& a : at)
        rel += a + "/";
    return true;
}

string literalDir(const string& pattern)
{
    size_t wild = pattern.find_first_of("*?");
    size_t slash = wild == 0 ? string::npos : pattern.rfind('/', wild == string::npos ? string::npos : wild);
    return slash == string::npos ? "" : pattern.substr(0, slash + 1);
}

vector<string> wantGlob(const Tree& t, const string& pattern)
{
    const string literal = literalDir(pattern);
    const string rest = pattern.substr(literal.size());
    vector<string> out;
    string dir;
    if (!resolve(t, literal, dir))
        return out;
    const string rootBelowTop = string(LEVELS + 1) + "/";
    for (auto& f : t.files) {
        const string p = rootBelowTop + f;
        if (p.compare(0, dir.size(), dir) == 0 && globMatch(rest.c_str(), p.substr(dir.size()).c_str()))
            out.push_back(literal + p.substr(dir.size()));
    }
    return out;
}

string squash(string s)
{
    string o;
    for (char c : s)
        if (!(c == '/' && !o.empty() && o.back() == '/'))
            o += c;
    while (o.compare(0, 2, "./") == 0)
        o.erase(0, 2);
    return o;
}

vector<string> parts(const string& s)
{
    vector<string> v(1);
    for (char c : s)
        if (c == '/')
            v.emplace_back();
        else
            v.back() += c;
    return v;
}

void compare(vector<string> got, vector<string> want, const string& prefix, const string& what)
{
    for (auto& g : got) {
        VF_CHECK(g.compare(0, prefix.size(), prefix) == 0, what << " delivers " << g);
        struct stat sb;
        VF_CHECK(stat(g.c_str(), &sb) == 0 && S_ISREG(sb.st_mode), what << " delivers " << g << " which is not a file");
        g = squash(g.substr(prefix.size()));
    }
    for (auto& w : want)
        w = squash(w);
    const bool ordered = std::is_sorted(got.begin(), got.end()) || std::is_sorted(got.begin(), got.end(), [](const string& a, const string& b) { return parts(a) < parts(b); });
    auto s = got;
    std::sort(s.begin(), s.end());
    std::sort(want.begin(), want.end());
    VF_CHECK(s == want, what << " delivers " << str(got) << " instead of " << str(want));
    VF_CHECK(ordered, what << " is not sorted: " << str(got));
    EX->step();
    EX->state(str(got));
}

Tree* CUR = nullptr;
string curKey;
const Tree& tree(const vector<Entry>& u, unsigned mask)
{
    static Tree t;
    const string key = to_string(u.size()) + ":" + u[0].path + ":" + to_string(mask);
    if (key != curKey) {
        t = makeTree(u, mask);
        curKey = key;
    }
    return t;
}

void globCase(const vector<Entry>& u, unsigned mask, const string& pattern, bool relative)
{
    const Tree& t = tree(u, mask);
    vector<string> got;
    string err;
    bool bad = false;
    if (relative) {
        if (chdir(t.root.c_str()) != 0)
            VF_FAIL("HARNESS: chdir");
        bad = throws([&] { globFiles(got, pattern); }, &err);
        if (chdir("/") != 0)
            VF_FAIL("HARNESS: chdir");
        // relative results are checked from the root
        for (auto& g : got)
            g = t.root + "/" + g;
    } else {
        bad = throws([&] { globFiles(got, t.root + "/" + pattern); }, &err);
    }
    string d;
    const string lit = literalDir(pattern);
    const bool exists = resolve(t, lit, d);
    VF_CHECK(!bad || !exists, "glob " << pattern << " throws " << err);
    compare(got, wantGlob(t, pattern), t.root + "/", "glob " + pattern);
}

struct Rx
{
    const char* rx;
    bool (*match)(const string&);
};
const Rx RX[] = {
    {".*", [](const string&) { return true; }},
    {"a", [](const string& s) { return s == "a"; }},
    {"[ab]+", [](const string& s) { return !s.empty() && s.find_first_not_of("ab") == string::npos; }},
    {"d/.*", [](const string& s) { return s.compare(0, 2, "d/") == 0; }},
    {"d/e/.*", [](const string& s) { return s.compare(0, 4, "d/e/") == 0; }},
    {"e/.*", [](const string& s) { return s.compare(0, 2, "e/") == 0; }},
    {".*/a", [](const string& s) { return s.size() >= 2 && s.substr(s.size() - 2) == "/a"; }},
    {"[^/]*/[^/]*", [](const string& s) { return std::count(s.begin(), s.end(), '/') == 1; }},
    {"", [](const string& s) { return s.empty(); }},
};

void scanCase(const vector<Entry>& u, unsigned mask, int depth, int rx, bool fileOnly, const string& dir)
{
    const Tree& t = tree(u, mask);
    vector<string> got, want;
    string err;
    const bool bad = throws([&] { scanFiles(got, t.root + dir, depth, std::regex(RX[rx].rx), fileOnly); }, &err);
    VF_CHECK(!bad || (!dir.empty() && !t.dirs.count(dir.substr(1) + "/")), "scan throws " << err);
    const string below = squash(dir.substr(std::min<size_t>(1, dir.size())) + "/");
    for (auto& f : t.files) {
        if (below != "/" && f.compare(0, below.size(), below) != 0)
            continue;
        const string r = below == "/" ? f : f.substr(below.size());
        if (depth >= 0 && std::count(r.begin(), r.end(), '/') > depth)
            continue;
        if (RX[rx].match(fileOnly ? extractFilename(r) : r))
            want.push_back(f);
    }
    compare(got, want, t.root + "/", "scan of " + dir + " for " + RX[rx].rx + " depth " + to_string(depth));
}

// ---------------------------------------------------------------- names
void nameCase(const string& path)
{
    const size_t s = path.rfind('/');
    const string file = s == string::npos ? path : path.substr(s + 1), dir = s == string::npos ? "" : path.substr(0, s + 1);
    VF_CHECK(extractFilename(path) == file, "file name of '" << path << "' is '" << extractFilename(path) << "'");
    VF_CHECK(removeFilename(path) == dir, "directory of '" << path << "' is '" << removeFilename(path) << "'");
    VF_CHECK(replaceFilename(path, "n.x") == dir + "n.x", "replaced name of '" << path << "' is '" << replaceFilename(path, "n.x") << "'");
    VF_CHECK(joinFilename(path, "f") == (path.empty() ? "f" : path.back() == '/' ? path + "f" : path + "/f"), "join");
    string ext;
    const size_t d = path.rfind('.');
    if (d != string::npos && d + 1 < path.size()) {
        ext = path.substr(d + 1);
        for (char& c : ext) {
            if (!(isalnum((unsigned char)c) || c == '_'))
                ext.clear();
            else
                c = tolower(c);
            if (ext.empty())
                break;
        }
    }
    VF_CHECK(getExtension(path) == ext, "extension of '" << path << "' is '" << getExtension(path) << "' instead of '" << ext << "'");
    EX->step(5);
    EX->state(ext + dir);
}

// ---------------------------------------------------------------- kinds of files
string gribConfig()
{
    string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><cdmGribReaderConfig xmlns=\"http://www.met.no/schema/fimex/cdmGribReaderConfig\">"
               "<processOptions><option name=\"selectParameters\" value=\"all\" /></processOptions>"
               "<global_attributes><attribute name=\"Conventions\" value=\"CF-1.0\" type=\"string\" />"
               "<attribute name=\"history\" value=\"none\" type=\"string\" /></global_attributes>\n<axes>"
               "<time id=\"time\" name=\"time\" type=\"double\"><attribute name=\"standard_name\" value=\"time\" type=\"string\" />"
               "<attribute name=\"units\" value=\"seconds since 1970-01-01 00:00:00 +00:00\" type=\"string\" /></time>\n";
    for (const char* n : {"x:longitude:degrees_east", "y:latitude:degrees_north"}) {
        const string a = n;
        s += "<spatial_axis typeOfGrid=\"regular_ll\" id=\"" + a.substr(0, 1) + "\" name=\"" + a.substr(2, a.rfind(':') - 2) + "\" type=\"double\"><attribute name=\"units\" value=\"" +
             a.substr(a.rfind(':') + 1) + "\" type=\"string\" /></spatial_axis>";
    }
    s += "<spatial_axis id=\"longitude\" name=\"longitude\"></spatial_axis><spatial_axis id=\"latitude\" name=\"latitude\"></spatial_axis>"
         "<vertical_axis id=\"height\" name=\"height\" grib2_id=\"103\" grib1_id=\"105\" type=\"float\">"
         "<attribute name=\"units\" value=\"m\" type=\"string\" /></vertical_axis></axes>\n<variables>"
         "<parameter name=\"T\" type=\"float\"><attribute name=\"_FillValue\" value=\"-32767\" type=\"float\" />"
         "<grib1 indicatorOfParameter=\"11\" /><grib2 parameterNumber=\"0\" parameterCategory=\"0\" discipline=\"0\" /></parameter></variables></cdmGribReaderConfig>";
    return s;
}

string gribMessage(int ed, int step, double first)
{
    using gm::D;
    using gm::L;
    using gm::S;
    gm::Keys k{S("gridType", "regular_ll"), L("Ni", 3), L("Nj", 2), L("iScansNegatively", 0), L("jScansPositively", 1), D("latitudeOfFirstGridPointInDegrees", 50),
               D("longitudeOfFirstGridPointInDegrees", 5), D("latitudeOfLastGridPointInDegrees", 51), D("longitudeOfLastGridPointInDegrees", 7), D("iDirectionIncrementInDegrees", 1),
               D("jDirectionIncrementInDegrees", 1)};
    if (ed == 1)
        k = k + gm::Keys{L("setLocalDefinition", 0), L("centre", 88), L("table2Version", 1), L("indicatorOfParameter", 11), L("indicatorOfTypeOfLevel", 105), L("level", 2)};
    else
        k = k + gm::Keys{L("discipline", 0), L("parameterCategory", 0), L("parameterNumber", 0), L("typeOfFirstFixedSurface", 103), L("scaleFactorOfFirstFixedSurface", 0), L("scaledValueOfFirstFixedSurface", 2)};
    k = k + gm::Keys{L("dataDate", 20200228), L("dataTime", 0), L("indicatorOfUnitOfTimeRange", 1)};
    k = k + (ed == 1 ? gm::Keys{L("timeRangeIndicator", 0), L("P1", step)} : gm::Keys{L("forecastTime", step)});
    return gm::message(ed, k, fx::iota(6, first));
}

void writeNc(const string& fn, int mode, const VD& times, double first)
{
    auto ck = [&](int e) { VF_CHECK(e == NC_NOERR, "HARNESS: netcdf " << nc_strerror(e)); };
    int nc, dx, dt, v, vt;
    ck(nc_create(fn.c_str(), NC_CLOBBER | mode, &nc));
    ck(nc_def_dim(nc, "time", NC_UNLIMITED, &dt));
    ck(nc_def_dim(nc, "x", 2, &dx));
    ck(nc_def_var(nc, "time", NC_DOUBLE, 1, &dt, &vt));
    ck(nc_put_att_text(nc, vt, "units", 33, "hours since 2020-02-28 00:00:00 Z"));
    int d[] = {dt, dx};
    ck(nc_def_var(nc, "ncvar", NC_INT, 2, d, &v));
    ck(nc_enddef(nc));
    size_t s[] = {0, 0}, z[] = {times.size(), 2};
    if (!times.empty()) {
        ck(nc_put_vara_double(nc, vt, s, z, times.data()));
        VD x = fx::iota(times.size() * 2, first);
        ck(nc_put_vara_double(nc, v, s, z, x.data()));
    }
    ck(nc_close(nc));
}

enum Content { CDF1, CDF2, CDF5, HDF, HDFC, GRIB1, GRIB2, NCML, EMPTY, TEXT, SHORTCDF, SHORTGRIB, NCONTENT };
const char* CONTENT[] = {"classic", "64-bit offset", "64-bit data", "netcdf-4", "netcdf-4 classic", "GRIB 1", "GRIB 2", "NcML", "empty", "text", "CDF only", "GRIB only"};
bool isNc(int c) { return c <= HDFC; }
bool isGrib(int c) { return c == GRIB1 || c == GRIB2; }

void make(const string& fn, int c)
{
    const int mode[] = {0, NC_64BIT_OFFSET, NC_64BIT_DATA, NC_NETCDF4, NC_NETCDF4 | NC_CLASSIC_MODEL};
    if (isNc(c))
        writeNc(fn, mode[c], {0, 1}, 1);
    else if (isGrib(c))
        writeFile(fn, gribMessage(c == GRIB1 ? 1 : 2, 0, 1));
    else if (c == NCML)
        writeFile(fn, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<netcdf xmlns=\"http://www.unidata.ucar.edu/namespaces/netcdf/ncml-2.2\"><dimension name=\"x\" length=\"2\" />"
                      "<variable name=\"ncmlvar\" type=\"int\" shape=\"x\"><values>1 2</values></variable></netcdf>");
    else
        writeFile(fn, c == EMPTY ? "" : c == TEXT ? "this is only some text, but a little longer than a magic number" : c == SHORTCDF ? "CDF" : "GRIB");
}

/// 0 none, 1 netcdf, 2 grib, 3 ncml, 4 felt
int familyOfType(const string& t)
{
    static const std::map<string, int> M{{"nc", 1}, {"nc3", 1}, {"nc4", 1}, {"nc4c", 1}, {"netcdf", 1}, {"netcdf3", 1}, {"netcdf4", 1}, {"cdf", 1}, {"grib", 2}, {"grb", 2}, {"grb1", 2}, {"grib1", 2}, {"grb2", 2}, {"grib2", 2}, {"ncml", 3}, {"felt", 4}, {"flt", 4}, {"dat", 4}};
    auto i = M.find(t);
    return i == M.end() ? 0 : i->second;
}
int familyOfName(const string& ext)
{
    return ext == "nc" || ext == "nc4" ? 1 : familyOfType(ext) == 1 ? -1 : familyOfType(ext);
}

void detectCase(int content, const string& ext, const string& type, bool url)
{
    const string fn = EX->scratch() + "/file" + ext;
    make(fn, content);
    int family = familyOfType(type);
    if (!family)
        family = isNc(content) ? 1 : isGrib(content) ? 2 : familyOfName(getExtension(fn));
    const bool fits = (family == 1 && isNc(content)) || (family == 2 && isGrib(content)) || (family == 3 && content == NCML);
    CDMReader_p r;
    string err;
    const string dflt = gribConfig();
    const bool isG = family == 2;
    bool bad = throws([&] {
        r = isG ? CDMFileReaderFactory::create(type, (url ? "file:" : "") + fn, XMLInputString(dflt)) : CDMFileReaderFactory::create(type, (url ? "file:" : "") + fn);
    }, &err);
    EX->step();
    EX->state(string(CONTENT[content]) + ext + type);
    if (fits) {
        VF_CHECK(!bad, CONTENT[content] << " file '" << fn << "' as '" << type << "' is refused: " << err);
        const string v = family == 1 ? "ncvar" : family == 2 ? "T" : "ncmlvar";
        VF_CHECK(r->getCDM().hasVariable(v), CONTENT[content] << " file is not read for what it is");
        VD want = family == 1 ? fx::iota(4) : family == 2 ? fx::iota(6) : VD{1, 2};
        expectClose(r->getData(v), want, "data", 1e-3, 0.01);
    } else if (family == 0) {
        VF_CHECK(bad, "unknown file is read");
    } else if (family == 1 || family == 3) {
        VF_CHECK(bad, "a " << CONTENT[content] << " file is read as family " << family);
    }
    r.reset();
    cleanDir(EX->scratch());
}

/// what a file is written as
void writeCase(const string& type, const string& ext)
{
    auto src = std::make_shared<TestReader>();
    axis(*src, "x", {1, 2}, "m", "projection_x_coordinate");
    src->var("v", CDM_INT, {"x"}, {3, 4});
    const string fn = EX->scratch() + "/out" + ext;
    string e = ext.empty() ? "" : ext.substr(1);
    for (char& c : e)
        c = tolower(c);
    int family = familyOfType(type);
    const int byType = family;
    if (!family)
        family = familyOfName(e);
    if (family == 2 || family < 0) // needs a configuration, decided elsewhere; not claimed for names like .nc3
        return;
    string err;
    const bool bad = throws([&] { CDMFileReaderFactory::createWriter(src, type, fn); }, &err);
    EX->step();
    EX->state(type + ext);
    if (family == 0 || family == 4) {
        VF_CHECK(bad, "written as an unknown type");
        VF_CHECK(access(fn.c_str(), F_OK) != 0, "a refused file is created");
        return;
    }
    VF_CHECK(!bad, "refused: " << err);
    const string b = readFile(fn);
    if (family == 3)
        VF_CHECK(b.compare(0, 5, "<?xml") == 0 && b.find("netcdf/ncml-2.2") != string::npos, "not an NcML file");
    else {
        const bool classic = byType == 1 && (type == "nc3" || type == "netcdf3" || type == "cdf");
        VF_CHECK(b.compare(0, 4, classic ? string("CDF") + b[3] : "\211HDF") == 0, "written as another kind of NetCDF");
        int nc, fmt;
        VF_CHECK(nc_open(fn.c_str(), 0, &nc) == 0 && nc_inq_format(nc, &fmt) == 0, "not readable");
        nc_close(nc);
        VF_CHECK(classic ? fmt == NC_FORMAT_CLASSIC || fmt == NC_FORMAT_64BIT_OFFSET : fmt == (type == "nc4c" ? NC_FORMAT_NETCDF4_CLASSIC : NC_FORMAT_NETCDF4), "format " << fmt);
    }
    CDMReader_p r = CDMFileReaderFactory::create(family == 3 ? "ncml" : "", fn);
    if (family == 1)
        expectValues(r->getData("v"), {3, 4}, "data written");
    r.reset();
    cleanDir(EX->scratch());
}

// ---------------------------------------------------------------- many files
const char* NAMES[] = {"a", "b c", "d&e", "f<g", "h\"i", "j'k", "l+m", "n(o", "p[q", "r$s", "t^u", "v{w", "x|y", "B%C", "D;E", "F,G", "H#I", "\xc3\xa5"};
const int NNAMES = sizeof(NAMES) / sizeof(NAMES[0]);

void manyCase(bool grib, const vector<int>& names, int how, bool subdirs)
{
    const string top = EX->scratch() + "/many";
    rmTree(top, top);
    curKey.clear();
    mkdirs(top);
    vector<string> files;
    for (size_t i = 0; i < names.size(); ++i) {
        string d = top + (subdirs ? "/d" + to_string(i % 2) : "");
        mkdirs(d);
        files.push_back(d + "/" + NAMES[names[i]] + ".dta");
    }
    vector<string> sorted = files;
    std::sort(sorted.begin(), sorted.end());
    const vector<string>& order = how == 0 ? sorted : files;
    VD wt, wv;
    for (size_t i = 0; i < order.size(); ++i) {
        if (grib) {
            writeFile(order[i], gribMessage(1, i, 1 + 6 * i));
            wt.push_back(1582848000 + 3600 * i);
            for (double v : fx::iota(6, 1 + 6 * i))
                wv.push_back(v);
        } else {
            writeNc(order[i], i % 2 ? NC_NETCDF4 : 0, {double(i)}, 1 + 2 * i);
            wt.push_back(i);
            wv.push_back(1 + 2 * i);
            wv.push_back(2 + 2 * i);
        }
    }
    string spec, sep;
    vector<string> args;
    if (how == 0) {
        spec = "glob:" + top + (subdirs ? "/*/*.dta" : "/*.dta");
    } else if (how == 1) { // many:
        for (char c : string(",;:@ "))
            if (sep.empty()) {
                bool free = true;
                for (auto& f : files)
                    free = free && f.find(c) == string::npos;
                if (free)
                    sep = string(1, c);
            }
        spec = "many:";
        for (auto& f : files)
            spec += sep + f;
    } else if (how == 2) {
        string l;
        for (size_t i = 0; i < files.size(); ++i)
            l += files[i] + (names[0] % 2 && i + 1 == files.size() ? "" : "\n");
        writeFile(top + "/list", l);
        spec = "list:" + top + "/list";
    } else {
        spec = files[0];
        args.assign(files.begin() + 1, files.end());
    }
    CDMReader_p r = grib ? CDMFileReaderFactory::create("grib", spec, XMLInputString(gribConfig()), args) : CDMFileReaderFactory::create("netcdf", spec, "", args);
    expectClose(r->getData("time"), wt, "times", 0, 1e-6);
    expectClose(r->getData(grib ? "T" : "ncvar"), wv, "data", 1e-3, 0.01);
    EX->step();
    EX->state(spec.substr(top.size()));
    r.reset();
    rmTree(top, top);
}

} // namespace

void vf::explore(Explorer& ex)
{
    EX = &ex;
    static const vector<Entry> U{{"a", 'f'}, {"b", 'f'}, {"ab", 'f'}, {"d/a", 'f'}, {"d/ab", 'f'}, {"e/a", 'f'}, {"d/e/a", 'f'}, {"d/f/b", 'f'}, {"a.b/a", 'f'}};
    static const vector<Entry> ODD{{"a", 'l'}, {"b", 'b'}, {"c", 'p'}, {"d/a", 'f'}, {"e", 'm'}, {"f/", 'd'}, {"d/e/f/a", 'f'}, {"d/e", 'd'}};
    auto globs = [&](const string& alphabet, int n, const std::function<void(const string&)>& f) {
        string s(n, alphabet[0]);
        vector<size_t> i(n, 0);
        for (;;) {
            for (int k = 0; k < n; ++k)
                s[k] = alphabet[i[k]];
            f(s);
            int k = n - 1;
            while (k >= 0 && ++i[k] == alphabet.size())
                i[k--] = 0;
            if (k < 0)
                break;
        }
    };
    auto glob = [&](const vector<Entry>& u, unsigned mask, const string& g, bool rel) {
        if (rel && g[0] == '/')
            return;
        ex.run([=] { return "glob " + g + (rel ? " relative" : "") + " tree " + to_string(mask) + " of " + to_string(u.size()); }, [=] { globCase(u, mask, g, rel); });
    };
    ex.space("patterns in all trees");
    for (unsigned mask = 0; mask < (1u << U.size()); ++mask) {
        for (const char* g : {"*", "**", "?", "*/*", "*/a", "**/a", "**a", "d/*", "d/**", "d/*/*", "*/?/a", "?/a*", "a", "d/a", "*.*/*", "d/e/a", "**/*b", "**/*/a", "a**", "?/**"})
            glob(U, mask, g, false);
        if (ex.thorough())
            for (int n = 1; n <= 3; ++n)
                globs("abd*?/.", n, [&](const string& g) { glob(U, mask, g, false); });
    }
    ex.space("all patterns");
    const unsigned ALL = (1u << U.size()) - 1;
    for (int n = 1; n <= ex.bound(5, 6); ++n)
        globs("abd*?/.", n, [&](const string& g) {
            glob(U, ALL, g, false);
            if (n <= 4)
                glob(U, ALL, g, true);
        });
    ex.space("special characters");
    static const vector<Entry> S{{"a+b", 'f'}, {"a(b)", 'f'}, {"a[b]", 'f'}, {"a{2}", 'f'}, {"a^$", 'f'}, {"a|b", 'f'}, {"a\\b", 'f'}, {"a b", 'f'}, {"a.b", 'f'}, {"aab", 'f'}, {"aa", 'f'}, {"d.+/a+b", 'f'}, {"d()/a", 'f'}, {"A", 'f'}, {"a-b", 'f'}, {"a,b", 'f'}};
    const unsigned SALL = (1u << S.size()) - 1;
    for (auto& e : S) {
        const string p = e.path;
        glob(S, SALL, p, false);
        for (size_t i = 0; i <= p.size(); ++i) {
            glob(S, SALL, p.substr(0, i) + "*" + p.substr(i), false);
            glob(S, SALL, p.substr(0, i) + "**" + p.substr(i), false);
            if (i < p.size()) {
                glob(S, SALL, p.substr(0, i) + "?" + p.substr(i + 1), false);
                glob(S, SALL, p.substr(0, i) + "*" + p.substr(i + 1), false);
                for (size_t j = i + 1; j < p.size(); ++j)
                    glob(S, SALL, p.substr(0, i) + "?" + p.substr(i + 1, j - i - 1) + "*" + p.substr(j + 1), false);
            }
        }
    }
    ex.space("links and other kinds");
    for (unsigned mask = 0; mask < (1u << ODD.size()); ++mask) {
        if ((mask & (1u << 7)) && (mask & (1u << 6)))
            continue;
        if (mask & (1u << 7))
            continue;
        for (const char* g : {"*", "**", "?/*", "e/*", "*/**"})
            glob(ODD, mask, g, false);
    }
    ex.space("scans");
    for (unsigned mask = 0; mask < (1u << U.size()); mask += ex.bound(3, 1))
        for (int rx = 0; rx < int(sizeof(RX) / sizeof(RX[0])); ++rx)
            for (bool fo : {false, true})
                for (int depth = -1; depth < 4; ++depth)
                    for (const char* d : {"", "/d"}) {
                        const string ds = d;
                        if (fo && string(RX[rx].rx).find('/') != string::npos)
                            continue;
                        ex.run([=] { return string("scan ") + RX[rx].rx + (fo ? " names" : "") + " depth " + to_string(depth) + " in " + ds + " tree " + to_string(mask); },
                               [=] { scanCase(U, mask, depth, rx, fo, ds); });
                    }
    ex.space("names");
    for (int n = 0; n <= ex.bound(5, 6); ++n) {
        if (n == 0)
            ex.run([=] { return string("empty name"); }, [=] { nameCase(""); });
        else
            globs("aN_./ -", n, [&](const string& g) { ex.run([=] { return "name " + g; }, [=] { nameCase(g); }); });
    }
    ex.space("recognition");
    for (int c = 0; c < NCONTENT; ++c)
        for (const char* e : {"", ".nc", ".NC", ".nc4", ".grb", ".grib2", ".GRB1", ".ncml", ".dat", ".flt", ".xyz", ".nc.gz", ".grib.nc"})
            for (const char* t : {"", "nc", "netcdf", "nc3", "nc4", "nc4c", "grib", "grb2", "grb1", "ncml", "xyz"})
                for (bool url : {false, true}) {
                    const string es = e, ts = t;
                    if (familyOfType(t) == 2 && !isGrib(c)) // up to the codec library
                        continue;
                    if (url && !(isNc(c) && (familyOfType(t) == 1 || (!familyOfType(t)))))
                        continue;
                    ex.run([=] { return string(CONTENT[c]) + " named file" + es + " as '" + ts + "'" + (url ? " as URL" : ""); }, [=] { detectCase(c, es, ts, url); });
                }
    ex.space("kinds written");
    for (const char* e : {"", ".nc", ".NC", ".nc4", ".ncml", ".dat", ".xyz"})
        for (const char* t : {"", "nc", "netcdf", "nc3", "netcdf3", "cdf", "nc4", "netcdf4", "nc4c", "ncml", "xyz", "felt"}) {
            const string es = e, ts = t;
            ex.run([=] { return "write out" + es + " as '" + ts + "'"; }, [=] { writeCase(ts, es); });
        }
    ex.space("many files");
    for (bool g : {false, true})
        for (int how = 0; how < (g ? 4 : 1); ++how)
            for (bool sub : {false, true})
                for (int i = 0; i < NNAMES; ++i)
                    for (int j = 0; j < NNAMES; ++j)
                        for (int k = 0; k < (ex.thorough() ? NNAMES : 1); ++k) {
                            if (i == j || (ex.thorough() && (k == i || k == j)))
                                continue;
                            const vector<int> n = ex.thorough() ? vector<int>{i, j, k} : vector<int>{i, j};
                            if (!ex.thorough() && i > 3 && j > 3 && (i + j) % 3)
                                continue;
                            ex.run([=] { return string(g ? "GRIB" : "NetCDF") + " how " + to_string(how) + (sub ? " in directories" : "") + " files " + NAMES[i] + ", " + NAMES[j]; },
                                   [=] { manyCase(g, n, how, sub); });
                        }
}
