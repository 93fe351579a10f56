// C13: data set loading against a reference table, on a simulated disk.
#include "../sim/sim.h"
#include "mml/tools/DataLoader.h"
#include <iostream>
#include <cstring>
const char* const SIM_CHECK_ID = "C13";
using namespace MML; using namespace MML::Data;
using sim::w;

struct Cell { bool missing = true; std::string text; bool quoted = false; };
enum Kind { K_INT, K_REAL, K_BOOL, K_STR, K_DATE, K_TIME, K_DT, K_EMPTY, NK };
struct Col { std::string name; ColumnType type; std::vector<Cell> cells; };
struct Table { std::vector<Col> cols; int rows = 0; bool header = true; };

static std::string utf8(unsigned c) {
    std::string o;
    if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); }
    return o;
}
static unsigned gen_cp() {       // any Unicode character: one, two, three and four bytes, and the ends of each range
    static const unsigned e[] = {0x80, 0x7FF, 0x800, 0xFFFD, 0xD7FF, 0xE000, 0x10000, 0x10FFFF, 0x1F600, 0x90000};
    switch (w(4)) { case 0: return e[w(10)]; case 1: return 0xA1 + w(0x75F); case 2: return 0x800 + w(0xD800 - 0x800); default: return 0x10000 + w(0x100000); }
}
static std::string gen_str() {
    static const char* s[] = {"abc", "x y", "a,b", "q\"uote", "tab\there", "12abc", "1.2.3", "--5", "e5", "+", "longer text; with stuff", "0x10", "1e", "\xc3\xa9t\xc3\xa9", "#", "inf", "truex", "2024-1", "12:3", "nan1", "\\n", "'s'", "{}", "[1]"};
    std::string r = s[w(24)];
    if (w(12) == 0) r += std::string(1 + w(300), 'z');
    if (w(8) == 0) for (int n = 1 + w(3); n; --n) r += utf8(gen_cp());
    return r;
}
static std::string num(double v, const char* f) { char b[64]; snprintf(b, sizeof b, f, v); return b; }
static std::string gen_cell(int k) {
    char b[80];
    switch (k) {
    case K_INT: { static const char* s[] = {"2147483647", "-2147483648", "+7", "007", "-0", "0"}; if (w(5) == 0) return s[w(6)]; snprintf(b, sizeof b, "%d", sim::wi(-100000, 100000)); return b; }
    case K_REAL: { double v = sim::real(-1000, 1000); switch (w(8)) { case 0: return num(v / 3, "%.17g"); case 1: return num(v, "%.3f"); case 2: return num(v * 1e9, "%.6e"); case 3: return num(v, "%.2E"); case 4: return w(2) ? ".5" : "7."; case 5: return "3000000000"; case 6: return num(v * 1e-9, "%.10g"); default: return num(v, "%.4f"); } }
    case K_BOOL: { static const char* s[] = {"true", "false", "yes", "no", "T", "f", "Y", "n", "True", "FALSE", "YES", "No"}; return s[w(12)]; }
    case K_DATE: snprintf(b, sizeof b, w(2) ? "%04d-%02d-%02d" : "%04d/%d/%d", 1900 + (int)w(200), 1 + (int)w(12), 1 + (int)w(28)); return b;
    case K_TIME: switch (w(3)) { case 0: snprintf(b, sizeof b, "%d:%02d", (int)w(24), (int)w(60)); break; case 1: snprintf(b, sizeof b, "%02d:%02d:%02d", (int)w(24), (int)w(60), (int)w(60)); break; default: snprintf(b, sizeof b, "%02d:%02d:%02d.%d", (int)w(24), (int)w(60), (int)w(60), (int)w(1000)); } return b;
    case K_DT: snprintf(b, sizeof b, "%04d-%02d-%02d%c%02d:%02d", 1900 + (int)w(200), 1 + (int)w(12), 1 + (int)w(28), w(2) ? 'T' : ' ', (int)w(24), (int)w(60)); if (w(2)) { snprintf(b + strlen(b), 10, ":%02d", (int)w(60)); } return b;
    default: return gen_str();
    }
}
static bool sentinel(std::string s) { for (auto& c : s) c = (char)tolower(c); static const char* k[] = {"", "na", "n/a", "nan", "null", "none", ".", "?", "-"}; for (auto x : k) if (s == x) return true; return false; }
static const char* sentinels[] = {"", "NA", "n/a", "NaN", "null", "None", ".", "?", "-", "na", "NULL"};

// reference type inference: what share of the non-missing cells looks like what
static int looks(const std::string& t) {      // 0 int 1 real 2 bool 3 date 4 time 5 datetime 6 other
    auto all = [&](const char* p) { size_t i = 0; (void)p; return i; };
    (void)all;
    size_t i = 0, n = t.size(); auto digs = [&](size_t mx) { size_t c = 0; while (i < n && c < mx && isdigit((unsigned char)t[i])) ++i, ++c; return c; };
    { i = (t[0] == '+' || t[0] == '-') ? 1 : 0; size_t a = digs(n); if (a && i == n) { errno = 0; long long v = strtoll(t.c_str(), 0, 10); return (errno || v > 2147483647LL || v < -2147483648LL) ? 1 : 0; }
      size_t b = 0; if (i < n && t[i] == '.') { ++i; b = digs(n); } if (a + b) { bool okk = true; if (i < n && (t[i] == 'e' || t[i] == 'E')) { ++i; if (i < n && (t[i] == '+' || t[i] == '-')) ++i; okk = digs(n) > 0; } if (okk && i == n) return 1; } }
    std::string l = t; for (auto& c : l) c = (char)tolower(c);
    for (auto x : {"true", "false", "yes", "no", "t", "f", "y", "n"}) if (l == x) return 2;
    i = 0; bool date = digs(4) == 4 && i < n && (t[i] == '-' || t[i] == '/') && ++i && digs(2) && i < n && (t[i] == '-' || t[i] == '/') && ++i && digs(2);
    if (date && i == n) return 3;
    bool dt = date && i < n && (t[i] == 'T' || t[i] == ' '); if (dt) ++i; else i = 0;
    bool tm = digs(2) && i < n && t[i] == ':' && ++i && digs(2) == 2; if (tm && i < n && t[i] == ':') { ++i; tm = digs(2) == 2; }
    if (tm && !dt && i < n && t[i] == '.') { ++i; tm = digs(n) > 0; }
    if (tm && i == n) return dt ? 5 : 4;
    return 6;
}
// returns false when the shares are too close to the 90 % rule to be a fair question
static bool infer(Col& c) {
    size_t cnt[7] = {0}, n = 0; for (auto& x : c.cells) if (!x.missing) { cnt[looks(x.text)]++; n++; }
    if (!n) { c.type = ColumnType::STRING; return true; }
    double thr = 0.9 * n; auto clear = [&](size_t k) { return std::fabs((double)k - thr) > 0.3 || k == n || k == 0; };
    if (!clear(cnt[5]) || !clear(cnt[3]) || !clear(cnt[4]) || !clear(cnt[2]) || !clear(cnt[0]) || !clear(cnt[0] + cnt[1])) return false;
    if (cnt[5] >= thr) c.type = ColumnType::DATETIME; else if (cnt[3] >= thr) c.type = ColumnType::DATE; else if (cnt[4] >= thr) c.type = ColumnType::TIME; else if (cnt[2] >= thr) c.type = ColumnType::BOOL;
    else if (!cnt[1] && cnt[0] >= thr) c.type = ColumnType::INT; else if (cnt[0] + cnt[1] >= thr) c.type = ColumnType::REAL; else c.type = ColumnType::STRING;
    return true;
}
static Table gen_table(bool big, bool json) {
    Table t; t.rows = big ? 40 + w(160) : w(7); int nc = 1 + w(5); t.header = json || w(4) != 0;
    if (json && t.rows == 0) t.rows = 1;
    if (!t.header && !t.rows) t.rows = 1;
    static const char* names[] = {"x", "y value", "z,comma", "Id", "q\"n", "col", "T", "na", "5", "date"};
    for (int c = 0; c < nc; ++c) {
        Col col; col.name = names[(c + w(3)) % 10]; for (auto& o : t.cols) if (o.name == col.name) col.name += std::to_string(c);
        int k = w(NK), stray = w(4) == 0 ? (int)w(NK) : -1; bool first_missing = w(5) == 0; int from = stray >= 0 && t.rows > 2 && w(2) ? 1 + (int)w(t.rows - 1) : 0;     // a column whose other kind of value appears late only
        for (int r = 0; r < t.rows; ++r) {
            Cell x; bool miss = k == K_EMPTY || w(6) == 0 || (first_missing && r == 0);
            if (miss) { x.text = sentinels[w(11)]; x.missing = true; }
            else { int kk = stray >= 0 && stray != K_EMPTY && (from ? r >= from && w(2) : w(14) == 0) ? stray : k; if (k == K_REAL && w(4) == 0) kk = K_INT; x.text = gen_cell(kk); x.missing = sentinel(x.text); }
            col.cells.push_back(x);
        }
        if (!infer(col)) for (auto& x : col.cells) if (!x.missing) x.text = gen_cell(K_INT);
        infer(col);
        t.cols.push_back(col);
    }
    return t;
}
static std::string csv_field(const std::string& s, char d, bool force) {
    if (!force && s.find(d) == std::string::npos && s.find('"') == std::string::npos) return s;
    std::string r = "\""; for (char c : s) { if (c == '"') r += '"'; r += c; } return r + "\"";
}
static std::string pad(const std::string& s) { return w(12) == 0 ? " " + s + (w(2) ? "  " : "") : s; }
static std::string render_csv(Table& t, char d) {
    std::string o; if (w(5) == 0) o = "\xEF\xBB\xBF"; const char* nl = w(3) == 0 ? "\r\n" : "\n";
    auto blank = [&]() { if (w(10) == 0) o += nl; };
    auto emit = [&](const std::vector<std::string>& f, const std::vector<bool>& plain) {
        std::string l; size_t last = f.size();
        // a short row: trailing cells that are missing may be left out
        if (plain.size() && w(6) == 0) while (last > 1 && plain[last - 1] && w(2)) --last;
        for (size_t i = 0; i < last; ++i) { if (i) l += d; l += f[i]; }
        bool empty = true; for (char c : l) if (!strchr(" \t\r\n", c)) empty = false;
        if (empty && l.find(d) == std::string::npos) { l = ""; for (size_t i = 0; i < f.size(); ++i) { if (i) l += d; l += "NA"; } }     // a line of blanks is skipped by definition
        o += l;
    };
    blank();
    if (t.header) { std::vector<std::string> f; for (auto& c : t.cols) f.push_back(csv_field(c.name, d, w(5) == 0)); emit(f, {}); if (t.rows || w(2)) o += nl; }
    for (int r = 0; r < t.rows; ++r) {
        blank();
        std::vector<std::string> f; std::vector<bool> m;
        for (auto& c : t.cols) { auto& x = c.cells[r]; bool special = x.text.find(d) != std::string::npos || x.text.find('"') != std::string::npos; f.push_back(special || (w(8) == 0) ? csv_field(x.text, d, true) : pad(x.text)); m.push_back(x.missing); }
        if (!t.header && r == 0) m.clear();
        emit(f, m);
        if (r + 1 < t.rows || w(3)) o += nl;
    }
    return o;
}
static std::string json_str(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i];
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\t') r += "\\t"; else if (c == '/' && w(2)) r += "\\/";
        else if (c >= 0xc2 && c < 0xf8 && i + (c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3) < s.size()) {     // one character of several bytes, written raw or as \u escapes (a surrogate pair above U+FFFF)
            int k = c < 0xe0 ? 1 : c < 0xf0 ? 2 : 3; unsigned cp = c & (k == 1 ? 31 : k == 2 ? 15 : 7); for (int q = 1; q <= k; ++q) cp = cp << 6 | ((unsigned char)s[i + q] & 63);
            char b[16]; const char* one = w(2) ? "\\u%04x" : "\\u%04X";
            if (w(2)) r += s.substr(i, k + 1); else if (cp < 0x10000) { snprintf(b, sizeof b, one, cp); r += b; } else { snprintf(b, sizeof b, one, 0xD800 + ((cp - 0x10000) >> 10)); r += b; snprintf(b, sizeof b, one, 0xDC00 + ((cp - 0x10000) & 0x3FF)); r += b; }
            i += k;
        }
        else if (isalpha(c) && w(40) == 0) { char b[8]; snprintf(b, sizeof b, w(2) ? "\\u%04X" : "\\u%04x", c); r += b; }
        else r += (char)c; }
    return r + "\"";
}
static bool json_number(const std::string& s) { size_t i = s[0] == '-' ? 1 : 0; if (i >= s.size() || !isdigit((unsigned char)s[i])) return false; if (s[i] == '0' && i + 1 < s.size() && isdigit((unsigned char)s[i + 1])) return false; return s.back() != '.' && looks(s) <= 1; }
static std::string render_json(Table& t) {
    std::string o; if (w(6) == 0) o = "\xEF\xBB\xBF"; auto sp = [&]() { static const char* k[] = {"", "", "", " ", "\n", "\r\n  ", "\t"}; o += k[w(7)]; };
    sp(); o += "["; sp();
    // column order is the order of first appearance
    std::vector<std::string> order;
    for (int r = 0; r < t.rows; ++r) {
        if (r) { o += ","; } sp(); o += "{"; bool first = true;
        std::vector<int> idx; for (size_t c = 0; c < t.cols.size(); ++c) idx.push_back((int)c);
        if (w(4) == 0) for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[w((uint32_t)i)]);
        for (int c : idx) {
            auto& x = t.cols[c].cells[r];
            if (x.missing && w(3) == 0) continue;          // key absent
            if (!first) { sp(); o += ","; } first = false; sp();
            std::string key = t.cols[c].name; bool seen = false; for (auto& k : order) if (k == key) seen = true; if (!seen) order.push_back(key);
            if (w(25) == 0) { o += json_str(key) + ":" + (w(2) ? "\"dup\"" : "17") + ","; sp(); }     // repeated key: the last value counts
            o += json_str(key); sp(); o += ":"; sp();
            std::string l = x.text; for (auto& ch : l) ch = (char)tolower(ch);
            if (x.missing && w(2)) o += "null";
            else if ((x.text == "true" || x.text == "false") && w(2)) o += x.text;
            else if (!x.missing && json_number(x.text) && w(3)) o += x.text;
            else o += json_str(x.text);
        }
        sp(); o += "}"; sp();
    }
    o += "]"; if (w(2)) o += "\n";
    // keep the expected table in the order of appearance; a key that never appears is no column
    std::vector<Col> nc; for (auto& k : order) for (auto& c : t.cols) if (c.name == k) nc.push_back(c); t.cols = nc;
    return o;
}
static std::string short_(const std::string& s) { std::string r; for (unsigned char c : s.substr(0, 160)) { if (c >= 32 && c < 127) r += (char)c; else { char b[6]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }

static void rect(const Dataset& d, const char* where) {
    for (auto& c : d.columns) if (c.Size() != d.rowCount || c.missingMask.size() != d.rowCount || (c.type == ColumnType::DATETIME && c.timeData.size() != d.rowCount))
        sim::violation("ragged", where, "data set is not rectangular: column '%s' (%s) has %zu values and %zu missing marks, rowCount is %zu", short_(c.name).c_str(), ColumnTypeToString(c.type).c_str(), c.Size(), c.missingMask.size(), (size_t)d.rowCount);
    // reading every cell through the accessors must be safe
    size_t h = 0; for (auto& c : d.columns) for (size_t r = 0; r < d.rowCount; ++r) { h += c.GetAsString(r).size(); double v = c.GetReal(r); h += std::isnan(v); }
    sim::hash(h);
}
static void compare(const Dataset& d, const Table& t, const char* where, const std::string& text) {
    rect(d, where);
    if (d.columns.size() != t.cols.size() || (size_t)d.rowCount != (t.cols.empty() ? 0 : (size_t)t.rows)) { sim::violation("shape", where, "loaded %zu rows x %zu columns, the text has %d x %zu: '%s'", (size_t)d.rowCount, d.columns.size(), t.rows, t.cols.size(), short_(text).c_str()); return; }
    for (size_t c = 0; c < t.cols.size(); ++c) {
        const Col& e = t.cols[c]; const DataColumn& g = d.columns[c];
        std::string en = t.header ? e.name : "Column" + std::to_string(c);
        if (g.name != en) sim::violation("header", where, "column %zu is named '%s', expected '%s'", c, short_(g.name).c_str(), short_(en).c_str());
        if (g.type != e.type) { sim::violation("type", where, "column %zu '%s' has type %s, expected %s (first cells '%s' '%s')", c, short_(g.name).c_str(), ColumnTypeToString(g.type).c_str(), ColumnTypeToString(e.type).c_str(), t.rows ? short_(e.cells[0].text).c_str() : "", t.rows > 1 ? short_(e.cells[1].text).c_str() : ""); continue; }
        for (int r = 0; r < t.rows; ++r) {
            const Cell& x = e.cells[r]; int lk = x.missing ? -1 : looks(x.text); bool miss = x.missing; bool okv = true; std::string got = "?";
            switch (e.type) {
            case ColumnType::REAL: { if (lk > 1) { char* z; strtod(x.text.c_str(), &z); miss = true; if (!*z) continue; } else if (lk < 0) miss = true; double want = miss ? 0 : strtod(x.text.c_str(), 0), have = g.realData[r]; okv = miss ? std::isnan(have) : have == want; got = std::to_string(have); break; }
            case ColumnType::INT: { if (lk != 0) miss = true; long want = miss ? 0 : strtol(x.text.c_str(), 0, 10); okv = miss || g.intData[r] == want; got = std::to_string(g.intData[r]); break; }
            case ColumnType::BOOL: { std::string l = x.text; for (auto& ch : l) ch = (char)tolower(ch); bool tr = l == "true" || l == "yes" || l == "t" || l == "y" || l == "1", fa = l == "false" || l == "no" || l == "f" || l == "n" || l == "0"; if (!tr && !fa) miss = true; okv = miss || g.boolData[r] == tr; got = g.boolData[r] ? "true" : "false"; break; }
            case ColumnType::STRING: okv = miss || g.stringData[r] == x.text; got = g.stringData[r]; break;
            case ColumnType::DATE: okv = miss || g.dateData[r] == x.text; got = g.dateData[r]; break;
            case ColumnType::TIME: okv = miss || g.timeData[r] == x.text; got = g.timeData[r]; break;
            case ColumnType::DATETIME: if (!miss && lk == 5) { size_t p = x.text.find_first_of("T "); okv = g.dateData[r] == x.text.substr(0, p) && g.timeData[r] == x.text.substr(p + 1); got = g.dateData[r] + "|" + g.timeData[r]; } break;
            default: break;
            }
            if (g.IsMissing(r) != miss) { sim::violation("missing", where, "row %d of column '%s' (%s): cell '%s' is %srecorded as missing", r, short_(g.name).c_str(), ColumnTypeToString(e.type).c_str(), short_(x.text).c_str(), g.IsMissing(r) ? "" : "not "); continue; }
            if (!okv) sim::violation("value", where, "row %d of column '%s' (%s): text '%s' was loaded as '%s'", r, short_(g.name).c_str(), ColumnTypeToString(e.type).c_str(), short_(x.text).c_str(), short_(got).c_str());
        }
    }
}
enum { CSV = 0, TSV = 1, JSON = 2 };
// which public entry point; returns 1 loaded, 0 error reported, 3 broke its interface
static const char* api_name[] = {"LoadCSV", "LoadCSVSafe", "LoadCSV(options)", "LoadFromCSVString", "LoadTSV", "LoadTSVSafe", "LoadData", "LoadJSON", "LoadJSONSafe", "LoadFromJSONString", "LoadFromString"};
static int load(int api, int fmt, const std::string& fn, const std::string& text, bool header, Dataset& out, std::string* what, std::vector<std::string>* warn) {
    bool nothrow = api == 1 || api == 5 || api == 8;
    try {
        switch (api) {
        case 0: out = fmt == TSV ? LoadCSV(fn, header, '\t') : LoadCSV(fn, header); break;
        case 1: { auto r = LoadCSVSafe(fn, header, fmt == TSV ? '\t' : ','); if (!r.success) { *what = r.errorMessage; return 0; } out = r.data; break; }
        case 2: { CSVLoadOptions o; o.hasHeader = header; o.delimiter = fmt == TSV ? '\t' : ','; o.warnings = warn; out = LoadCSV(fn, o); break; }
        case 3: out = LoadFromCSVString(text, fmt == TSV ? '\t' : ',', header); break;
        case 4: out = LoadTSV(fn, header); break;
        case 5: { auto r = LoadTSVSafe(fn, header); if (!r.success) { *what = r.errorMessage; return 0; } out = r.data; break; }
        case 6: out = LoadData(fn, header); break;
        case 7: out = LoadJSON(fn); break;
        case 8: { auto r = LoadJSONSafe(fn); if (!r.success) { *what = r.errorMessage; return 0; } out = r.data; break; }
        case 9: out = LoadFromJSONString(text); break;
        default: out = LoadFromString(text, fmt == JSON ? DataFormat::JSON : fmt == TSV ? DataFormat::TSV : DataFormat::CSV, header); break;
        }
        return 1;
    } catch (const DataError& e) { *what = e.what(); return nothrow ? 3 : 0; }
    catch (const std::bad_alloc&) { *what = "bad_alloc"; return 3; }
    catch (const std::exception& e) { *what = std::string("not a DataError: ") + e.what(); return 3; }
    catch (...) { *what = "non-standard exception"; return 3; }
}
void scenario() {
    std::cerr.rdbuf(nullptr);
    sim::disk_no_faults(); sim::disk_arm(true); sim::alloc_limit((size_t)1 << 28);
    int fmt = w(3); bool big = w(5) == 0;
    Table t = gen_table(big, fmt == JSON);
    std::string text = fmt == JSON ? render_json(t) : render_csv(t, fmt == TSV ? '\t' : ',');
    static const char* ext[3][3] = {{"d.csv", "noext", "d.CSV"}, {"d.tsv", "d.tab", "d.TSV"}, {"d.json", "dir.x/d.json", "d.JSON"}};
    std::string fn = ext[fmt][w(3)];
    int api; if (fmt == JSON) { static const int a[] = {7, 8, 9, 10, 6}; api = a[w(5)]; } else if (fmt == TSV) { static const int a[] = {4, 5, 0, 1, 2, 3, 6, 10}; api = a[w(8)]; } else { static const int a[] = {0, 1, 2, 3, 6, 10}; api = a[w(6)]; }
    bool string_api = api == 3 || api == 9 || api == 10;
    const char* where = api_name[api]; sim::site("%s", where); sim::count((std::string("case:") + where + (fmt == JSON ? " JSON" : fmt == TSV ? " TSV" : " CSV")).c_str());
    int kind = sim::draw(sim::F, 6);    // 0,1 healthy (whole / chunked), 2 read error, 3 open error, 4 damaged text, 5 cut text
    bool damaged = false;
    if (kind == 4 && text.size()) { for (uint32_t k = 1 + sim::draw(sim::F, 4); k > 0; --k) { size_t p = sim::draw(sim::F, (uint32_t)text.size()); static const char ch[] = {'"', ',', '\n', '{', '}', '[', ']', ':', '\\', 0, '\t', '-', 'e', (char)0xff, 'u', '9'}; char c = ch[sim::draw(sim::F, 16)]; switch (sim::draw(sim::F, 4)) { case 0: text[p] = c; break; case 1: text.insert(p, 1, c); break; case 2: text.erase(p, 1 + sim::draw(sim::F, 9)); break; default: if (sim::draw(sim::F, 8) == 7) text.insert(p, std::string(200000, c)); else text.insert(p, std::string(3, c)); } if (text.empty()) break; } damaged = true; sim::count("fault:damaged_text"); }
    if (kind == 5) { text.resize(sim::draw(sim::F, (uint32_t)text.size() + 1)); damaged = true; sim::count("fault:crash_during_save"); }
    sim::disk_put(fn.c_str(), text.data(), text.size());
    sim::DiskPlan p; if (kind >= 1) { p.short_io = sim::draw(sim::F, 2); p.interrupt = sim::draw(sim::F, 2); }
    if (kind == 2) { p.read_fail_at = 1 + sim::draw(sim::F, 1 + (uint32_t)text.size() / 4000 + (p.short_io ? 4 : 2)); static const int er[] = {EIO, EISDIR, ESTALE}; p.read_errno = er[sim::draw(sim::F, 3)]; if (sim::draw(sim::F, 2)) p.read_fail_count = 1; }
    if (kind == 3) { p.open_fail_at = 1; static const int er[] = {ENOENT, EACCES, EMFILE, EIO}; p.open_errno = er[sim::draw(sim::F, 4)]; }
    sim::disk_plan(p);
    Dataset d; std::string what; std::vector<std::string> warn;
    int r = load(api, fmt, fn, text, t.header, d, &what, &warn);
    auto ds = sim::disk_stats(); bool io = ds.open_failed || ds.read_failed;
    sim::trace("outcome %d %s", r, what.c_str());
    if (t.rows || io) sim::nontrivial();
    sim::state(((uint64_t)api << 40) ^ (kind << 8) ^ r ^ ((uint64_t)t.cols.size() << 16) ^ ((uint64_t)t.rows << 20) ^ ((uint64_t)(t.cols.empty() ? 0 : (int)t.cols[0].type) << 32));
    if (sim::disk_handles()) sim::violation("handle-leak", where, "the file is still open after the load (outcome %d)", r);
    if (r == 3) { sim::violation("throws", where, "%s broke its error interface: %s (text '%s')", where, what.c_str(), short_(text).c_str()); return; }
    if (r == 0 && what.empty()) sim::violation("silent", where, "failed without an error message");
    if (damaged) { if (r == 1) rect(d, where); }
    else if (r == 1) { if (!string_api && ds.open_failed) sim::violation("phantom", where, "load of a file that cannot be opened succeeded");
        compare(d, t, where, text);
        if (api == 2) { size_t ragged = warn.size(); (void)ragged; } }
    else if (!io) sim::violation("false-failure", where, "%s rejects a well-formed document: %s; text '%s'", where, what.c_str(), short_(text).c_str());
    // a later load of the intact document gives the document (no state survives a failed load)
    if (!damaged && (io || r == 0)) { sim::disk_no_faults(); Dataset d2; int r2 = load(api, fmt, fn, text, t.header, d2, &what, &warn); if (r2 != 1) sim::violation("false-failure", where, "after a failed load, the intact file is rejected: %s", what.c_str()); else compare(d2, t, where, text); }
}
