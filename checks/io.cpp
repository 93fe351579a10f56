// File output and input against the simulated disk: C10, C11, C12, C14 (C13 is dataset.cpp).
#include "io_ops.h"
#include <set>
#ifndef CHECK
#error CHECK
#endif
#define STR2(x) #x
#define STR(x) STR2(x)
const char* const SIM_CHECK_ID = "C" STR(CHECK);
using namespace MML;
using sim::w;
static std::string hex(const std::string& s, size_t n = 60) { std::string r; char b[8]; for (size_t i = 0; i < s.size() && i < n; ++i) { unsigned char c = s[i]; if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
static std::string disk_content(const char* n) { std::string s; sim::disk_get(n, s); return s; }
static const int open_errs[] = {EACCES, ENOENT, EMFILE, ENOSPC, EROFS, EISDIR, EIO, EINTR, ENOMEM};
static const int write_errs[] = {EIO, ENOSPC, EDQUOT, EFBIG, EPIPE, EBADF};
static const int read_errs[] = {EIO, EISDIR, ESTALE, ENXIO};

#if CHECK == 10 || CHECK == 14
static void check_after(io::Case& c, const char* where, const char* phase) {
    if (sim::disk_handles()) sim::violation("handle-leak", where, "%d file handle(s) still open after %s (%s)", sim::disk_handles(), c.name.c_str(), phase);
}
#endif

#if CHECK == 10
void scenario() {
    io::quiet_cerr();
    sim::disk_no_faults(); sim::disk_arm(true);
    bool big = w(3) == 0;
    auto c = io::gen_case(big);
    const char* where = c->name.c_str();
    sim::site("%s", where);
    std::string what; what.reserve(4000); c->message.reserve(4000);
    int r0 = io::attempt(*c, "ref.dat", &what);
    if (r0 != 1) { sim::violation("fails-on-healthy-disk", where, "%s does not succeed on a healthy disk (outcome %d: %s)", where, r0, (what + c->message).c_str()); return; }
    check_after(*c, where, "healthy disk");
    std::string ref = disk_content("ref.dat");
    auto st = sim::disk_stats();
    sim::hash_bytes(ref.data(), ref.size());
    // the disk during the save under test
    sim::DiskPlan p; int kind = sim::draw(sim::F, 8); bool hard = true;
    uint32_t nw = (uint32_t)st.writes + 1;
    switch (kind) {
    case 0: hard = false; break;
    case 1: p.open_fail_at = 1; p.open_errno = open_errs[sim::draw(sim::F, 9)]; break;
    case 2: p.capacity = sim::draw(sim::F, (uint32_t)ref.size() + 1); break;
    case 3: p.write_fail_at = 1 + sim::draw(sim::F, nw); p.write_errno = write_errs[sim::draw(sim::F, 6)]; p.write_fail_count = 1; break;
    case 4: p.write_fail_at = 1 + sim::draw(sim::F, nw); p.write_errno = write_errs[sim::draw(sim::F, 6)]; break;
    case 5: p.close_fail_at = 1; p.close_errno = write_errs[sim::draw(sim::F, 6)]; break;
    case 6: p.capacity = ref.size() ? (int64_t)ref.size() - 1 - sim::draw(sim::F, (uint32_t)std::min<size_t>(ref.size(), 8)) : 0; if (p.capacity < 0) p.capacity = 0; break;
    case 7: p.capacity = ref.size() + sim::draw(sim::F, 3); break;      // just enough room
    }
    if (sim::draw(sim::F, 2)) { p.short_io = true; p.interrupt = sim::draw(sim::F, 2); }
    std::string old;
    if (w(3) == 0) { old.assign(w(400), 'o'); sim::disk_put("out.dat", old.data(), old.size()); }
    else sim::disk_put("out.dat", ref.data(), ref.size()), sim::disk_remove("out.dat");
    bool before = sim::disk_exists("out.dat");
    sim::disk_plan(p);
    sim::alloc_track(true);
    uint64_t mark = sim::alloc_mark();
    std::string fn = "out.dat";
    what.clear(); c->message.clear();
    int r = io::attempt(*c, fn, &what);
    uint64_t live = sim::alloc_live_since(mark);
    auto ds = sim::disk_stats();
    bool fired = ds.open_failed || ds.write_failed || ds.close_failed;
    std::string got = disk_content("out.dat");
    sim::trace("outcome %d", r);
    sim::count(("case:" + c->name).c_str());
    sim::state(((uint64_t)std::hash<std::string>()(c->name) << 8) ^ kind ^ (p.short_io << 4) ^ (r << 5));
    if (fired) sim::nontrivial();
    std::string place = c->name;
    const char* fk = ds.open_failed ? "open failure" : ds.close_failed ? "close failure" : ds.write_failed ? "write failure" : "no hard fault";
    check_after(*c, where, fk);
    if (r == 1 && got != ref) sim::violation("lost-data", where, "%s reported success after %s (capacity %lld), but the file holds %zu bytes, a complete save has %zu (old file %d)", where, fk, (long long)p.capacity, got.size(), ref.size(), (int)before);
    if (r != 1 && !fired) sim::violation("false-failure", where, "%s reported failure although the disk accepted everything (outcome %d: %s%s)", where, r, what.c_str(), c->message.c_str());
    if (c->kind != 2 && r >= 2) sim::violation("throws", where, "%s threw (%s) instead of reporting failure: %s", where, r == 2 ? "FileIOError" : "other", what.c_str());
    if (c->kind == 2 && r == 3) sim::violation("throws", where, "%s threw something other than its documented file error: %s", where, what.c_str());
    if (live > 6) sim::violation("leak", where, "%llu heap blocks survive a save (%s)", (unsigned long long)live, fk);
    // the disk is healthy again: the same call must now produce the complete file
    sim::disk_no_faults();
    c->message.clear(); what.clear();
    int r2 = io::attempt(*c, fn, &what);
    check_after(*c, where, "retry");
    if (r2 != 1) sim::violation("retry-fails", where, "%s fails on a healthy disk after an earlier %s: %s%s", where, fk, what.c_str(), c->message.c_str());
    else if (disk_content("out.dat") != ref) sim::violation("retry-differs", where, "%s repeated on a healthy disk writes different bytes than the first time", where);
    (void)hard;
}
#endif

#if CHECK == 14
void scenario() {
    io::quiet_cerr();
    sim::disk_no_faults(); sim::disk_arm(true);
    bool big = w(3) == 0;
    auto c = io::gen_case(big, true, w(6) == 5);
    const char* where = c->name.c_str();
    sim::site("%s", where); sim::count(("case:" + c->name).c_str());
    std::string what;
    if (c->bad) {
        int r = io::attempt(*c, "out.dat", &what); sim::count("fault:incomplete_data"); sim::nontrivial();
        if (r == 1) sim::violation("incomplete-data", where, "%s reports success although a requested sample was never supplied", where);
        if (sim::disk_handles()) sim::violation("handle-leak", where, "file left open by %s", where);
        return;
    }
    sim::DiskPlan p; if (sim::draw(sim::F, 2)) { p.short_io = true; p.interrupt = sim::draw(sim::F, 2); }
    bool first_throws = c->user && c->user_calls > 0 && sim::draw(sim::F, 2);
    auto throwing = [&]() {
        c->user->calls = 0; c->user->throw_at = 1 + sim::draw(sim::F, (uint32_t)c->user_calls); c->user->throw_kind = sim::draw(sim::F, 3);
        sim::disk_no_faults();
        int r = io::attempt(*c, "out.dat", &what);
        bool fired = c->user->calls >= c->user->throw_at;
        c->user->throw_at = 0; c->user->calls = 0;
        sim::nontrivial();
        if (r == 1 && fired) sim::violation("swallowed-exception", where, "%s reports success although the user function threw", where);
        if (sim::disk_handles()) sim::violation("handle-leak", where, "file left open after the user function threw in %s", where);
    };
    if (first_throws) throwing();
    sim::disk_plan(p);
    int r = io::attempt(*c, "out.dat", &what);
    if (r != 1) { sim::violation("fails-on-healthy-disk", where, "%s does not succeed on a healthy disk (outcome %d: %s%s)", where, r, what.c_str(), c->message.c_str()); return; }
    std::string text = disk_content("out.dat");
    sim::hash_bytes(text.data(), text.size());
    sim::state(std::hash<std::string>()(c->name) ^ (text.size() << 20) ^ std::hash<std::string>()(text.substr(0, 200)));
    std::string diff = io::compare(text, c->lines, c->prec);
    if (!diff.empty()) { sim::trace("%s", hex(text, 400).c_str()); sim::violation("content", where, "%s: %s", where, diff.c_str()); }
    if (c->lines.size() > 4) sim::nontrivial();
    if (!first_throws && c->user && c->user_calls > 0 && sim::draw(sim::F, 2)) throwing();
    sim::disk_no_faults();
    if (c->user) c->user->calls = 0;
    r = io::attempt(*c, "again.dat", &what);
    if (r != 1 || disk_content("again.dat") != text) sim::violation("not-repeatable", where, "%s repeated with the same arguments writes a different file (outcome %d)", where, r);
}
#endif

// ------------------------------------------------------------------ loaders
#if CHECK == 11 || CHECK == 12
template <class E> struct Obj { int r = 0, c = 0; std::vector<E> e; };
template <class E> bool same(const Obj<E>& a, const Obj<E>& b) { return a.r == b.r && a.c == b.c && a.e.size() == b.e.size() && (a.e.empty() || !memcmp(a.e.data(), b.e.data(), a.e.size() * sizeof(E))); }
inline bool near6(double g, double v) { return g == v || io::num_eq(g, v, 6); }
inline bool near6(float g, float v) { return io::num_eq(g, v, 6) || std::fabs(g - v) <= 1e-6f * std::fabs(v); }
inline bool near6(int g, int v) { return g == v; }
inline bool near6(const Complex& g, const Complex& v) { return near6(g.real(), v.real()) && near6(g.imag(), v.imag()); }
template <class E> bool similar(const Obj<E>& a, const Obj<E>& b) { if (a.r != b.r || a.c != b.c || a.e.size() != b.e.size()) return false; for (size_t i = 0; i < a.e.size(); ++i) if (!near6(a.e[i], b.e[i])) return false; return true; }
template <class E> std::string show(const Obj<E>& o) { std::ostringstream s; s.precision(17); s << o.r << "x" << o.c << " ["; for (size_t i = 0; i < o.e.size() && i < 6; ++i) s << o.e[i] << " "; s << "]"; return s.str(); }
template <class E> Obj<E> from(const Vector<E>& v) { Obj<E> o; o.r = v.size(); o.c = 1; for (int i = 0; i < v.size(); ++i) o.e.push_back(v[i]); return o; }
template <class E> Obj<E> from(const Matrix<E>& m) { Obj<E> o; o.r = m.rows(); o.c = m.cols(); for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) o.e.push_back(m(i, j)); return o; }
template <class E> Obj<E> from(const std::vector<E>& v) { Obj<E> o; o.r = (int)v.size(); o.c = 1; o.e = v; return o; }
template <class E> Vector<E> to_vec(const Obj<E>& o) { Vector<E> v((int)o.e.size()); for (size_t i = 0; i < o.e.size(); ++i) v[(int)i] = o.e[i]; return v; }
template <class E> Matrix<E> to_mat(const Obj<E>& o) { Matrix<E> m(o.r, o.c); for (int i = 0; i < o.r; ++i) for (int j = 0; j < o.c; ++j) m(i, j) = o.e[(size_t)i * o.c + j]; return m; }

enum Fm { VBIN, VTXT, MTXT, MCSV, MBIN, CBIN, NFM };
static const char* fm_name[] = {"Vector binary", "Vector text", "Matrix text", "Matrix CSV", "Matrix binary", "complex vector binary"};
static bool is_text(int f) { return f == VTXT || f == MTXT || f == MCSV; }
static bool is_mat(int f) { return f == MTXT || f == MCSV || f == MBIN; }

template <class E> struct real_of { using T = E; };
template <class T> struct real_of<std::complex<T>> { using T_ = T; using R = T; };

template <class E> bool save(int f, const Obj<E>& o, const std::string& fn) {
    switch (f) {
    case VBIN: return Vector<E>::SaveToBinary(to_vec(o), fn);
    case VTXT: return Vector<E>::SaveToFile(to_vec(o), fn);
    case MTXT: return Serializer::SaveMatrixToFile(to_mat(o), fn);
    case MCSV: return Serializer::SaveMatrixToCSV(to_mat(o), fn);
    case MBIN: return Serializer::SaveMatrixToBinary(to_mat(o), fn);
    default: if constexpr (std::is_same_v<E, Complex>) { return Serializer::SaveComplexVector(o.e, fn); } else if constexpr (std::is_same_v<E, double>) { int k = w(2); return k ? Serializer::SaveRealAsComplex(o.e, fn) : Serializer::SaveVectorAsComplex(to_vec(o), fn); } else return false;
    }
}
// 1 loaded, 0 failure reported (false or an exception of a standard type)
template <class E> int load(int f, const std::string& fn, Obj<E>& o, int pre, std::string* what) {
    try {
        switch (f) {
        case VBIN: case VTXT: { Vector<E> v(pre); if (!(f == VBIN ? Vector<E>::LoadFromBinary(fn, v) : Vector<E>::LoadFromFile(fn, v))) return 0; o = from(v); return 1; }
        case MTXT: case MCSV: case MBIN: { Matrix<E> m(pre ? pre : 1, pre ? pre + 1 : 1); if (!(f == MTXT ? Serializer::LoadMatrixFromFile(fn, m) : f == MCSV ? Serializer::LoadMatrixFromCSV(fn, m) : Serializer::LoadMatrixFromBinary(fn, m))) return 0; o = from(m); return 1; }
        default:
            if constexpr (std::is_same_v<E, Complex>) { std::vector<Complex> v(pre); if (!Serializer::LoadComplexVector(fn, v)) return 0; o = from(v); return 1; }
            else if constexpr (std::is_same_v<E, double>) { if (pre & 1) { std::vector<double> v(pre); if (!Serializer::LoadComplexAsReal(fn, v)) return 0; o = from(v); } else { Vector<double> v(pre); if (!Serializer::LoadComplexAsVector(fn, v)) return 0; o = from(v); } return 1; }
            else return 0;
        }
    } catch (const std::bad_alloc&) { *what = "bad_alloc"; return 3; }
    catch (const std::exception& e) { *what = e.what(); return 0; }
    catch (...) { *what = "non-standard exception"; return 3; }
}
template <class E> Obj<E> gen_obj(int f, bool big, bool special = true) {
    if (is_mat(f)) return from(io::gen_mat<E>(big ? 26 : 5, special));
    return from(io::gen_vec<E>(big ? 500 : 9, special));
}
// what the format says a text element reads back as
inline std::string label(int f, const char* ty) { return std::string(fm_name[f]) + " <" + ty + ">"; }
template <class E> const char* tyname() { return std::is_same_v<E, double> ? "double" : std::is_same_v<E, float> ? "float" : std::is_same_v<E, int> ? "int" : "Complex"; }
#endif

#if CHECK == 11
// Reference decoder. 0: the bytes do not contain everything they declare; 1: they do, out is the content.
template <class E> int decode(int f, const std::string& b, Obj<E>& out) {
    auto u32 = [&](size_t p) { uint32_t v = 0; memcpy(&v, b.data() + p, 4); return v; };
    if (f == VBIN || f == MBIN || f == CBIN) {
        size_t hs = f == MBIN ? 24 : 16; if (b.size() < hs) return 0;
        uint32_t magic = f == VBIN ? 0x4D4D4C56u : f == MBIN ? 0x4D4D4C4Du : 0x4D4D4C43u;
        if (u32(0) != magic || u32(4) != 1) return 0;
        uint64_t r = u32(8), c = f == MBIN ? u32(12) : 1; uint32_t es = u32(f == MBIN ? 16 : 12);
        uint32_t want = f == CBIN ? 8 : sizeof(E); if (es != want) return 0;
        if (f == MBIN && (!r || !c || r > 100000 || c > 100000)) return 0;
        uint64_t bytes = r * c * es * (f == CBIN ? 2 : 1); if (b.size() - hs < bytes) return 0;
        out.r = (int)r; out.c = (int)c; out.e.resize(r * c);
        if (f != CBIN) { if (bytes) memcpy((void*)out.e.data(), b.data() + hs, bytes); }
        else for (uint64_t i = 0; i < r; ++i) { double re, im; memcpy(&re, b.data() + hs + 8 * i, 8); memcpy(&im, b.data() + hs + 8 * (r + i), 8); if constexpr (std::is_same_v<E, Complex>) out.e[i] = Complex(re, im); else out.e[i] = (E)re; }
        return 1;
    }
    std::istringstream is(b);
    if (f == VTXT) { unsigned long long n; if (!(is >> n)) return 0; if (n > b.size()) return 0; out.r = (int)n; out.c = 1; for (size_t i = 0; i < n; ++i) { E v{}; if (!(is >> v)) return 0; out.e.push_back(v); } return 1; }
    if (f == MTXT) { int r, c; if (!(is >> r >> c) || r <= 0 || c <= 0 || (uint64_t)r * c > b.size()) return 0; out.r = r; out.c = c; for (size_t i = 0; i < (size_t)r * c; ++i) { E v{}; if (!(is >> v)) return 0; out.e.push_back(v); } return 1; }
    std::string line; size_t cols = 0;
    while (std::getline(is, line)) {
        std::vector<E> row; std::istringstream ls(line); std::string cell;
        while (std::getline(ls, cell, ',')) { std::istringstream cs(cell); E v{}; if (!(cs >> v)) return 0; row.push_back(v); }
        if (row.empty()) continue;
        if (out.r && row.size() != cols) return 0;
        cols = row.size(); out.r++; out.c = (int)cols; out.e.insert(out.e.end(), row.begin(), row.end());
    }
    return out.r ? 1 : 0;
}
template <class E> void run(int f) {
    bool big = w(4) == 0;
    Obj<E> o = gen_obj<E>(f, big);
    if (f == CBIN && std::is_same_v<E, double>) {}
    std::string nm = label(f, tyname<E>()); const char* where = nm.c_str();
    sim::site("save %s", where); sim::count(("case:load " + nm).c_str());
    if (!save(f, o, "x.dat")) { sim::violation("fails-on-healthy-disk", where, "saving %s fails on a healthy disk", where); return; }
    sim::disk_no_faults();
    std::string b = disk_content("x.dat"); size_t n = b.size();
    sim::DiskPlan p; const char* dmg = "none"; bool damaged = true; int kind = sim::draw(sim::F, 9);
    switch (kind) {
    case 0: damaged = false; break;
    case 1: { size_t at = sim::draw(sim::F, (uint32_t)n + 1); b.resize(at); dmg = "cut short"; sim::count("fault:crash_during_save"); break; }       // crash: a prefix survived
    case 2: { size_t k = 1 + sim::draw(sim::F, 16); b.resize(n > k ? n - k : 0); dmg = "tail lost"; sim::count("fault:crash_during_save"); break; }
    case 3: if (n) { size_t at = sim::draw(sim::F, (uint32_t)std::min<size_t>(n, 24)); b[at] ^= 1 << sim::draw(sim::F, 8); dmg = "header bit flipped"; sim::count("fault:header_corruption"); } break;
    case 4: if (!is_text(f) && n >= 16) { size_t at = 4 * sim::draw(sim::F, f == MBIN ? 6 : 4); static const uint32_t vals[] = {0, 1, 0xFFFFFFFF, 0x7FFFFFFF, 0x80000000, 100000, 65536, 99999, 5, 1000}; uint32_t v = vals[sim::draw(sim::F, 10)]; memcpy(&b[at], &v, 4);
                // two fields at once: a row and a column count, each acceptable, whose product does not fit 32 bits and wraps to what the file holds
                if (f == MBIN && sim::draw(sim::F, 2)) { static const uint32_t pr[][2] = {{65536, 65536}, {99999, 100000}, {32768, 131072}, {1u << 20, 4096}, {65536, 0}, {0, 65536}, {65537, 65535}, {3, 2863311531u}, {641, 6700417}}; auto* q = pr[sim::draw(sim::F, 9)]; memcpy(&b[8], q, 4); memcpy(&b[12], q + 1, 4); }
                dmg = "header field replaced"; sim::count("fault:header_corruption"); }
            else if (n) { size_t e = b.find_first_of(" \n"); static const char* vals[] = {"99999", "-1", "0", "1", "x", "18446744073709551615", "2147483648", "1e3", "", "100000 100000", "7"}; if (e != std::string::npos && f != MCSV) { b.replace(0, e, vals[sim::draw(sim::F, 11)]); dmg = "declared size replaced"; sim::count("fault:header_corruption"); } } break;
    case 5: p.read_fail_at = 1 + sim::draw(sim::F, big ? 6 : 3); p.read_errno = read_errs[sim::draw(sim::F, 4)]; if (sim::draw(sim::F, 2)) p.read_fail_count = 1; dmg = "read error"; break;
    case 6: if (n) { size_t at = sim::draw(sim::F, (uint32_t)n); static const char ch[] = {'x', ' ', '\n', ',', '-', 0, '.', 'e', '"', (char)255}; b[at] = ch[sim::draw(sim::F, 10)]; dmg = "byte replaced"; sim::count("fault:data_corruption"); } break;
    case 7: { size_t at = sim::draw(sim::F, (uint32_t)n + 1); size_t len = 1 + sim::draw(sim::F, 64); for (size_t i = at; i < n && i < at + len; ++i) b[i] = 0; dmg = "block of zeros"; sim::count("fault:torn_write"); break; }
    case 8: p.open_fail_at = 1; p.open_errno = open_errs[sim::draw(sim::F, 9)]; dmg = "cannot be opened"; break;
    }
    if (sim::draw(sim::F, 2)) { p.short_io = true; p.interrupt = sim::draw(sim::F, 2); }
    sim::disk_put("x.dat", b.data(), b.size());
    Obj<E> want; int dec = decode<E>(f, b, want);
    if (!damaged && dec != 1) sim::violation("bad-file", where, "the file saved as %s does not follow its documented layout", where);
    if (!damaged && !(is_text(f) ? similar(want, o) : same(want, o))) sim::violation("bad-file", where, "the file saved as %s holds %s instead of %s", where, show(want).c_str(), show(o).c_str());
    int pre = w(5);
    sim::disk_plan(p);
    sim::site("load %s", where);
    std::string what; what.reserve(2000);
    uint64_t live0 = sim::alloc_stats().live_bytes; sim::alloc_peak_reset();
    Obj<E> got; int r = load<E>(f, "x.dat", got, pre, &what);
    auto as = sim::alloc_stats(); auto ds = sim::disk_stats();
    bool io_fault = ds.open_failed || ds.read_failed;
    sim::trace("damage: %s, outcome %d, decodable %d", dmg, r, dec);
    sim::state(((uint64_t)f << 40) ^ (kind << 8) ^ (r << 4) ^ dec ^ ((uint64_t)std::min<size_t>(b.size(), 4095) << 16));
    if (damaged) sim::nontrivial();
    uint64_t bound = 64 * (uint64_t)std::max(b.size(), n) + 65536;
    if (as.max_request > bound || as.peak_bytes - live0 > bound) sim::violation("memory", where, "loading %s from a file of %zu bytes (%s) asked for %llu bytes at once, %llu in total", where, b.size(), dmg, (unsigned long long)as.max_request, (unsigned long long)(as.peak_bytes - live0));
    if (sim::disk_handles()) sim::violation("handle-leak", where, "%d handle(s) left open by loading %s (%s)", sim::disk_handles(), where, dmg);
    if (r == 3) { sim::violation("throws", where, "loading %s (%s) threw %s", where, dmg, what.c_str()); return; }
    if (r == 1 && dec == 0) sim::violation("wrong-data", where, "loading %s (%s) reports success, but the file does not contain what it declares; got %s from '%s'", where, dmg, show(got).c_str(), hex(b).c_str());
    if (r == 1 && dec == 1 && !same(got, want)) sim::violation("wrong-data", where, "loading %s (%s) reports success with %s, the file holds %s", where, dmg, show(got).c_str(), show(want).c_str());
    if (r == 1 && ds.open_failed) sim::violation("wrong-data", where, "loading %s reports success although the file could not be opened", where);
    if (r == 0 && !damaged && !io_fault) sim::violation("false-failure", where, "loading an intact %s fails: %s", where, what.c_str());
    sim::disk_no_faults();
    sim::disk_remove("y.dat");
    Obj<E> no; if (load<E>(f, "y.dat", no, pre, &what) == 1) sim::violation("wrong-data", where, "loading %s from a file that does not exist reports success", where);
}
void scenario() {
    io::quiet_cerr(); sim::disk_no_faults(); sim::disk_arm(true); sim::alloc_limit((size_t)1 << 28);
    int f = w(NFM);
    if (f == CBIN) { if (w(2)) run<double>(f); else run<Complex>(f); return; }
    switch (w(f == MCSV ? 3 : 4)) { case 0: run<double>(f); break; case 1: run<float>(f); break; case 2: run<int>(f); break; default: run<Complex>(f); }
}
#endif

#if CHECK == 12
struct Slot { int state = 0; /*0 missing 1 known 2 unknown*/ int f = 0, ty = 0; Obj<double> d; Obj<float> fl; Obj<int> i; Obj<Complex> c; };
template <class E> Obj<E>& part(Slot& s) { if constexpr (std::is_same_v<E, double>) return s.d; else if constexpr (std::is_same_v<E, float>) return s.fl; else if constexpr (std::is_same_v<E, int>) return s.i; else return s.c; }
static const int NS = 5; static Slot slot[NS]; static const char* fname[NS] = {"a", "a.dat", "b.csv", "dir/a", "B.CSV"};
static int last_saved = -1;
static void benign() { sim::DiskPlan p; p.short_io = sim::draw(sim::F, 2); p.interrupt = sim::draw(sim::F, 2); sim::disk_plan(p); }
template <class E> void do_save(int s, int f, int ty, bool faulty) {
    Obj<E> o = gen_obj<E>(f, w(5) == 0); std::string nm = label(f, tyname<E>()); sim::site("save %s", nm.c_str());
    if (faulty) { sim::DiskPlan p; if (sim::draw(sim::F, 2)) { p.open_fail_at = 1; p.open_errno = EACCES; } else p.capacity = sim::draw(sim::F, 64); sim::disk_plan(p); } else benign();
    bool okr = save(f, o, fname[s]);
    auto ds = sim::disk_stats();
    sim::disk_no_faults();
    sim::trace("save %s as %s (%dx%d): %d", fname[s], nm.c_str(), o.r, o.c, (int)okr);
    if (!okr) { if (!faulty) sim::violation("fails-on-healthy-disk", nm.c_str(), "saving %s failed under short writes and interruptions only", nm.c_str()); if (!ds.open_failed) slot[s].state = 2; return; }
    slot[s] = Slot(); slot[s].state = 1; slot[s].f = f; slot[s].ty = ty; part<E>(slot[s]) = o; last_saved = s;
    sim::count(("case:round trip " + nm).c_str());
}
template <class E> void do_load(int s) {
    Slot& S = slot[s]; std::string nm = label(S.f, tyname<E>()); sim::site("load %s", nm.c_str()); std::string what; benign();
    Obj<E> g; int r = load<E>(S.f, fname[s], g, w(4), &what); sim::disk_no_faults();
    sim::trace("load %s: %d", fname[s], r);
    if (r != 1) sim::violation("cannot-load", nm.c_str(), "loading what was saved as %s fails: %s (content %s)", nm.c_str(), what.c_str(), show(part<E>(S)).c_str());
    else if (!(is_text(S.f) ? similar(g, part<E>(S)) : same(g, part<E>(S)))) sim::violation("round-trip", nm.c_str(), "saved %s, loaded %s as %s", show(part<E>(S)).c_str(), show(g).c_str(), nm.c_str());
    sim::count("loads_checked"); if (last_saved != s) sim::nontrivial();
}
template <class E> void load_wrong(int s) {    // asking for another binary kind must be refused
    Slot& S = slot[s]; std::string what; Obj<E> g; int f2 = w(3) == 0 ? VBIN : w(2) ? MBIN : CBIN; if (f2 == CBIN && !(std::is_same_v<E, double> || std::is_same_v<E, Complex>)) return;
    if (is_text(S.f)) return;
    bool compatible = f2 == S.f && (f2 == CBIN || sizeof(E) == (S.ty == 0 ? 8 : S.ty == 1 ? 4 : S.ty == 2 ? 4 : 16)); if (compatible) return;
    benign(); std::string nm = label(f2, tyname<E>()); sim::site("load %s", nm.c_str());
    if (load<E>(f2, fname[s], g, w(4), &what) == 1) sim::violation("wrong-kind", nm.c_str(), "a file saved as %s was accepted as %s", fm_name[S.f], nm.c_str());
    sim::disk_no_faults(); sim::count("wrong_kind_loads");
}
void scenario() {
    io::quiet_cerr(); sim::disk_no_faults(); sim::disk_arm(true); sim::alloc_limit((size_t)1 << 28);
    int n = 3 + w(22);
    for (int k = 0; k < n; ++k) {
        int s = w(NS); uint32_t op = w(10);
        if (op < 5) {
            int f = w(NFM), ty = f == CBIN ? 3 * w(2) : w(f == MCSV ? 3 : 4); bool faulty = sim::draw(sim::F, 8) == 7;
            switch (ty) { case 0: do_save<double>(s, f, ty, faulty); break; case 1: do_save<float>(s, f, ty, faulty); break; case 2: do_save<int>(s, f, ty, faulty); break; default: do_save<Complex>(s, f, ty, faulty); }
        } else {
            Slot& S = slot[s];
            if (S.state == 2) continue;
            if (S.state == 0) { std::string what; Obj<double> g; int f = w(NFM); sim::site("load %s", fm_name[f]); if (load<double>(f, fname[s], g, 0, &what) == 1) sim::violation("phantom", fm_name[f], "loading '%s', which was never saved, succeeds", fname[s]); continue; }
            if (op == 9) { switch (w(4)) { case 0: load_wrong<double>(s); break; case 1: load_wrong<float>(s); break; case 2: load_wrong<int>(s); break; default: load_wrong<Complex>(s); } continue; }
            switch (S.ty) { case 0: do_load<double>(s); break; case 1: do_load<float>(s); break; case 2: do_load<int>(s); break; default: do_load<Complex>(s); }
        }
        if (sim::disk_handles()) sim::violation("handle-leak", sim::current_site(), "a file handle is still open after the operation");
    }
    // everything known is still there
    for (int s = 0; s < NS; ++s) if (slot[s].state == 1) switch (slot[s].ty) { case 0: do_load<double>(s); break; case 1: do_load<float>(s); break; case 2: do_load<int>(s); break; default: do_load<Complex>(s); }
    uint64_t h = 0; for (int s = 0; s < NS; ++s) h = h * 64 + slot[s].state * 24 + slot[s].f * 4 + slot[s].ty; sim::state(h);
}
#endif
