/*
 * Replays sequences of library calls and records what each call returned.
 *
 *   driver CALLS TRACE [JOBS]
 *
 * CALLS holds sessions ("# id") of lines "op token token ..."; TRACE gets the same sessions, each line
 * "op args | results ." in the order of the input. Tokens: d<hex> double, i<int>, b0/b1, s<urlencoded>, and
 * "$n.m" = result m (from 1) of call n (from 1) of the same session. "op*N" makes the call N times and records the first
 * outcome that differs from the first, or else the common one. Every session runs in a forked child, so it starts
 * from the state of a fresh process, and a call that kills the process is recorded as "| !SIG<n>" without the final ".".
 * Output arguments are pre-filled with recognisable values; arrays have guard elements around them, and input arrays are
 * compared with a copy after the call: a touched guard or input is recorded as the result "!GUARD" / "!INPUT".
 */
#include "slalib.h"
#include <cstdio>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cinttypes>
#include <atomic>
#include <chrono>
#include <cmath>
#include <set>
#include <thread>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>

using std::string;
using std::vector;
using namespace sla;

static const double DSENT = -987654321.25;
static const float FSENT = -98765.25f;
static const int ISENT = -424242;

struct Bad { string what; };

static thread_local vector<string> in_;      // argument tokens of the current call
static thread_local size_t at_;              // next token
static thread_local string args_;            // echo of the arguments
static thread_local vector<string> outs_;    // result tokens of this call
static thread_local bool guard_bad_, input_bad_;

static string dtok(double x) { uint64_t u; std::memcpy(&u, &x, 8); char b[32]; std::snprintf(b, 32, "d%016" PRIx64, u); return b; }
static string ftok(float x) { uint32_t u; std::memcpy(&u, &x, 4); char b[32]; std::snprintf(b, 32, "f%08" PRIx32, u); return b; }

static string url_dec(const string& s) {
    string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%') { r += (char) std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else if (s[i] == '+') r += ' ';
        else r += s[i];
    }
    return r;
}
static string url_enc(const char* s) {
    string r; char b[8];
    for (; *s; s++) {
        unsigned char c = *s;
        if (std::isalnum(c) || c == '.' || c == '-' || c == '_' || c == '*') r += c;
        else if (c == ' ') r += '+';
        else { std::snprintf(b, 8, "%%%02X", c); r += b; }
    }
    return r;
}
static string tok() { if (at_ >= in_.size()) throw Bad{"too few arguments"}; return in_[at_++]; }
static double num(const string& t) {
    if (t[0] == 'd') { uint64_t u = std::strtoull(t.c_str() + 1, nullptr, 16); double x; std::memcpy(&x, &u, 8); return x; }
    if (t[0] == 'f') { uint32_t u = (uint32_t) std::strtoul(t.c_str() + 1, nullptr, 16); float x; std::memcpy(&x, &u, 4); return x; }
    if (t[0] == 'i') return (double) std::strtol(t.c_str() + 1, nullptr, 10);
    throw Bad{"not a number: " + t};
}
static double D() { double x = num(tok()); args_ += " " + dtok(x); return x; }
static float F() { float x = (float) num(tok()); args_ += " " + ftok(x); return x; }
static int I() { int x = (int) num(tok()); args_ += " i" + std::to_string(x); return x; }
static bool B() { string t = tok(); args_ += " " + t; return t == "b1"; }
static string S() { string t = tok(); args_ += " " + t; return url_dec(t.substr(1)); }

static void put(const string& t) { outs_.push_back(t); }
static void o(double x) { put(dtok(x)); }
static void o(float x) { put(ftok(x)); }
static void o(int x) { put("i" + std::to_string(x)); }
static void o(bool x) { put(x ? "b1" : "b0"); }
static void o(const char* s) { put("s" + url_enc(s)); }

// what a flag holds before the call: either value, by the arguments
inline bool mark(double x) { return static_cast<long long>((x < 0 ? -x : x) * 1000.0) % 2 != 0; }
template<class T> struct Sent;
template <> struct Sent<double> { static double v() { return DSENT; } static double r() { return D(); } };
template <> struct Sent<float> { static float v() { return FSENT; } static float r() { return F(); } };
template <> struct Sent<int> { static int v() { return ISENT; } static int r() { return I(); } };

// an array of n elements with guards on both sides
template <class T> struct Arr {
    static const int G = 8;
    vector<T> d, keep; int n;
    explicit Arr(int n_, bool read = false) : d(n_ + 2 * G, Sent<T>::v()), n(n_) {
        if (read) for (int i = 0; i < n; i++) d[G + i] = Sent<T>::r();
        keep = d;
    }
    T* p() { return d.data() + G; }
    T& operator[](int i) { return d[G + i]; }
    void guards() {
        for (int i = 0; i < G; i++) {
            if (std::memcmp(&d[i], &keep[i], sizeof(T)) || std::memcmp(&d[G + n + i], &keep[G + n + i], sizeof(T))) guard_bad_ = true;
        }
    }
    void same() { guards(); if (std::memcmp(d.data(), keep.data(), d.size() * sizeof(T))) input_bad_ = true; }
    void out() { guards(); for (int i = 0; i < n; i++) o(d[G + i]); }
};
template <class T> using V3 = T (*);

using Vd = Arr<double>;
using Vf = Arr<float>;
template <class T> static T (*mat3(Arr<T>& a))[3] { return reinterpret_cast<T (*)[3]>(a.p()); }

template <class T> static Spherical<T> sph() { Spherical<T> s; s.set_longitude(Sent<T>::r()); s.set_latitude(Sent<T>::r()); return s; }
template <class T> static Spherical<T> sph0() { Spherical<T> s; s.set_longitude(Sent<T>::v()); s.set_latitude(Sent<T>::v()); return s; }
template <class T> static void osph(const Spherical<T>& s) { o(s.get_longitude()); o(s.get_latitude()); }
template <class T> static VectorPV<T> pvin() { VectorPV<T> v; T a[6]; for (T& x : a) x = Sent<T>::r(); v.set_x(a[0]); v.set_y(a[1]); v.set_z(a[2]); v.set_dx(a[3]); v.set_dy(a[4]); v.set_dz(a[5]); return v; }
template <class T> static VectorPV<T> pv0() { VectorPV<T> v; T s = Sent<T>::v(); v.set_x(s); v.set_y(s); v.set_z(s); v.set_dx(s); v.set_dy(s); v.set_dz(s); return v; }
template <class T> static void opv(const VectorPV<T>& v) { o(v.get_x()); o(v.get_y()); o(v.get_z()); o(v.get_dx()); o(v.get_dy()); o(v.get_dz()); }

static FitCoeffs fc_in() { FitCoeffs m; for (int i = 0; i < 6; i++) m[i] = D(); return m; }
static FitCoeffs fc0() { FitCoeffs m; for (int i = 0; i < 6; i++) m[i] = DSENT; return m; }
static void ofc(FitCoeffs& m) { for (int i = 0; i < 6; i++) o(m[i]); }

static void ocr(const ConversionResult& c) {
    char s[2] = {c.get_sign(), 0};
    o(s); o(c.get_hours()); o(c.get_minutes()); o(c.get_seconds()); o(c.get_fraction());
}
static ConversionResult cr0() { ConversionResult c; c.set_hours(ISENT); c.set_minutes(ISENT); c.set_seconds(ISENT); c.set_fraction(ISENT); c.set_sign(true); return c; }

typedef std::map<string, std::function<void()>> Ops;

// Value objects that live through a session: each is written through one named setter at a time and observed through
// all of its getters and views.
struct Object { virtual ~Object() {} virtual void make() = 0; virtual void set(const string& f) = 0; virtual void view() = 0; virtual Object* copy() const = 0; };
#define SETTERS(...) void set(const string& f) override { __VA_ARGS__ throw Bad{"no field " + f}; }
#define SET(name, value) if (f == #name) { v.set_##name(value); return; }
template <class T> static T val() { return Sent<T>::r(); }
template <class C, class D> struct ObjectOf : Object { C v; Object* copy() const override { return new D(static_cast<const D&>(*this)); } };
template <class T, class C, class D> struct SphLike : ObjectOf<C, D> {
    bool put2(const string& f) {
        C& v = this->v;
        if (f == "longitude") v.set_longitude(val<T>()); else if (f == "ra") v.set_ra(val<T>()); else if (f == "ha") v.set_ha(val<T>());
        else if (f == "latitude") v.set_latitude(val<T>()); else if (f == "dec") v.set_dec(val<T>()); else return false;
        return true;
    }
    void view2() { const C& v = this->v; o(v.get_longitude()); o(v.get_ra()); o(v.get_ha()); o(v.get_latitude()); o(v.get_dec()); o(v.s_a); o(v.s_b); }
};
template <class T> struct SphObj : SphLike<T, Spherical<T>, SphObj<T>> {
    void make() override { T a = val<T>(), b = val<T>(); this->v = Spherical<T>{a, b}; }
    void set(const string& f) override { if (!this->put2(f)) throw Bad{"no field " + f}; }
    void view() override { this->view2(); }
};
template <class T> struct PosObj : SphLike<T, SphericalPos<T>, PosObj<T>> {
    void make() override { SphericalPos<T>& v = this->v; v.s_a = val<T>(); v.s_b = val<T>(); v.sp_dist = val<T>(); }
    void set(const string& f) override { if (f == "dist") this->v.set_dist(val<T>()); else if (!this->put2(f)) throw Bad{"no field " + f}; }
    void view() override { this->view2(); o(this->v.get_dist()); o(this->v.sp_dist); }
};
template <class T> struct VpvObj : ObjectOf<VectorPV<T>, VpvObj<T>> {
    using ObjectOf<VectorPV<T>, VpvObj<T>>::v;
    void make() override { T p[3], q[3]; for (T& x : p) x = val<T>(); for (T& x : q) x = val<T>(); v = VectorPV<T>(p, q); }
    SETTERS(SET(x, val<T>()) SET(y, val<T>()) SET(z, val<T>()) SET(dx, val<T>()) SET(dy, val<T>()) SET(dz, val<T>()))
    void view() override {
        o(v.get_x()); o(v.get_y()); o(v.get_z()); o(v.get_dx()); o(v.get_dy()); o(v.get_dz());
        for (int i = 0; i < 3; i++) o(v.get_position()[i]);
        for (int i = 0; i < 3; i++) o(v.get_velocity()[i]);
    }
};
template <class T> struct SpvObj : ObjectOf<SphericalPV<T>, SpvObj<T>> {
    using ObjectOf<SphericalPV<T>, SpvObj<T>>::v;
    void make() override { SphericalPos<T> p, q; for (SphericalPos<T>* x : {&p, &q}) { x->s_a = val<T>(); x->s_b = val<T>(); x->sp_dist = val<T>(); } v = SphericalPV<T>(p, q); }
    SETTERS(SET(longitude, val<T>()) SET(ra, val<T>()) SET(latitude, val<T>()) SET(dec, val<T>()) SET(dist, val<T>())
            SET(dlong, val<T>()) SET(dra, val<T>()) SET(dlat, val<T>()) SET(ddec, val<T>()) SET(ddist, val<T>()))
    void view() override {
        o(v.get_longitude()); o(v.get_ra()); o(v.get_latitude()); o(v.get_dec()); o(v.get_dist());
        o(v.get_dlong()); o(v.get_dra()); o(v.get_dlat()); o(v.get_ddec()); o(v.get_ddist());
        o(v.get_direction().get_longitude()); o(v.get_direction().get_latitude());
        o(v.get_position().get_longitude()); o(v.get_position().get_latitude()); o(v.get_position().get_dist());
        o(v.get_velocity().get_longitude()); o(v.get_velocity().get_latitude()); o(v.get_velocity().get_dist());
    }
};
struct MountObj : ObjectOf<AltazMount, MountObj> {
    void make() override {
        v.set_azimuth(D()); v.set_az_velocity(D()); v.set_az_acceleration(D()); v.set_elevation(D()); v.set_el_velocity(D());
        v.set_el_acceleration(D()); v.set_pangle(D()); v.set_pa_velocity(D()); v.set_pa_acceleration(D());
    }
    SETTERS(SET(azimuth, D()) SET(az_velocity, D()) SET(az_acceleration, D()) SET(elevation, D()) SET(el_velocity, D())
            SET(el_acceleration, D()) SET(pangle, D()) SET(pa_velocity, D()) SET(pa_acceleration, D()))
    void view() override {
        o(v.get_azimuth()); o(v.get_az_velocity()); o(v.get_az_acceleration()); o(v.get_elevation()); o(v.get_el_velocity());
        o(v.get_el_acceleration()); o(v.get_pangle()); o(v.get_pa_velocity()); o(v.get_pa_acceleration());
    }
};
struct ConvObj : ObjectOf<ConversionResult, ConvObj> {
    void make() override { v.set_hours(I()); v.set_minutes(I()); v.set_seconds(I()); v.set_fraction(I()); v.set_sign(B()); }
    SETTERS(SET(hours, I()) SET(minutes, I()) SET(seconds, I()) SET(degrees, I()) SET(arcminutes, I()) SET(arcseconds, I()) SET(fraction, I())
            if (f == "sign") { v.set_sign(B()); return; }
            if (f == "signchar") { v.set_sign(S()[0]); return; })
    void view() override {
        o(v.get_hours()); o(v.get_minutes()); o(v.get_seconds()); o(v.get_degrees()); o(v.get_arcminutes()); o(v.get_arcseconds()); o(v.get_fraction());
        char s[2] = {v.get_sign(), 0}; o(s);
    }
};
struct FitObj : ObjectOf<FitCoeffs, FitObj> {
    void make() override { for (int i = 0; i < 6; i++) v[i] = D(); }
    void set(const string& f) override {
        if (f.size() == 2) {   // "i0".."i5": by index; "p0".."p5": through the array; "v0".."v5": through the half views
            int i = f[1] - '0'; double x = D();
            if (f[0] == 'i') v[i] = x; else if (f[0] == 'p') v()[i] = x; else if (i < 3) v.get_abc()[i] = x; else v.get_def()[i - 3] = x;
            return;
        }
        SET(a, D()) SET(b, D()) SET(c, D()) SET(d, D()) SET(e, D()) SET(f, D())
        throw Bad{"no field " + f};
    }
    void view() override {
        o(v.get_a()); o(v.get_b()); o(v.get_c()); o(v.get_d()); o(v.get_e()); o(v.get_f());
        for (int i = 0; i < 6; i++) o(v[i]);
        for (int i = 0; i < 6; i++) o(v()[i]);
        for (int i = 0; i < 3; i++) o(v.get_abc()[i]);
        for (int i = 0; i < 3; i++) o(v.get_def()[i]);
        o(v.get_nfields());
    }
};
static Object* new_object(const string& t) {
    if (t == "sphf") return new SphObj<float>; if (t == "sphd") return new SphObj<double>;
    if (t == "posf") return new PosObj<float>; if (t == "posd") return new PosObj<double>;
    if (t == "vpvf") return new VpvObj<float>; if (t == "vpvd") return new VpvObj<double>;
    if (t == "spvf") return new SpvObj<float>; if (t == "spvd") return new SpvObj<double>;
    if (t == "mount") return new MountObj; if (t == "conv") return new ConvObj; if (t == "fit") return new FitObj;
    throw Bad{"no type " + t};
}
static std::map<int, Object*> objects_;
static Object* object(int slot) { auto it = objects_.find(slot); if (it == objects_.end()) throw Bad{"no object"}; return it->second; }

// a matrix/vector operation whose arguments may share storage
template <class T> static void mxm_(void (*f)(const Matrix<T>, const Matrix<T>, Matrix<T>)) {
    // alias: 0 none, 1 c=a, 2 c=b, 3 a=b, 4 all the same (for 3 and 4 the second operand is not used)
    int alias = I();
    Arr<T> a(9, true), b(9, true), c(9);
    switch (alias) {
        case 0: f(mat3(a), mat3(b), mat3(c)); a.same(); b.same(); c.out(); break;
        case 1: f(mat3(a), mat3(b), mat3(a)); b.same(); a.out(); break;
        case 2: f(mat3(a), mat3(b), mat3(b)); a.same(); b.out(); break;
        case 3: f(mat3(a), mat3(a), mat3(c)); a.same(); c.out(); break;
        default: f(mat3(a), mat3(a), mat3(a)); a.out(); break;
    }
}
template <class T> static void mxv_(void (*f)(const Matrix<T>, const Vector<T>, Vector<T>)) {
    int alias = I();
    Arr<T> m(9, true), a(3, true), b(3);
    if (alias == 0) { f(mat3(m), a.p(), b.p()); m.same(); a.same(); b.out(); }
    else { f(mat3(m), a.p(), a.p()); m.same(); a.out(); }
}
template <class T> static void vxv_(void (*f)(const Vector<T>, const Vector<T>, Vector<T>)) {
    int alias = I();
    Arr<T> a(3, true), b(3, true), c(3);
    switch (alias) {
        case 0: f(a.p(), b.p(), c.p()); a.same(); b.same(); c.out(); break;
        case 1: f(a.p(), b.p(), a.p()); b.same(); a.out(); break;
        case 2: f(a.p(), b.p(), b.p()); a.same(); b.out(); break;
        default: f(a.p(), a.p(), c.p()); a.same(); c.out(); break;
    }
}
template <class T> static void vn_(T (*f)(const Vector<T>, Vector<T>)) {
    int alias = I();
    Arr<T> a(3, true), b(3);
    if (alias == 0) { o(f(a.p(), b.p())); a.same(); b.out(); }
    else { o(f(a.p(), a.p())); a.out(); }
}
template <class T> static void vv_(T (*f)(const Vector<T>, const Vector<T>)) {
    Arr<T> a(3, true), b(3, true);
    o(f(a.p(), b.p())); a.same(); b.same();
}
template <class T> static void tf_(T2DStatus (*f)(int, int, T, T&)) {
    int h = I(), m = I(); T s = Sent<T>::r(), r = Sent<T>::v(); int st = f(h, m, s, r); o(st); o(r);
}
template <class T> static void af_(D2RStatus (*f)(int, int, T, T&)) {
    int h = I(), m = I(); T s = Sent<T>::r(), r = Sent<T>::v(); int st = f(h, m, s, r); o(st); o(r);
}
template <class T> static void to_(void (*f)(int, T, ConversionResult&)) {
    int n = I(); T x = Sent<T>::r(); ConversionResult c = cr0(); f(n, x, c); ocr(c);
}
template <class T> static void tps2c_(int (*f)(T, T, const Spherical<T>&, Spherical<T>&, Spherical<T>&)) {
    T x = Sent<T>::r(), y = Sent<T>::r(); auto p = sph<T>(); auto a = sph0<T>(), b = sph0<T>();
    o(f(x, y, p, a, b)); osph(a); osph(b);
}
template <class T> static void tpv2c_(int (*f)(T, T, const Vector<T>, Vector<T>, Vector<T>)) {
    T x = Sent<T>::r(), y = Sent<T>::r(); Arr<T> p(3, true), a(3), b(3);
    o(f(x, y, p.p(), a.p(), b.p())); p.same(); a.out(); b.out();
}
template <class T> static void s2tp_(TPPStatus (*f)(const Spherical<T>&, const Spherical<T>&, T&, T&)) {
    auto p = sph<T>(), t = sph<T>(); T x = Sent<T>::v(), y = x; int st = f(p, t, x, y); o(st); o(x); o(y);
}
template <class T> static void v2tp_(TPPStatus (*f)(const Vector<T>, const Vector<T>, T&, T&)) {
    Arr<T> p(3, true), t(3, true); T x = Sent<T>::v(), y = x; int st = f(p.p(), t.p(), x, y); p.same(); t.same(); o(st); o(x); o(y);
}
static void gdate_(G2JStatus (*f)(int, int, int, double&)) { int y = I(), m = I(), d = I(); double r = DSENT; int st = f(y, m, d, r); o(st); o(r); }
static void gday_(G2JStatus (*f)(int, int, int, int&, int&)) { int y = I(), m = I(), d = I(); int a = ISENT, b = ISENT; int st = f(y, m, d, a, b); o(st); o(a); o(b); }
static void odate(const Date& d, bool ifr, bool fr) { o(d.d_year); o(d.d_month); o(d.d_day); if (ifr) o(d.d_ifraction); if (fr) o(d.d_fraction); }
static Date date0() { Date d; d.d_year = d.d_month = d.d_day = d.d_ifraction = ISENT; d.d_fraction = DSENT; return d; }
static void ss_(void (*f)(const Spherical<double>&, Spherical<double>&)) { auto a = sph<double>(), b = sph0<double>(); f(a, b); osph(b); }
static void ss2_(void (*f)(const Spherical<double>&, Spherical<double>&)) { auto a = sph<double>(); f(a, a); osph(a); }
static void sds2_(void (*f)(const Spherical<double>&, double, Spherical<double>&)) { auto a = sph<double>(); double x = D(); f(a, x, a); osph(a); }
static void sds_(void (*f)(const Spherical<double>&, double, Spherical<double>&)) { auto a = sph<double>(); double x = D(); auto b = sph0<double>(); f(a, x, b); osph(b); }

// a long history in summary: non-finite values, where the first four values come again (0: nowhere), longest run of one value, counts by eighths of the range [-8, 8)
template <typename G> static void far_history(int n, G next) {
    float first[4] = {}, last[4] = {};
    long counts[128] = {};
    int bad = 0, again = 0, run = 1, longest = 1;
    for (int i = 0; i < n; i++) {
        const float x = next();
        if (!std::isfinite(x)) { bad++; continue; }
        if (i < 4) first[i] = x;
        run = i > 0 && x == last[3] ? run + 1 : 1;
        if (run > longest) longest = run;
        for (int j = 0; j < 3; j++) last[j] = last[j + 1];
        last[3] = x;
        if (i > 3 && !again && !std::memcmp(first, last, sizeof first)) again = i - 3;
        const double c = std::floor((double(x) + 8.0) * 8.0);
        counts[c < 0.0 ? 0 : c > 127.0 ? 127 : int(c)]++;
    }
    o(bad); o(again); o(longest);
    for (long c : counts) o(double(c));
}

static Ops make_ops() {
    Ops p;
    // calendar
    p["cldj"] = [] { gdate_(cldj); };
    p["caldj"] = [] { gdate_(caldj); };
    p["clyd"] = [] { gday_(clyd); };
    p["calyd"] = [] { gday_(calyd); };
    p["djcl"] = [] { double m = D(); Date d = date0(); o(djcl(m, d)); odate(d, false, true); };
    p["djcal"] = [] { int n = I(); double m = D(); Date d = date0(); o(djcal(n, m, d)); odate(d, true, false); };
    // time scales
    p["dat"] = [] { o(dat(D())); };
    p["dtt"] = [] { o(dtt(D())); };
    p["dt"] = [] { o(dt(D())); };
    p["gmst"] = [] { o(gmst(D())); };
    p["gmsta"] = [] { double a = D(), b = D(); o(gmsta(a, b)); };
    p["eqeqx"] = [] { o(eqeqx(D())); };
    p["rcc"] = [] { double a = D(), b = D(), c = D(), d = D(), e = D(); o(rcc(a, b, c, d, e)); };
    p["epb"] = [] { o(epb(D())); };
    p["epb2d"] = [] { o(epb2d(D())); };
    p["epj"] = [] { o(epj(D())); };
    p["epj2d"] = [] { o(epj2d(D())); };
    p["epco"] = [] { string a = S(), b = S(); double e = D(); o(epco(a[0], b[0], e)); };
    // sexagesimal
    p["dd2tf"] = [] { to_<double>(dd2tf); };
    p["cd2tf"] = [] { to_<float>(cd2tf); };
    p["dr2tf"] = [] { to_<double>(dr2tf); };
    p["cr2tf"] = [] { to_<float>(cr2tf); };
    p["dr2af"] = [] { to_<double>(dr2af); };
    p["cr2af"] = [] { to_<float>(cr2af); };
    p["daf2r"] = [] { af_<double>(daf2r); };
    p["caf2r"] = [] { af_<float>(caf2r); };
    p["dtf2d"] = [] { tf_<double>(dtf2d); };
    p["ctf2d"] = [] { tf_<float>(ctf2d); };
    p["dtf2r"] = [] { tf_<double>(dtf2r); };
    p["ctf2r"] = [] { tf_<float>(ctf2r); };
    // ranges
    p["range"] = [] { o(range(F())); };
    p["drange"] = [] { o(drange(D())); };
    p["ranorm"] = [] { o(ranorm(F())); };
    p["dranrm"] = [] { o(dranrm(D())); };
    // algebra
    p["vdv"] = [] { vv_<float>(vdv); };
    p["dvdv"] = [] { vv_<double>(dvdv); };
    p["vxv"] = [] { vxv_<float>(vxv); };
    p["dvxv"] = [] { vxv_<double>(dvxv); };
    p["vn"] = [] { vn_<float>(vn); };
    p["dvn"] = [] { vn_<double>(dvn); };
    p["mxv"] = [] { mxv_<float>(mxv); };
    p["dmxv"] = [] { mxv_<double>(dmxv); };
    p["imxv"] = [] { mxv_<float>(imxv); };
    p["dimxv"] = [] { mxv_<double>(dimxv); };
    p["mxm"] = [] { mxm_<float>(mxm); };
    p["dmxm"] = [] { mxm_<double>(dmxm); };
    // rotations
    p["av2m"] = [] { Vf v(3, true), m(9); av2m(v.p(), mat3(m)); v.same(); m.out(); };
    p["dav2m"] = [] { Vd v(3, true), m(9); dav2m(v.p(), mat3(m)); v.same(); m.out(); };
    p["m2av"] = [] { Vf m(9, true), v(3); m2av(mat3(m), v.p()); m.same(); v.out(); };
    p["dm2av"] = [] { Vd m(9, true), v(3); dm2av(mat3(m), v.p()); m.same(); v.out(); };
    p["euler"] = [] { string s = S(); float a = F(), b = F(), c = F(); Vf m(9); euler(s.c_str(), a, b, c, mat3(m)); m.out(); };
    p["deuler"] = [] { string s = S(); double a = D(), b = D(), c = D(); Vd m(9); deuler(s.c_str(), a, b, c, mat3(m)); m.out(); };
    // spherical <-> Cartesian
    p["cs2c"] = [] { auto s = sph<float>(); Vf v(3); cs2c(s, v.p()); v.out(); };
    p["dcs2c"] = [] { auto s = sph<double>(); Vd v(3); dcs2c(s, v.p()); v.out(); };
    p["cc2s"] = [] { Vf v(3, true); auto s = sph0<float>(); cc2s(v.p(), s); v.same(); osph(s); };
    p["dcc2s"] = [] { Vd v(3, true); auto s = sph0<double>(); dcc2s(v.p(), s); v.same(); osph(s); };
    p["cs2c6"] = [] { float a[6]; for (float& x : a) x = F(); SphericalPV<float> s({{{a[0], a[1]}, a[2]}, {{a[3], a[4]}, a[5]}}); auto v = pv0<float>(); cs2c6(s, v); opv(v); };
    p["ds2c6"] = [] { double a[6]; for (double& x : a) x = D(); SphericalPV<double> s({{{a[0], a[1]}, a[2]}, {{a[3], a[4]}, a[5]}}); auto v = pv0<double>(); ds2c6(s, v); opv(v); };
    p["cc62s"] = [] { auto v = pvin<float>(); SphericalPV<float> s; cc62s(v, s); o(s.get_longitude()); o(s.get_latitude()); o(s.get_dist()); o(s.get_dlong()); o(s.get_dlat()); o(s.get_ddist()); };
    p["dc62s"] = [] { auto v = pvin<double>(); SphericalPV<double> s; dc62s(v, s); o(s.get_longitude()); o(s.get_latitude()); o(s.get_dist()); o(s.get_dlong()); o(s.get_dlat()); o(s.get_ddist()); };
    // separations and bearings
    p["sep"] = [] { auto a = sph<float>(), b = sph<float>(); o(sep(a, b)); };
    p["dsep"] = [] { auto a = sph<double>(), b = sph<double>(); o(dsep(a, b)); };
    p["sepv"] = [] { vv_<float>(sepv); };
    p["dsepv"] = [] { vv_<double>(dsepv); };
    p["bear"] = [] { auto a = sph<float>(), b = sph<float>(); o(bear(a, b)); };
    p["dbear"] = [] { auto a = sph<double>(), b = sph<double>(); o(dbear(a, b)); };
    p["pav"] = [] { vv_<float>(pav); };
    p["dpav"] = [] { vv_<double>(dpav); };
    // horizon
    p["e2h"] = [] { auto s = sph<float>(); float l = F(), a = FSENT, e = FSENT; e2h(s, l, a, e); o(a); o(e); };
    p["de2h"] = [] { auto s = sph<double>(); double l = D(), a = DSENT, e = DSENT; de2h(s, l, a, e); o(a); o(e); };
    p["h2e"] = [] { float a = F(), e = F(), l = F(); auto s = sph0<float>(); h2e(a, e, l, s); osph(s); };
    p["dh2e"] = [] { double a = D(), e = D(), l = D(); auto s = sph0<double>(); dh2e(a, e, l, s); osph(s); };
    p["zd"] = [] { auto s = sph<double>(); double l = D(); o(zd(s, l)); };
    p["pa"] = [] { auto s = sph<double>(); double l = D(); o(pa(s, l)); };
    p["altaz"] = [] {
        auto s = sph<double>(); double l = D(); AltazMount m; altaz(s, l, m);
        o(m.get_azimuth()); o(m.get_az_velocity()); o(m.get_az_acceleration());
        o(m.get_elevation()); o(m.get_el_velocity()); o(m.get_el_acceleration());
        o(m.get_pangle()); o(m.get_pa_velocity()); o(m.get_pa_acceleration());
    };
    p["pda2h"] = [] { double a = D(), b = D(), c = D(), h1 = DSENT, h2 = DSENT; bool v1 = mark(a + b), v2 = mark(b + c); pda2h(a, b, c, h1, v1, h2, v2); o(h1); o(v1); o(h2); o(v2); };
    p["pdq2h"] = [] { double a = D(), b = D(), c = D(), h1 = DSENT, h2 = DSENT; bool v1 = mark(a + b), v2 = mark(b + c); pdq2h(a, b, c, h1, v1, h2, v2); o(h1); o(v1); o(h2); o(v2); };
    // tangent plane
    p["s2tp"] = [] { s2tp_<float>(s2tp); };
    p["ds2tp"] = [] { s2tp_<double>(ds2tp); };
    p["v2tp"] = [] { v2tp_<float>(v2tp); };
    p["dv2tp"] = [] { v2tp_<double>(dv2tp); };
    p["tp2s"] = [] { float x = F(), y = F(); auto t = sph<float>(), q = sph0<float>(); tp2s(x, y, t, q); osph(q); };
    p["dtp2s"] = [] { double x = D(), y = D(); auto t = sph<double>(), q = sph0<double>(); dtp2s(x, y, t, q); osph(q); };
    p["tp2v"] = [] { float x = F(), y = F(); Vf t(3, true), q(3); tp2v(x, y, t.p(), q.p()); t.same(); q.out(); };
    p["dtp2v"] = [] { double x = D(), y = D(); Vd t(3, true), q(3); dtp2v(x, y, t.p(), q.p()); t.same(); q.out(); };
    p["tps2c"] = [] { tps2c_<float>(tps2c); };
    p["dtps2c"] = [] { tps2c_<double>(dtps2c); };
    p["tpv2c"] = [] { tpv2c_<float>(tpv2c); };
    p["dtpv2c"] = [] { tpv2c_<double>(dtpv2c); };
    // precession, nutation
    p["prec"] = [] { double a = D(), b = D(); Vd m(9); prec(a, b, mat3(m)); m.out(); };
    p["precl"] = [] { double a = D(), b = D(); Vd m(9); precl(a, b, mat3(m)); m.out(); };
    p["prebn"] = [] { double a = D(), b = D(); Vd m(9); prebn(a, b, mat3(m)); m.out(); };
    p["preces"] = [] { int c = I(); double a = D(), b = D(); auto s = sph<double>(); preces((Catalogue) c, a, b, s); osph(s); };
    p["nutc"] = [] { double t = D(), a = DSENT, b = DSENT, c = DSENT; nutc(t, a, b, c); o(a); o(b); o(c); };
    p["nutc80"] = [] { double t = D(), a = DSENT, b = DSENT, c = DSENT; nutc80(t, a, b, c); o(a); o(b); o(c); };
    p["nut"] = [] { double t = D(); Vd m(9); nut(t, mat3(m)); m.out(); };
    p["prenut"] = [] { double a = D(), b = D(); Vd m(9); prenut(a, b, mat3(m)); m.out(); };
    // frames
    p["ecmat"] = [] { double t = D(); Vd m(9); ecmat(t, mat3(m)); m.out(); };
    p["eqecl"] = [] { sds_(eqecl); };
    p["ecleq"] = [] { sds_(ecleq); };
    p["eqgal"] = [] { ss_(eqgal); };
    p["galeq"] = [] { ss_(galeq); };
    p["galsup"] = [] { ss_(galsup); };
    p["supgal"] = [] { ss_(supgal); };
    p["eg50"] = [] { ss_(eg50); };
    p["ge50"] = [] { ss_(ge50); };
    p["etrms"] = [] { double e = D(); Vd v(3); etrms(e, v.p()); v.out(); };
    p["addet"] = [] { sds_(addet); };
    p["subet"] = [] { sds_(subet); };
    p["pm"] = [] { auto s = sph<double>(), m = sph<double>(); double x = D(), v = D(), a = D(), b = D(); auto r = sph0<double>(); pm(s, m, x, v, a, b, r); osph(r); };
    // ephemerides
    p["epv"] = [] { double t = D(); Vd a(3), b(3), c(3), d(3); epv(t, a.p(), b.p(), c.p(), d.p()); a.out(); b.out(); c.out(); d.out(); };
    p["evp"] = [] { double t = D(), e = D(); Vd a(3), b(3), c(3), d(3); evp(t, e, a.p(), b.p(), c.p(), d.p()); a.out(); b.out(); c.out(); d.out(); };
    p["earth"] = [] { int y = I(), d = I(); float f = F(); auto v = pv0<float>(); earth(y, d, f, v); opv(v); };
    p["ecor"] = [] { auto s = sph<float>(); int y = I(), d = I(); float f = F(), a = FSENT, b = FSENT; ecor(s, y, d, f, a, b); o(a); o(b); };
    p["moon"] = [] { int y = I(), d = I(); float f = F(); auto v = pv0<float>(); moon(y, d, f, v); opv(v); };
    p["dmoon"] = [] { double t = D(); auto v = pv0<double>(); dmoon(t, v); opv(v); };
    // observer
    p["geoc"] = [] { double l = D(), h = D(), a = DSENT, b = DSENT; geoc(l, h, a, b); o(a); o(b); };
    p["pvobs"] = [] { double l = D(), h = D(), t = D(); auto v = pv0<double>(); pvobs(l, h, t, v); opv(v); };
    p["polmo"] = [] { double a = D(), b = D(), x = D(), y = D(), r = DSENT, s = DSENT, t = DSENT; polmo(a, b, x, y, r, s, t); o(r); o(s); o(t); };
    p["rverot"] = [] { float l = F(); auto s = sph<float>(); float t = F(); o(rverot(l, s, t)); };
    p["rvgalc"] = [] { auto s = sph<float>(); o(rvgalc(s)); };
    p["rvlg"] = [] { auto s = sph<float>(); o(rvlg(s)); };
    p["rvlsrd"] = [] { auto s = sph<float>(); o(rvlsrd(s)); };
    p["rvlsrk"] = [] { auto s = sph<float>(); o(rvlsrk(s)); };
    // the same, with the result stored over the (first) place it is computed from
    p["eqecl&"] = [] { sds2_(eqecl); };   p["ecleq&"] = [] { sds2_(ecleq); };   p["addet&"] = [] { sds2_(addet); };   p["subet&"] = [] { sds2_(subet); };
    p["eqgal&"] = [] { ss2_(eqgal); };    p["galeq&"] = [] { ss2_(galeq); };    p["galsup&"] = [] { ss2_(galsup); };  p["supgal&"] = [] { ss2_(supgal); };
    p["eg50&"] = [] { ss2_(eg50); };      p["ge50&"] = [] { ss2_(ge50); };
    p["pm&"] = [] { auto s = sph<double>(), m = sph<double>(); double x = D(), v = D(), a = D(), b = D(); pm(s, m, x, v, a, b, s); osph(s); };
    p["pm&&"] = [] { auto s = sph<double>(), m = sph<double>(); double x = D(), v = D(), a = D(), b = D(); pm(s, m, x, v, a, b, m); osph(m); };
    p["tp2s&"] = [] { float x = F(), y = F(); auto t = sph<float>(); tp2s(x, y, t, t); osph(t); };
    p["dtp2s&"] = [] { double x = D(), y = D(); auto t = sph<double>(); dtp2s(x, y, t, t); osph(t); };
    p["tp2v&"] = [] { float x = F(), y = F(); Vf t(3, true); tp2v(x, y, t.p(), t.p()); t.out(); };
    p["dtp2v&"] = [] { double x = D(), y = D(); Vd t(3, true); dtp2v(x, y, t.p(), t.p()); t.out(); };
    p["obs"] = [] { int n = I(); string id = S(); bool null = id == "~null"; Observatory b; b.o_id = b.o_name = "sentinel"; b.o_long = b.o_lat = b.o_height = DSENT;
        o(obs(n, null ? nullptr : id.c_str(), b)); o(b.o_id); o(b.o_name); o(b.o_long); o(b.o_lat); o(b.o_height); };
    // refraction
    p["refro"] = [] { double a[9]; for (double& x : a) x = D(); o(refro(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])); };
    p["refco"] = [] { double a[8]; for (double& x : a) x = D(); double r = DSENT, s = DSENT; refco(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], r, s); o(r); o(s); };
    p["refcoq"] = [] { double a[4]; for (double& x : a) x = D(); double r = DSENT, s = DSENT; refcoq(a[0], a[1], a[2], a[3], r, s); o(r); o(s); };
    p["atmdsp"] = [] { double a[7]; for (double& x : a) x = D(); double r = DSENT, s = DSENT; atmdsp(a[0], a[1], a[2], a[3], a[4], a[5], a[6], r, s); o(r); o(s); };
    p["refz"] = [] { double z = D(), a = D(), b = D(); o(refz(z, a, b)); };
    p["refv"] = [] { int alias = I(); Vd v(3, true); double a = D(), b = D(); Vd r(3); if (alias) { refv(v.p(), a, b, v.p()); v.out(); } else { refv(v.p(), a, b, r.p()); v.same(); r.out(); } };
    p["airmas"] = [] { o(airmas(D())); };
    // linear algebra
    p["dmat"] = [] { int n = I(); Vd m(n * n, true), v(n, true); Arr<int> w(n); double det = DSENT; o(dmat(n, m.p(), v.p(), det, w.p())); o(det); w.guards(); v.out(); m.out(); };
    p["dmat3"] = [] { Vd m(9, true), v(3, true); Arr<int> w(3); double det = DSENT; o(dmat(mat3(m), v.p(), det, w.p())); o(det); w.guards(); v.out(); m.out(); };
    p["smat"] = [] { int n = I(); Vf m(n * n, true), v(n, true); Arr<int> w(n); float det = FSENT; o(smat(n, m.p(), v.p(), det, w.p())); o(det); w.guards(); v.out(); m.out(); };
    // a is mp x np (all elements given); outputs: status, all of a, w (n), all of v (np x np)
    p["svd"] = [] { int m = I(), n = I(), mp = I(), np = I(); Vd a(mp * np, true), w(n), v(np * np), ws(n); o(svd(m, n, mp, np, a.p(), w.p(), v.p(), ws.p())); ws.guards(); a.out(); w.out(); v.out(); };
    p["svdsol"] = [] { int m = I(), n = I(), mp = I(), np = I(); Vd b(m, true), u(mp * np, true), w(n, true), v(np * np, true), ws(n), x(n);
        svdsol(m, n, mp, np, b.p(), u.p(), w.p(), v.p(), ws.p(), x.p()); b.same(); u.same(); w.same(); v.same(); ws.guards(); x.out(); };
    p["svdcov"] = [] { int n = I(), np = I(), nc = I(); Vd w(n, true), v(np * np, true), ws(n), c(nc * nc); svdcov(n, np, nc, w.p(), v.p(), ws.p(), c.p()); w.same(); v.same(); ws.guards(); c.out(); };
    // plate models
    p["fitxy"] = [] { bool sbr = B(); int n = I(); Vd e(2 * n, true), m(2 * n, true); FitCoeffs c = fc0();
        int st = fitxy(sbr, n, reinterpret_cast<const double (*)[2]>(e.p()), reinterpret_cast<const double (*)[2]>(m.p()), c); e.same(); m.same(); o(st); ofc(c); };
    p["xy2xy"] = [] { double x = D(), y = D(); FitCoeffs c = fc_in(); double a = DSENT, b = DSENT; xy2xy(x, y, c, a, b); o(a); o(b); };
    p["pxy"] = [] { int n = I(); Vd e(2 * n, true), m(2 * n, true); FitCoeffs c = fc_in(); Vd q(2 * n); double a = DSENT, b = DSENT, r = DSENT;
        pxy(n, reinterpret_cast<const double (*)[2]>(e.p()), reinterpret_cast<const double (*)[2]>(m.p()), c, reinterpret_cast<double (*)[2]>(q.p()), a, b, r);
        e.same(); m.same(); o(a); o(b); o(r); q.out(); };
    p["invf"] = [] { int alias = I(); FitCoeffs c = fc_in(), d = fc0(); if (alias) { o(invf(c, c)); ofc(c); } else { o(invf(c, d)); ofc(d); } };
    p["dcmpf"] = [] { FitCoeffs c = fc_in(); double r[6]; for (double& x : r) x = DSENT; dcmpf(c, r[0], r[1], r[2], r[3], r[4], r[5]); for (double x : r) o(x); };
    p["pcd"] = [] { double k = D(), x = D(), y = D(); pcd(k, x, y); o(x); o(y); };
    p["unpcd"] = [] { double k = D(), x = D(), y = D(); unpcd(k, x, y); o(x); o(y); };
    // generators: the caller's arrays are logged before and after
    p["combn"] = [] { int nsel = I(), ncand = I(), len = I(); Arr<int> l(len, true); int st = combn(nsel, ncand, l.p()); o(st); l.out(); };
    p["permut"] = [] { int n = I(), len = I(); Arr<int> s(len, true), q(len); int st = permut(n, s.p(), q.p()); o(st); s.out(); q.out(); };
    p["random"] = [] { o(sla::random(F())); };
    p["gresid"] = [] { o(gresid(F())); };
    // n consecutive deviates: summary counts of a long history (see Random.tla)
    p["random_n"] = [] { float s = F(); int n = I(); for (int i = 0; i < n; i++) o(sla::random(s)); };
    p["gresid_n"] = [] { float s = F(); int n = I(); for (int i = 0; i < n; i++) o(gresid(s)); };
    p["random_far"] = [] { float s = F(); int n = I(); far_history(n, [s] { return sla::random(s); }); };
    p["gresid_far"] = [] { float s = F(); int n = I(); far_history(n, [s] { return gresid(s); }); };
    p["obj_new"] = [] { int k = I(); Object* x = new_object(S()); x->make(); objects_[k] = x; };
    p["obj_set"] = [] { int k = I(); string f = S(); object(k)->set(f); };
    p["obj_copy"] = [] { int to = I(), from = I(); objects_[to] = object(from)->copy(); };
    p["obj_view"] = [] { int k = I(); object(k)->view(); };
    p["wait"] = [] { float s = F(); auto t = std::chrono::steady_clock::now(); sla::wait(s); o(std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count()); };
    // the same with `n` signals `gap` seconds apart, delivered to the waiting thread while it waits
    p["wait_signals"] = [] {
        float s = F(); int n = I(); double gap = D();
        struct sigaction act {};
        act.sa_handler = [](int) {};
        sigaction(SIGUSR1, &act, nullptr);
        pthread_t waiting = pthread_self();
        std::atomic<bool> back{false};
        auto t = std::chrono::steady_clock::now();
        std::thread sender([&] { for (int i = 1; i <= n; i++) { std::this_thread::sleep_until(t + std::chrono::duration<double>(gap * i)); if (back) break; pthread_kill(waiting, SIGUSR1); } });
        sla::wait(s);
        double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count();
        back = true;
        sender.join();
        o(took);
    };
    p["version"] = [] { o(veri()); o(vers()); };
    return p;
}

static vector<string> split(const string& s) { std::istringstream is(s); vector<string> r; for (string w; is >> w;) r.push_back(w); return r; }

static Ops ops_;

static void run_session(const vector<string>& lines, size_t from, size_t to, int fd) {
    vector<vector<string>> results;
    for (size_t k = from; k < to; k++) {
        vector<string> w = split(lines[k]);
        if (w.empty()) continue;
        long times = 1;
        if (size_t star = w[0].find('*'); star != string::npos) { times = std::atol(w[0].c_str() + star + 1); w[0].resize(star); }
        auto it = ops_.find(w[0]);
        if (it == ops_.end()) { std::cerr << "driver: unknown operation " << w[0] << "\n"; _exit(3); }
        in_.assign(w.begin() + 1, w.end());
        for (string& t : in_) if (t[0] == '$') {
            size_t dot = t.find('.');
            size_t n = std::strtoul(t.c_str() + 1, nullptr, 10), m = std::strtoul(t.c_str() + dot + 1, nullptr, 10);
            if (n < 1 || n > results.size() || m < 1 || m > results[n - 1].size()) { std::cerr << "driver: bad reference " << t << "\n"; _exit(3); }
            t = results[n - 1][m - 1];
        }
        at_ = 0; args_.clear(); outs_.clear(); guard_bad_ = input_bad_ = false;
        // the arguments are written before the call, so that a crash can be attributed
        string head = w[0];
        for (const string& t : in_) head += " " + t;
        string err;
        {
            string start = "@" + head + "\n";
            if (write(fd, start.data(), start.size()) < 0) _exit(4);
        }
        vector<string> first;
        for (long i = 0; i < times; i++) {
            at_ = 0; args_.clear(); outs_.clear();
            try { it->second(); } catch (const Bad& b) { std::cerr << "driver: " << w[0] << ": " << b.what << "\n"; _exit(3); }
            if (i == 0) first = outs_;
            else if (outs_ != first) break;
        }
        if (at_ != in_.size()) { std::cerr << "driver: " << w[0] << ": too many arguments\n"; _exit(3); }
        string line = w[0] + args_ + " |";
        for (const string& t : outs_) line += " " + t;
        if (guard_bad_) line += " !GUARD";
        else if (input_bad_) line += " !INPUT";
        else line += " .";
        line += "\n";
        size_t off = 0;
        while (off < line.size()) { ssize_t n = write(fd, line.data() + off, line.size() - off); if (n < 0) _exit(4); off += (size_t) n; }
        results.push_back(outs_);
    }
}

/*
 * A session whose operations carry a thread, "2:dmoon ..." or "2=random ...": the lines of each thread are made by that
 * thread in order, all threads at the same time. The trace has one event per begin and end of a call, in the order in
 * which they happened: "begin i<thread> i<line> | ." and "end i<thread> i<line> | results .". Threads with ":" lines then
 * go on repeating them; a repetition is recorded only if it returned something not yet seen for that line.
 */
#ifdef SCHED
void sched_begin(int n, uint64_t seed); void sched_enter(int t); void sched_call(); void sched_leave();   // sched.cc
static const int REPEAT = 25;
#else
static void sched_begin(int, uint64_t) {}
static void sched_enter(int) {}
static void sched_call() {}
static void sched_leave() {}
static const int REPEAT = 400;
#endif
static std::atomic<long> clock_;
static void run_threads(const vector<string>& lines, size_t from, size_t to, int fd) {
    struct Line { int thread; bool again; size_t index; string op; vector<string> w; };
    struct Event { long at; string text; };
    std::map<int, vector<Line>> prog;
    for (size_t k = from; k < to; k++) {
        vector<string> w = split(lines[k]);
        size_t c = w[0].find_first_of(":=");
        Line l{std::atoi(w[0].c_str()), w[0][c] == ':', k - from + 1, w[0].substr(c + 1), vector<string>(w.begin() + 1, w.end())};
        if (!ops_.count(l.op)) { std::cerr << "driver: unknown operation " << l.op << "\n"; _exit(3); }
        prog[l.thread].push_back(l);
    }
    { string start = "@begin i0 i0\n"; if (write(fd, start.data(), start.size()) < 0) _exit(4); }
    std::map<int, vector<Event>> log;
    for (auto& p : prog) log[p.first];
    sched_begin((int) prog.size(), from + 1);
    vector<std::thread> ts;
    for (auto& p : prog) ts.emplace_back([&p, &log] {
        vector<Event>& out = log[p.first];
        std::map<size_t, std::set<string>> seen;
        sched_enter(p.first);
        for (int rep = 0; rep < REPEAT; rep++) {
            for (const Line& l : p.second) {
                if (rep && !l.again) continue;
                in_ = l.w; at_ = 0; args_.clear(); outs_.clear(); guard_bad_ = input_bad_ = false;
                string id = " i" + std::to_string(l.thread) + " i" + std::to_string(l.index);
                auto it = ops_.find(l.op);
                sched_call();
                long t0 = clock_++;
                try { it->second(); } catch (const Bad& b) { std::cerr << "driver: " << l.op << ": " << b.what << "\n"; _exit(3); }
                long t1 = clock_++;
                string r = " |";
                for (const string& t : outs_) r += " " + t;
                r += guard_bad_ ? " !GUARD" : input_bad_ ? " !INPUT" : " .";
                if ((seen[l.index].insert(r).second && seen[l.index].size() < 50) || !rep) { out.push_back({t0, "begin" + id + " | .\n"}); out.push_back({t1, "end" + id + r + "\n"}); }
            }
        }
        sched_leave();
    });
    for (auto& t : ts) t.join();
    std::map<long, string> all;
    for (auto& l : log) for (auto& e : l.second) all[e.at] = e.text;
    string text;
    for (auto& e : all) text += e.second;
    size_t off = 0;
    while (off < text.size()) { ssize_t n = write(fd, text.data() + off, text.size() - off); if (n < 0) _exit(4); off += (size_t) n; }
}

int main(int argc, char** argv) {
    if (argc < 3) { std::cerr << "usage: driver CALLS TRACE [JOBS]\n"; return 3; }
    ops_ = make_ops();
    size_t jobs = argc > 3 ? (size_t) std::atoi(argv[3]) : 8;
    vector<string> lines; vector<size_t> starts;
    { std::ifstream f(argv[1]); for (string s; std::getline(f, s);) { if (s.empty()) continue; if (s[0] == '#') starts.push_back(lines.size()); else lines.push_back(s); } }
    starts.push_back(lines.size());
    std::ofstream out(argv[2]);
    size_t ns = starts.size() - 1;
    // sessions of one batch of `jobs` run at the same time, each in its own process writing to a pipe
    struct Child { pid_t pid; int fd; size_t s; string buf; bool eof; };
    // once a few sessions have died the answer is known: do not spend a timeout on each of the others
    int died = 0;
    for (size_t s0 = 0; s0 < ns && died < 3; s0 += jobs) {
        vector<Child> cs;
        for (size_t s = s0; s < ns && s < s0 + jobs; s++) {
            int fds[2];
            if (pipe(fds)) { perror("pipe"); return 4; }
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 4; }
            if (pid == 0) { close(fds[0]); for (auto& c : cs) close(c.fd); alarm(120); if (starts[s] < starts[s + 1] && std::isdigit((unsigned char) lines[starts[s]][0])) run_threads(lines, starts[s], starts[s + 1], fds[1]); else run_session(lines, starts[s], starts[s + 1], fds[1]); close(fds[1]); _exit(0); }
            close(fds[1]);
            cs.push_back({pid, fds[0], s, "", false});
        }
        size_t open = cs.size();
        while (open) {
            vector<pollfd> pf; vector<size_t> ix;
            for (size_t i = 0; i < cs.size(); i++) if (!cs[i].eof) { pf.push_back({cs[i].fd, POLLIN, 0}); ix.push_back(i); }
            poll(pf.data(), pf.size(), -1);
            for (size_t j = 0; j < pf.size(); j++) if (pf[j].revents) {
                char b[65536]; ssize_t n = read(pf[j].fd, b, sizeof b);
                if (n <= 0) { cs[ix[j]].eof = true; close(pf[j].fd); open--; } else cs[ix[j]].buf.append(b, (size_t) n);
            }
        }
        for (auto& c : cs) {
            int st; waitpid(c.pid, &st, 0);
            if (WIFEXITED(st) && WEXITSTATUS(st) != 0) { std::cerr << "driver: session " << c.s << " ended with " << WEXITSTATUS(st) << "\n"; return 3; }
            out << "# " << c.s << "\n";
            std::istringstream is(c.buf); string last;
            for (string l; std::getline(is, l);) { if (l[0] == '@') last = l.substr(1); else { out << l << "\n"; last.clear(); } }
            if (WIFSIGNALED(st)) { died++; out << last << " | !SIG" << WTERMSIG(st) << "\n"; }
        }
    }
    out.close();
    return out ? 0 : 4;
}
