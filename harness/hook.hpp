// A value type whose every operation is observable: used to stretch
// schedules (C12) and to inject failures (C22).
#ifndef V_HOOK_HPP
#define V_HOOK_HPP
extern "C" void va_hook(int op);   // may throw in fault runs
namespace va {
struct Hook {
    double a;
    Hook() : a(0) { }
    Hook(double x) : a(x) { }
    Hook(const Hook& o) : a(o.a) { va_hook(0); }
    Hook& operator=(const Hook& o) { va_hook(1); a = o.a; return *this; }
    Hook& operator+=(const Hook& o) { va_hook(2); a += o.a; return *this; }
    Hook& operator-=(const Hook& o) { va_hook(2); a -= o.a; return *this; }
    Hook& operator*=(double s) { va_hook(3); a *= s; return *this; }
    Hook& operator/=(double s) { va_hook(3); a /= s; return *this; }
};
inline Hook operator*(double s, Hook v) { v *= s; return v; }
inline Hook operator*(Hook v, double s) { v *= s; return v; }
inline Hook operator/(Hook v, double s) { v /= s; return v; }
inline Hook operator+(Hook v, const Hook& w) { v += w; return v; }
inline Hook operator-(Hook v, const Hook& w) { v -= w; return v; }
inline Hook operator-(Hook v) { v *= -1.; return v; }
inline bool operator==(const Hook& v, const Hook& w) { return v.a == w.a; }
inline bool operator!=(const Hook& v, const Hook& w) { return v.a != w.a; }
}
#endif
