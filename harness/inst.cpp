#include "adaptor.hpp"
#ifndef GROUP
#error GROUP
#endif
#define R(D, O, M) static va::Reg<double, D, O, double, M> V_CAT(r_, __COUNTER__)("double", 0);
#define RT(T, D, O, U, M, N, K) static va::Reg<T, D, O, U, M> V_CAT(r_, __COUNTER__)(N, K);
#define V_CAT2(a, b) a##b
#define V_CAT(a, b) V_CAT2(a, b)
#define R1(O) R(1, O, 1) R(1, O, 0)
#define R2(O) R(2, O, 0) R(2, O, 1) R(2, O, 2) R(2, O, 3)
#if GROUP == 0
R1(0) R1(1) R1(2) R1(3) R1(4) R1(5) R1(6) R1(7) R(1, 8, 0) R(1, 9, 1)
#elif GROUP == 1
R2(0) R2(1) R2(2)
#elif GROUP == 2
R2(3) R2(4) R2(5)
#elif GROUP == 3
R(3, 0, 7) R(3, 1, 0) R(3, 2, 7) R(3, 2, 2) R(3, 3, 7) R(3, 3, 5) R(3, 3, 0) R(3, 4, 6)
#elif GROUP == 4
R(4, 1, 15) R(4, 2, 5) R(4, 3, 15) R(3, 5, 7) R(3, 1, 5) R(3, 0, 2) R(3, 4, 1) R(5, 1, 31) R(5, 2, 9)
#elif GROUP == 5
RT(float, 1, 3, float, 1, "float/float", 1) RT(float, 1, 2, float, 0, "float/float", 1) RT(float, 2, 3, float, 1, "float/float", 1)
RT(std::complex<double>, 1, 3, double, 1, "complex", 2) RT(std::complex<double>, 2, 2, double, 1, "complex", 2)
RT(va::Vec3, 1, 3, double, 1, "vec3", 3) RT(va::Vec3, 2, 4, double, 2, "vec3", 3) RT(va::Vec3, 1, 2, double, 0, "vec3", 3)
RT(long double, 1, 3, long double, 1, "long double", 4) RT(long double, 2, 5, long double, 2, "long double", 4)
RT(float, 1, 4, double, 1, "float/double", 5) RT(double, 1, 5, float, 1, "double/float", 6)
#elif GROUP == 6
RT(va::Hook, 1, 3, double, 1, "hook", 7) RT(va::Hook, 2, 2, double, 1, "hook", 7) RT(va::Hook, 2, 3, double, 2, "hook", 7) RT(va::Hook, 3, 2, double, 5, "hook", 7) RT(va::Hook, 1, 4, double, 0, "hook", 7)
#elif GROUP == 7
R(1, 3, 1) R(1, 4, 0) R(2, 1, 1) R(2, 3, 3) R(2, 2, 0) R(2, 5, 2) R(3, 2, 7) R(3, 3, 2) R(4, 2, 5)
RT(float, 2, 3, float, 1, "float/float", 1) RT(std::complex<double>, 2, 2, double, 1, "complex", 2) RT(va::Vec3, 2, 4, double, 2, "vec3", 3)
#endif
