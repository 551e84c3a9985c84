// Assumed contract of the external "matvec" library (not in /repo, not installed): plain 3-d
// vector and row-major 3x3 matrix arithmetic.
#ifndef VC_STUB_MATVEC_HPP
#define VC_STUB_MATVEC_HPP
#include <cmath>
#include <cstring>
#include <initializer_list>
namespace dso {
struct Vector3 {
  double data[3] = {0e0, 0e0, 0e0};
  constexpr double &x() noexcept { return data[0]; }
  constexpr double &y() noexcept { return data[1]; }
  constexpr double &z() noexcept { return data[2]; }
  constexpr double x() const noexcept { return data[0]; }
  constexpr double y() const noexcept { return data[1]; }
  constexpr double z() const noexcept { return data[2]; }
  constexpr double &operator()(int i) noexcept { return data[i]; }
  constexpr double operator()(int i) const noexcept { return data[i]; }
  double norm_squared() const noexcept { return data[0] * data[0] + data[1] * data[1] + data[2] * data[2]; }
  double norm() const noexcept { return std::sqrt(norm_squared()); }
  double dot_product(const Vector3 &b) const noexcept { return data[0] * b.data[0] + data[1] * b.data[1] + data[2] * b.data[2]; }
  Vector3 cross_product(const Vector3 &b) const noexcept {
    return Vector3{{data[1] * b.data[2] - data[2] * b.data[1], data[2] * b.data[0] - data[0] * b.data[2],
                    data[0] * b.data[1] - data[1] * b.data[0]}};
  }
  Vector3 normalize() const noexcept { const double n = norm(); return Vector3{{data[0] / n, data[1] / n, data[2] / n}}; }
  Vector3 &operator/=(double s) noexcept { for (int i = 0; i < 3; i++) data[i] /= s; return *this; }
  Vector3 &operator*=(double s) noexcept { for (int i = 0; i < 3; i++) data[i] *= s; return *this; }
  Vector3 &operator+=(const Vector3 &b) noexcept { for (int i = 0; i < 3; i++) data[i] += b.data[i]; return *this; }
  Vector3 &operator-=(const Vector3 &b) noexcept { for (int i = 0; i < 3; i++) data[i] -= b.data[i]; return *this; }
  static Vector3 to_vec3(const double *p) noexcept { return Vector3{{p[0], p[1], p[2]}}; }
};
inline Vector3 operator+(const Vector3 &a, const Vector3 &b) noexcept { return Vector3{{a.data[0] + b.data[0], a.data[1] + b.data[1], a.data[2] + b.data[2]}}; }
inline Vector3 operator-(const Vector3 &a, const Vector3 &b) noexcept { return Vector3{{a.data[0] - b.data[0], a.data[1] - b.data[1], a.data[2] - b.data[2]}}; }
inline Vector3 operator-(const Vector3 &a) noexcept { return Vector3{{-a.data[0], -a.data[1], -a.data[2]}}; }
inline Vector3 operator*(const Vector3 &a, double s) noexcept { return Vector3{{a.data[0] * s, a.data[1] * s, a.data[2] * s}}; }
inline Vector3 operator*(double s, const Vector3 &a) noexcept { return a * s; }
inline Vector3 operator/(const Vector3 &a, double s) noexcept { return Vector3{{a.data[0] / s, a.data[1] / s, a.data[2] / s}}; }
struct Mat3x3 {
  double data[9] = {1e0, 0, 0, 0, 1e0, 0, 0, 0, 1e0};
  constexpr double &operator()(int i, int j) noexcept { return data[i * 3 + j]; }
  constexpr double operator()(int i, int j) const noexcept { return data[i * 3 + j]; }
  Mat3x3() noexcept {}
  Mat3x3(const double (&d)[9]) noexcept { for (int i = 0; i < 9; i++) data[i] = d[i]; }
  Mat3x3 &transpose_inplace() noexcept {
    double t = data[1]; data[1] = data[3]; data[3] = t;
    t = data[2]; data[2] = data[6]; data[6] = t;
    t = data[5]; data[5] = data[7]; data[7] = t;
    return *this;
  }
  Vector3 operator*(const Vector3 &v) const noexcept {
    return Vector3{{data[0] * v.data[0] + data[1] * v.data[1] + data[2] * v.data[2],
                    data[3] * v.data[0] + data[4] * v.data[1] + data[5] * v.data[2],
                    data[6] * v.data[0] + data[7] * v.data[1] + data[8] * v.data[2]}};
  }
  Mat3x3 operator*(const Mat3x3 &b) const noexcept {
    Mat3x3 r;
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++)
        r.data[i * 3 + j] = data[i * 3] * b.data[j] + data[i * 3 + 1] * b.data[3 + j] + data[i * 3 + 2] * b.data[6 + j];
    return r;
  }
  // rotation of the frame by angle a about z (SOFA convention)
  static Mat3x3 RotZ(double a) noexcept {
    const double c = std::cos(a), s = std::sin(a);
    return Mat3x3({c, s, 0e0, -s, c, 0e0, 0e0, 0e0, 1e0});
  }
};
} // namespace dso
#endif
