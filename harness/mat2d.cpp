// VC harness: src/cmat2d.hpp
#include "vc.h"
#include <cstdlib>
#include <utility>
#include "cmat2d.hpp"
using dso::Mat2D;
using MS = dso::MatrixStorageType;

template <MS S> static bool stored(int r, int c, int i, int j) {
  return i >= 0 && i < r && j >= 0 && j < c && (S != MS::Trapezoid || j <= i);
}

template <MS S> static void dense() {
  const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
  Mat2D<S> m(r, c);
  const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
  const int k = vc_int("k", 0, 29999), l = vc_int("l", 0, 29999);
  vc_assume(stored<S>(r, c, i, j) && stored<S>(r, c, k, l));
  vc_assert(m.rows() == r && m.cols() == c, "dimensions-as-constructed");
  const double a = vc_real("a", -10, 10), b = vc_real("b", -10, 10);
  m(i, j) = a;
  m(k, l) = b;
  vc_assert(m(k, l) == b, "reads-back-last-write");
  if (i != k || j != l)
    vc_assert(m(i, j) == a, "other-element-untouched");
  vc_cover("end");
}
HARNESS(rowwise) { dense<MS::RowWise>(); }
HARNESS(colwise) { dense<MS::ColumnWise>(); }
HARNESS(trapezoid) { dense<MS::Trapezoid>(); }

// copies are deep, moves hand the elements over, nothing leaks and nothing is freed twice
template <MS S> static double &put(Mat2D<S> &m, int i, int j, double v) { m(i, j) = v; return m(i, j); }

HARNESS(copy) {
  vc_live_mark();
  {
    const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
    const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
    vc_assume(stored<MS::RowWise>(r, c, i, j));
    const double a = vc_real("a", -10, 10), b = vc_real("b", -10, 10);
    Mat2D<MS::RowWise> m(r, c);
    m(i, j) = a;
    Mat2D<MS::RowWise> d(m);
    vc_assert(d.rows() == r && d.cols() == c, "copy-has-the-dimensions");
    vc_assert(d(i, j) == a, "copy-has-the-elements");
    d(i, j) = b;
    vc_assert(m(i, j) == a, "copy-is-independent");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}
HARNESS(copyassign) {
  vc_live_mark();
  {
    const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
    const int r2 = vc_int("rows2", 1, 30000), c2 = vc_int("cols2", 1, 30000);
    const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
    vc_assume(stored<MS::ColumnWise>(r, c, i, j));
    const double a = vc_real("a", -10, 10), b = vc_real("b", -10, 10);
    Mat2D<MS::ColumnWise> m(r, c), d(r2, c2);
    m(i, j) = a;
    d = m;
    vc_assert(d.rows() == r && d.cols() == c, "assignment-takes-the-dimensions");
    vc_assert(d(i, j) == a, "assignment-copies-the-elements");
    d(i, j) = b;
    vc_assert(m(i, j) == a, "copy-is-independent");
    Mat2D<MS::ColumnWise> &self = d;
    d = self;
    vc_assert(d(i, j) == b, "self-assignment-keeps-the-elements");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}
HARNESS(moves) {
  vc_live_mark();
  {
    const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
    const int r2 = vc_int("rows2", 1, 30000), c2 = vc_int("cols2", 1, 30000);
    const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
    vc_assume(stored<MS::RowWise>(r, c, i, j));
    const double a = vc_real("a", -10, 10), b = vc_real("b", -10, 10);
    Mat2D<MS::RowWise> m(r, c), e(r2, c2);
    m(i, j) = a;
    Mat2D<MS::RowWise> d(std::move(m));
    vc_assert(d.rows() == r && d.cols() == c && d(i, j) == a, "move-hands-the-elements-over");
    e = std::move(d);
    vc_assert(e.rows() == r && e.cols() == c && e(i, j) == a, "move-assignment-hands-the-elements-over");
    Mat2D<MS::RowWise> &self = e;
    e = std::move(self);
    vc_assert(e(i, j) == a, "self-move-keeps-the-elements");
    e(i, j) = b;
    d = e;
    vc_assert(d.rows() == r && d.cols() == c && d(i, j) == b, "moved-from-matrix-can-be-assigned");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}
HARNESS(fill_slice) {
  const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
  const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
  vc_assume(stored<MS::RowWise>(r, c, i, j));
  const double a = vc_real("a", -10, 10);
  {
    Mat2D<MS::RowWise> m(r, c);
    m.fill_with(a);
    vc_assert(m(i, j) == a, "fill-reaches-every-element");
    vc_assert(m.slice(i) + j == &m(i, j), "row-slice-is-the-row");
    vc_assert(m.num_elements() == (long)r * c, "element-count");
  }
  {
    Mat2D<MS::ColumnWise> m(r, c);
    m.fill_with(a);
    vc_assert(m(i, j) == a, "fill-reaches-every-element");
    vc_assert(m.slice(j) + i == &m(i, j), "column-slice-is-the-column");
    vc_assert(m.num_elements() == (long)r * c, "element-count");
  }
  vc_cover("end");
}
HARNESS(trapezoid_fill) {
  const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
  const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
  vc_assume(stored<MS::Trapezoid>(r, c, i, j));
  const double a = vc_real("a", -10, 10);
  Mat2D<MS::Trapezoid> m(r, c);
  m.fill_with(a);
  vc_assert(m(i, j) == a, "fill-reaches-every-element");
  vc_assert(m.slice(i) + j == &m(i, j), "row-slice-is-the-row");
  if (r <= c)
    vc_assert(m.num_elements() == (long)r * (r + 1) / 2, "element-count");
  else
    vc_assert(2 * m.num_elements() == (long)c * (2L * r - c + 1), "element-count");
  vc_cover("end");
}
HARNESS(trapezoid_copy) {
  vc_live_mark();
  {
    const int r = vc_int("rows", 1, 30000), c = vc_int("cols", 1, 30000);
    const int i = vc_int("i", 0, 29999), j = vc_int("j", 0, 29999);
    vc_assume(stored<MS::Trapezoid>(r, c, i, j));
    const double a = vc_real("a", -10, 10), b = vc_real("b", -10, 10);
    Mat2D<MS::Trapezoid> m(r, c);
    m(i, j) = a;
    Mat2D<MS::Trapezoid> d(m);
    vc_assert(d.rows() == r && d.cols() == c && d(i, j) == a, "copy-has-the-elements");
    d(i, j) = b;
    vc_assert(m(i, j) == a, "copy-is-independent");
    Mat2D<MS::Trapezoid> e(std::move(m));
    vc_assert(e.rows() == r && e.cols() == c && e(i, j) == a, "move-hands-the-elements-over");
    vc_cover("end");
  }
  vc_noleak("storage-released-exactly-once");
}
