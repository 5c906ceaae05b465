// Intrinsics understood by the analysis.
#ifndef VERIF_HPP_
#define VERIF_HPP_
void __verif_assume(bool);
void __verif_assert(bool);
// the named function is decided by another obligation: keep its calls uninterpreted here
void __verif_opaque(const char *);
// likewise, and it is known not to change the sizes of the sequences it writes to
void __verif_opaque_in_place(const char *);
// as __verif_opaque; the result has as many elements as the first argument (which the property of the function states)
void __verif_opaque_pointwise(const char *);
// as __verif_opaque; it may refuse a call by an exception of the given type, having changed nothing
void __verif_opaque_throwing(const char *, const char *);
// an arbitrary number, the same for the same index
double __verif_free(int index);
double __verif_derivative(double expression, double variable);
template<typename T> T __verif_unspecified();
// keep the elements for which the predicate holds, in their order
template<typename C, typename F> void __verif_keep(C & container, F predicate) {}
#include <Eigen/Core>
// the definition in the Eigen headers is only valid in front of a declarator for clang
#undef EIGEN_ALIGN16
#define EIGEN_ALIGN16 __attribute__((aligned(16)))
#endif
