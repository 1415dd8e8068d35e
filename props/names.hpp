// The named spline types of the library, by order.
#pragma once
#include "curves/polynomial_splines.hpp"
#include "curves/polynomial_splines_containers.hpp"
template <int N> struct Named { typedef curves::PolynomialSpline<N> Spline; typedef curves::PolynomialSplineContainer<N> Container; };
template <> struct Named<2> { typedef curves::PolynomialSplineQuadratic Spline; typedef curves::PolynomialSplineContainerQuadratic Container; };
template <> struct Named<3> { typedef curves::PolynomialSplineCubic Spline; typedef curves::PolynomialSplineContainerCubic Container; };
template <> struct Named<4> { typedef curves::PolynomialSplineQuartic Spline; typedef curves::PolynomialSplineContainerQuartic Container; };
template <> struct Named<5> { typedef curves::PolynomialSplineQuintic Spline; typedef curves::PolynomialSplineContainerQuintic Container; };
