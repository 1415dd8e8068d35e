// Only used to validate the kindr stand-in against the repository's own (not buildable here) CubicHermiteSE3CurveTest.cpp.
#pragma once
#include <gtest/gtest.h>
#include <string>
#define KINDR_ASSERT_DOUBLE_MX_EQ(A, B, P, MSG) ASSERT_LT(((A) - (B)).norm(), (P) * (1.0 + (A).norm())) << MSG
#define KINDR_ASSERT_DOUBLE_MX_EQ_ZT(A, B, P, MSG, ZT) ASSERT_LT(((A) - (B)).norm(), (P) / 100 * (A).norm() + (ZT) * 10) << MSG
