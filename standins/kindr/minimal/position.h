// Stand-in for minkindr (not available here): positions are plain vectors.
#pragma once
#include <Eigen/Core>
namespace kindr { namespace minimal {
template <class S> using PositionTemplate = Eigen::Matrix<S, 3, 1>;
typedef PositionTemplate<double> Position;
} }
