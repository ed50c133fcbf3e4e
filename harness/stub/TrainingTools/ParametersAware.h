// Stand-in for the interface of the optimiser library (TrainingTools), which is
// not installed here: only what train_model() relies on.
#pragma once
#include <Eigen/Core>
namespace train {
using Vect = Eigen::VectorXd;
class ParametersAware {
public:
  virtual ~ParametersAware() = default;
  virtual Vect getParameters() const = 0;
  virtual void setParameters(const Vect &v) = 0;
  virtual Vect getGradient() const = 0;
};
} // namespace train
