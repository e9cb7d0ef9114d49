#include "ceres/ceres.h"
#include <cstdio>
struct F{ template<class T> bool operator()(const T*x,T*r)const{r[0]=T(10)-x[0];return true;}};
int main(){double x=1; ceres::Problem p; p.AddResidualBlock(new ceres::AutoDiffCostFunction<F,1,1>(new F),nullptr,&x); ceres::Solver::Options o; ceres::Solver::Summary s; ceres::Solve(o,&p,&s); printf("%s %g\n",s.BriefReport().c_str(),x);}
