// the library's column solver, compiled without the parallel loops
#include "p36.hpp"
void ser_columns(SerModel& m, const UnstructuredGrid& g, double tol, int maxit, const std::vector<std::vector<int>>& cols, double dt, dvec& s) { Opm::GravityColumnSolver<SerModel> gs(m, g, tol, maxit); gs.solve(cols, dt, s); }
