#ifndef P36_HPP
#define P36_HPP
#include "config.h"
#define FLOW_NO_WELLS
#include "transport.hpp"
#include <opm/core/transport/implicit/TransportSolverTwophaseImplicit.hpp>
#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
typedef std::vector<double> dvec;
typedef Opm::SinglePointUpwindTwoPhase<Opm::SimpleFluid2pWrappingProps> Model;
struct SerModel : public Model { SerModel(const Opm::SimpleFluid2pWrappingProps& f, const UnstructuredGrid& g, const dvec& pv, const double* gr, bool gp) : Model(f, g, pv, gr, gp) {} };
extern "C" {
void ser_face_geometry(int, double*, int, int*, int*, double*, double*, double*);
void ser_cell_geometry(int, double*, int*, int*, int*, double*, double*, int, int*, int*, double*, double*);
}
void ser_columns(SerModel& m, const UnstructuredGrid& g, double tol, int maxit, const std::vector<std::vector<int>>& cols, double dt, dvec& s);
#endif
