/* the library's geometry code, compiled without the parallel loops */
#define compute_face_geometry ser_face_geometry
#define compute_cell_geometry ser_cell_geometry
#include <opm/core/grid/cpgpreprocess/geometry.c>
