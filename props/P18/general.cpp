// Polygons of any angle in every type that can hold them.
#include "poly.hpp"
using namespace poly;
PBT_TARGET(general, 700000, 14000000) {
  Case c = make_case(s, s.weighted({1, 1, 4}), POLY_LIM);
  switch (s.irange(0, 8)) {
    case 0: run<bp::polygon_data<int> >(s, c, "polygon_data<int>"); break; case 1: run<bp::polygon_with_holes_data<int> >(s, c, "polygon_with_holes_data<int>"); break;
    case 2: run<OwnPoly >(s, c, "own polygon"); break; case 3: run<OwnHoles >(s, c, "own polygon_with_holes"); break;
    case 4: run<bp::polygon_with_holes_data<ll> >(s, c, "polygon_with_holes_data<long long>"); break; case 5: real_points(c); run<bp::polygon_data<double> >(s, c, "polygon_data<double>"); break; case 6: real_points(c); run<bp::polygon_with_holes_data<double> >(s, c, "polygon_with_holes_data<double>"); break;
    case 7: convert<bp::polygon_with_holes_data<int>, bp::polygon_data<int> >(s, c, "assignment of polygon to polygon_with_holes"); convert<OwnPoly, bp::polygon_data<int> >(s, c, "assignment of polygon to own polygon"); break;
    default: convert<OwnHoles, bp::polygon_with_holes_data<int> >(s, c, "assignment of polygon_with_holes to own polygon_with_holes"); view<bp::polygon_concept, bp::polygon_with_holes_data<int> >(s, c, "view of polygon_with_holes as polygon"); convert<bp::polygon_data<int>, OwnPoly >(s, c, "assignment of own polygon to polygon");
  }
}
