// Manhattan polygons in every type that can hold them.
#include "poly.hpp"
using namespace poly;
PBT_TARGET(manhattan, 700000, 14000000) {
  Case c = make_case(s, 0, POLY_LIM);
  switch (s.irange(0, 9)) {
    case 0: run<bp::polygon_90_data<int> >(s, c, "polygon_90_data<int>"); break; case 1: run<bp::polygon_90_with_holes_data<int> >(s, c, "polygon_90_with_holes_data<int>"); break;
    case 2: run<Own90<int> >(s, c, "own polygon_90"); break; case 3: run<bp::polygon_90_data<ll> >(s, c, "polygon_90_data<long long>"); break;
    case 4: real_points(c); run<bp::polygon_90_with_holes_data<double> >(s, c, "polygon_90_with_holes_data<double>"); break;
    case 5: convert<bp::polygon_90_with_holes_data<int>, bp::polygon_90_data<int> >(s, c, "assignment of polygon_90 to polygon_90_with_holes"); convert<bp::polygon_45_data<int>, bp::polygon_90_data<int> >(s, c, "assignment of polygon_90 to polygon_45"); break;
    case 6: convert<bp::polygon_45_with_holes_data<int>, bp::polygon_90_with_holes_data<int> >(s, c, "assignment of polygon_90_with_holes to polygon_45_with_holes"); convert<bp::polygon_with_holes_data<int>, bp::polygon_90_with_holes_data<int> >(s, c, "assignment of polygon_90_with_holes to polygon_with_holes"); break;
    case 7: convert<bp::polygon_data<int>, Own90<int> >(s, c, "assignment of own polygon_90 to polygon"); convert<bp::polygon_90_data<int>, Own90<int> >(s, c, "assignment of own polygon_90 to polygon_90"); break;
    case 8: view<bp::polygon_90_concept, bp::polygon_data<int> >(s, c, "view of polygon as polygon_90"); view<bp::polygon_90_concept, bp::polygon_45_data<int> >(s, c, "view of polygon_45 as polygon_90"); view<bp::polygon_45_concept, bp::polygon_data<int> >(s, c, "view of polygon as polygon_45"); break;
    default: view<bp::polygon_90_with_holes_concept, bp::polygon_with_holes_data<int> >(s, c, "view of polygon_with_holes as polygon_90_with_holes"); view<bp::polygon_90_with_holes_concept, bp::polygon_45_with_holes_data<int> >(s, c, "view of polygon_45_with_holes as polygon_90_with_holes");
  }
}
