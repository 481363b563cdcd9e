#include "types_common.hpp"
PBT_TARGET(types_a, 300000, 6000000) {
  switch (s.irange(0, 9)) {
    case 0: PAIR(RD, RD); break; case 1: PAIR(RD, PD); break; case 2: PAIR(PD, RD); break; case 3: PAIR(PD, PD); break;
    case 4: PAIR(WD, PD); break; case 5: PAIR(WD, WD); break; case 6: PAIR(VR, VP); break; case 7: PAIR(PS, RD); break;
    case 8: PAIR(RD, PS); break; default: PAIR(PD, PS);
  }
}
