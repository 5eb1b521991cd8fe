#include "basicview.hpp"
OP("in_incidence view", 3, ANY) { basicview::pick<basicview::IN_INCIDENCE>(w); }
OP("in_neighbors view", 3, ANY) { basicview::pick<basicview::IN_NEIGHBORS>(w); }
