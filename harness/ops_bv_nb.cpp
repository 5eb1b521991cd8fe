#include "basicview.hpp"
OP("neighbors view", 4, ANY) { basicview::pick<basicview::NEIGHBORS>(w); }
