#include "basicview.hpp"
OP("incidence view", 4, ANY) { basicview::pick<basicview::INCIDENCE>(w); }
