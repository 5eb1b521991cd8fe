#include "basicview.hpp"
OP("edgelist view", 4, ANY) { basicview::pick<basicview::EDGELIST>(w); }
