#include "basicview.hpp"
OP("vertexlist view", 4, ANY) { basicview::pick<basicview::VERTEXLIST>(w); }
