// the installed header of edge_v is the one of the source tree
#include "tools/edge_v/src/edge_v.h"
