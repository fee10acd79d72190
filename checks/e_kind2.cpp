#define VP_KIND 2
#include "edit_search.inc"
