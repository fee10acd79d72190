#define VP_KIND 0
#include "edit_search.inc"
