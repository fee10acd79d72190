#define VP_KIND 1
#include "edit_search.inc"
