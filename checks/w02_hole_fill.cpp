// The example program under another symbol name.
int main(int, char **) __asm__("vp_example_hole_fill");
#include "../examples/cpp/example_hole_fill.cpp"
