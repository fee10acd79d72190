// The example program under another symbol name.
int main(int, char **) __asm__("vp_example_smooth");
#include "../examples/cpp/example_smooth.cpp"
