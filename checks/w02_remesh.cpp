// The example program under another symbol name.
int main(int, char **) __asm__("vp_example_remesh");
#include "../examples/cpp/example_remesh.cpp"
