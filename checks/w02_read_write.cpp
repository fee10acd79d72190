// The example program under another symbol name.
int main(int, char **) __asm__("vp_example_read_write");
#include "../examples/cpp/example_read_write.cpp"
