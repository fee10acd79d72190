// Stand-in for <pybind11/pybind11.h>, used only so that the library can be compiled in its
// "Python module" configuration (where reported errors are C++ exceptions) without an interpreter.
#ifndef VP_STANDIN_PYBIND11_H
#define VP_STANDIN_PYBIND11_H
#include <stdexcept>
#include <string>
namespace pybind11 {
struct arg_v {};
struct arg {
    constexpr explicit arg(const char *) {
    }
    template <typename T>
    arg_v operator=(T &&) const {
        return {};
    }
};
template <typename... Args>
void print(Args &&...) {
}
namespace literals {
inline arg operator""_a(const char *s, size_t) {
    return arg(s);
}
}  // namespace literals
#define VP_PY_EXC(name)                                        \
    struct name : std::runtime_error {                         \
        explicit name(const std::string &s = "")               \
            : std::runtime_error(s) {                          \
        }                                                      \
    };
VP_PY_EXC(value_error)
VP_PY_EXC(index_error)
VP_PY_EXC(type_error)
VP_PY_EXC(cast_error)
VP_PY_EXC(error_already_set)
#undef VP_PY_EXC
}  // namespace pybind11
#endif
