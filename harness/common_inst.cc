// clang does not instantiate members which are defined after the explicit
// instantiation, as in arki/stream/abstract.cc (gcc does): instantiate them here
#include <arki/stream/abstract.h>
#if __has_include(<arki/stream/abstract.tcc>)
#include <arki/stream/abstract.tcc>
namespace arki {
namespace stream {
template class AbstractStreamOutput<LinuxBackend>;
template class AbstractStreamOutput<TestingBackend>;
} // namespace stream
} // namespace arki
#endif
