// Clocks are under the harness's control, symbolically and natively.
#include <chrono>
#include <cstdint>
#include <boost/chrono.hpp>
extern "C" __attribute__((weak)) int64_t sx_clock_ns() { return 0; }
namespace boost
{
namespace chrono
{
steady_clock::time_point steady_clock::now() BOOST_NOEXCEPT { return time_point(duration(static_cast<rep>(sx_clock_ns()))); }
system_clock::time_point system_clock::now() BOOST_NOEXCEPT { return time_point(system_clock::duration(static_cast<rep>(sx_clock_ns()))); }
}
}
namespace std
{
namespace chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock_ns())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock_ns())); }
}
}
}
