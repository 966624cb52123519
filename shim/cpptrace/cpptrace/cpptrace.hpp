// stand-in: the stack trace library is not installed here
#pragma once
#include <string>
namespace cpptrace
{
struct stacktrace
{
    std::string to_string() const { return "stand-in trace"; }
};
inline stacktrace generate_trace() { return {}; }
}
