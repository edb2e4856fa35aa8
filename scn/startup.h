#pragma once
#include <cstdint>
namespace startup {
struct Out { uint64_t h, n; };
void constructed(int user); void destroyed(int user);       // called by the users' static constructors and destructors
}
