#pragma once
namespace math { namespace wide_integer { using int128_t = __int128; } }
