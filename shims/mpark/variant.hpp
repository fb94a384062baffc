#pragma once
#include <variant>
namespace mpark { using namespace std; }
