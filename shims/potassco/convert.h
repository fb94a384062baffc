#pragma once
#include <potassco/basic_types.h>
