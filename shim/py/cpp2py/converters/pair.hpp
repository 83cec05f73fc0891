#pragma once
#include "../cpp2py.hpp"
