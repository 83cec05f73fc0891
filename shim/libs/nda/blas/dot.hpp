#pragma once
#include "../blas.hpp"
