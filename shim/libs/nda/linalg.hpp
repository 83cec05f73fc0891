#pragma once
#include "./lapack.hpp"
