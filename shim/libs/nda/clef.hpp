#pragma once
#include "./clef/clef.hpp"
