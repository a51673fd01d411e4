#pragma once
#include "mc_tbb.h"
