#pragma once
#include <gsl-lite/gsl-lite.hpp>
