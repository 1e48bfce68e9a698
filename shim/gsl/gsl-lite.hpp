#include "../gsl-lite/gsl-lite.hpp"
