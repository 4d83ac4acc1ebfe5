#include "ugly_shim.hpp"
