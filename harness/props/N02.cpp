#define FORM_ID "N02"
#define FORM ucd::FORM_C
#include "../norm_exact.hpp"
