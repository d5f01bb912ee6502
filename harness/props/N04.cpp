#define FORM_ID "N04"
#define FORM ucd::FORM_KC
#include "../norm_exact.hpp"
