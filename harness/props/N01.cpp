#define FORM_ID "N01"
#define FORM ucd::FORM_D
#include "../norm_exact.hpp"
