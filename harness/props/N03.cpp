#define FORM_ID "N03"
#define FORM ucd::FORM_KD
#include "../norm_exact.hpp"
