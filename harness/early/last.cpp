// Linked after the library.
#include "early.hpp"
static early::Unit unit(early::CTOR_UNIT_LAST, early::DTOR_UNIT_LAST);
