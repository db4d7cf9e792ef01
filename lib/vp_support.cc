#include "vp_support.h"
template class std::basic_string<char>;
