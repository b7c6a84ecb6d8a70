#include <sxros/misc.h>
