#include <sxros/core.h>
