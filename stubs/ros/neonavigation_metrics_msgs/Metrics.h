#include <sxros/msgs.h>
