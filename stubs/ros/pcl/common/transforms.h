#include <sxros/pcl.h>
