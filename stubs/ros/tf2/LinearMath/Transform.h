#include <sxros/tf.h>
