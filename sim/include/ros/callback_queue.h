#include <sim/simros.h>
