#include <octomap/octomap.h>
