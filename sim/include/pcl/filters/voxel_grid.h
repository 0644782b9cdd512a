#include <pcl/pcl_all.h>
