#ifndef SIM_OCTOMAP_CONV_H
#define SIM_OCTOMAP_CONV_H
#include <octomap/octomap.h>
#include <octomap_msgs/Octomap.h>
namespace octomap_msgs {
octomap::AbstractOcTree* msgToMap(const Octomap& m);      // NULL when the data cannot be decoded
octomap::AbstractOcTree* fullMsgToMap(const Octomap& m);
octomap::AbstractOcTree* binaryMsgToMap(const Octomap& m);
}
#endif
