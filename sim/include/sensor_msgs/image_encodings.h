#ifndef SIM_IMG_ENC_H
#define SIM_IMG_ENC_H
#include <string>
namespace sensor_msgs { namespace image_encodings {
const std::string RGB8 = "rgb8", RGBA8 = "rgba8", BGR8 = "bgr8", MONO8 = "mono8", MONO16 = "mono16", TYPE_32FC1 = "32FC1", TYPE_8UC1 = "8UC1", TYPE_16UC1 = "16UC1";
} }
#endif
