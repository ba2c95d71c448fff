#pragma once
#include <string>
namespace sensor_msgs { namespace image_encodings {
const char RGB8[] = "rgb8";
const char RGBA8[] = "rgba8";
const char BGR8[] = "bgr8";
const char BGRA8[] = "bgra8";
const char MONO8[] = "mono8";
const char MONO16[] = "mono16";
const char TYPE_8UC1[] = "8UC1";
const char TYPE_8UC3[] = "8UC3";
const char TYPE_8UC4[] = "8UC4";
inline bool isColor(const std::string & e) {return e == RGB8 || e == BGR8 || e == RGBA8 || e == BGRA8;}
inline bool isMono(const std::string & e) {return e == MONO8 || e == MONO16;}
inline bool hasAlpha(const std::string & e) {return e == RGBA8 || e == BGRA8;}
inline int bitDepth(const std::string & e) {return e == MONO16 ? 16 : 8;}
inline int numChannels(const std::string & e)
{
  if (e == MONO8 || e == MONO16 || e == TYPE_8UC1) {return 1;}
  return e == RGBA8 || e == BGRA8 || e == TYPE_8UC4 ? 4 : 3;
}
}}
