// The part of cv_bridge for 8 bit images
#pragma once
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <opencv2/opencv.hpp>
#include "sensor_msgs/image_encodings.hpp"
#include "sensor_msgs/msg/image.hpp"
namespace cv_bridge
{
class Exception : public std::runtime_error
{
public:
  explicit Exception(const std::string & s)
  : std::runtime_error(s) {}
};
inline int ChannelsOf(const std::string & e)
{
  if (e == "mono8" || e == "8UC1") {return 1;}
  if (e == "rgb8" || e == "bgr8" || e == "8UC3") {return 3;}
  if (e == "rgba8" || e == "bgra8" || e == "8UC4") {return 4;}
  throw Exception("Unrecognized image encoding [" + e + "]");
}
class CvImage
{
public:
  std_msgs::msg::Header header;
  std::string encoding;
  cv::Mat image;
  CvImage() {}
  CvImage(const std_msgs::msg::Header & h, const std::string & e, const cv::Mat & i = cv::Mat())
  : header(h), encoding(e), image(i) {}
  sensor_msgs::msg::Image::SharedPtr toImageMsg() const
  {
    auto m = std::make_shared<sensor_msgs::msg::Image>();
    m->header = header;
    m->height = image.rows;
    m->width = image.cols;
    m->encoding = encoding;
    m->step = image.cols * image.elemSize();
    m->data.resize(size_t(m->step) * m->height);
    for (int i = 0; i < image.rows; ++i) {std::memcpy(m->data.data() + size_t(i) * m->step, image.ptr(i), m->step);}
    return m;
  }
};
typedef std::shared_ptr<CvImage> CvImagePtr;
typedef std::shared_ptr<CvImage const> CvImageConstPtr;
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image & m, const std::string & to = std::string())
{
  int n = ChannelsOf(m.encoding);
  if (m.step < m.width * n) {throw Exception("Image is wrongly formed: step < width * byte_depth * num_channels");}
  if (size_t(m.height) * m.step != m.data.size()) {throw Exception("Image is wrongly formed: height * step != size");}
  cv::Mat i(m.height, m.width, CV_8UC(n));
  for (uint32_t r = 0; r < m.height; ++r) {std::memcpy(i.ptr(r), m.data.data() + size_t(r) * m.step, size_t(m.width) * n);}
  auto out = std::make_shared<CvImage>(m.header, to.empty() ? m.encoding : to, i);
  if (to.empty() || to == m.encoding) {return out;}
  bool plain = m.encoding[0] == '8', want_plain = to[0] == '8';
  if (plain || want_plain) {
    if (plain != want_plain || ChannelsOf(to) != n) {
      // The channels say nothing of colours
      if (ChannelsOf(to) != n || plain) {
        throw Exception("[" + m.encoding + "] is not a color format. but [" + to + "] is. The conversion does not make sense");
      }
    }
    return out;
  }
  auto colour = [](const std::string & e) {return e.substr(0, e.size() - 1);};
  std::string a = colour(m.encoding), b = colour(to);
  static const std::map<std::string, int> codes{
    {"mono>rgb", cv::COLOR_GRAY2RGB}, {"mono>bgr", cv::COLOR_GRAY2BGR}, {"mono>rgba", cv::COLOR_GRAY2RGBA}, {"mono>bgra", cv::COLOR_GRAY2BGRA},
    {"rgb>mono", cv::COLOR_RGB2GRAY}, {"rgb>bgr", cv::COLOR_RGB2BGR}, {"rgb>rgba", cv::COLOR_RGB2RGBA}, {"rgb>bgra", cv::COLOR_RGB2BGRA},
    {"bgr>mono", cv::COLOR_BGR2GRAY}, {"bgr>rgb", cv::COLOR_BGR2RGB}, {"bgr>rgba", cv::COLOR_BGR2RGBA}, {"bgr>bgra", cv::COLOR_BGR2BGRA},
    {"rgba>mono", cv::COLOR_RGBA2GRAY}, {"rgba>rgb", cv::COLOR_RGBA2RGB}, {"rgba>bgr", cv::COLOR_RGBA2BGR}, {"rgba>bgra", cv::COLOR_RGBA2BGRA},
    {"bgra>mono", cv::COLOR_BGRA2GRAY}, {"bgra>rgb", cv::COLOR_BGRA2RGB}, {"bgra>bgr", cv::COLOR_BGRA2BGR}, {"bgra>rgba", cv::COLOR_BGRA2RGBA}};
  auto code = codes.find(a + ">" + b);
  if (code != codes.end()) {
    cv::Mat o;
    cv::cvtColor(i, o, code->second);
    out->image = o;
  }
  return out;
}
inline CvImagePtr toCvCopy(const sensor_msgs::msg::Image::ConstSharedPtr & m, const std::string & to = std::string())
{
  return toCvCopy(*m, to);
}
inline CvImageConstPtr toCvShare(const sensor_msgs::msg::Image::ConstSharedPtr & m, const std::string & to = std::string())
{
  return toCvCopy(*m, to);
}
}
