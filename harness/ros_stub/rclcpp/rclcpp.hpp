// Stands in for the ROS 2 client library in one process: parameters come from a
// table, subscriptions and publishers are kept in lists, nothing runs by itself.
// Parameters are typed statically, as in ROS 2.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace rclcpp
{
enum class ParameterType {NOT_SET, BOOL, INTEGER, DOUBLE, STRING, BOOL_ARRAY, INTEGER_ARRAY, DOUBLE_ARRAY, STRING_ARRAY};

namespace exceptions
{
struct ParameterAlreadyDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};
struct ParameterNotDeclaredException : std::runtime_error {using std::runtime_error::runtime_error;};
struct InvalidParameterTypeException : std::runtime_error {using std::runtime_error::runtime_error;};
}
struct ParameterTypeException : std::runtime_error {using std::runtime_error::runtime_error;};

class ParameterValue
{
public:
  ParameterValue() {}
  ParameterValue(bool v) : t(ParameterType::BOOL), b(v) {}
  ParameterValue(int v) : t(ParameterType::INTEGER), i(v) {}
  ParameterValue(long v) : t(ParameterType::INTEGER), i(v) {}
  ParameterValue(float v) : t(ParameterType::DOUBLE), d(v) {}
  ParameterValue(double v) : t(ParameterType::DOUBLE), d(v) {}
  ParameterValue(const char * v) : t(ParameterType::STRING), s(v) {}
  ParameterValue(const std::string & v) : t(ParameterType::STRING), s(v) {}
  ParameterValue(const std::vector<double> & v) : t(ParameterType::DOUBLE_ARRAY), da(v) {}
  ParameterValue(const std::vector<std::string> & v) : t(ParameterType::STRING_ARRAY), sa(v) {}
  ParameterType t{ParameterType::NOT_SET};
  bool b{false};
  int64_t i{0};
  double d{0};
  std::string s;
  std::vector<double> da;
  std::vector<std::string> sa;
};

class Parameter
{
public:
  Parameter() {}
  template<class T> Parameter(const std::string & name, const T & value)
  : n(name), v(value) {}
  Parameter(const std::string & name, const ParameterValue & value)
  : n(name), v(value) {}
  const std::string & get_name() const {return n;}
  ParameterType get_type() const {return v.t;}
  const ParameterValue & get_parameter_value() const {return v;}
  bool as_bool() const {return Want(ParameterType::BOOL).b;}
  int64_t as_int() const {return Want(ParameterType::INTEGER).i;}
  double as_double() const {return Want(ParameterType::DOUBLE).d;}
  const std::string & as_string() const {return Want(ParameterType::STRING).s;}
  const std::vector<double> & as_double_array() const {return Want(ParameterType::DOUBLE_ARRAY).da;}
  const std::vector<std::string> & as_string_array() const {return Want(ParameterType::STRING_ARRAY).sa;}

private:
  const ParameterValue & Want(ParameterType t) const
  {
    if (v.t != t) {throw ParameterTypeException("parameter '" + n + "' has another type");}
    return v;
  }
  std::string n;
  ParameterValue v;
};

class Logger
{
public:
  explicit Logger(const std::string & n = "") : name(n) {}
  const char * get_name() const {return name.c_str();}
  std::string name;
};
inline Logger get_logger(const std::string & n) {return Logger(n);}

class TimerBase
{
public:
  typedef std::shared_ptr<TimerBase> SharedPtr;
  std::function<void()> call;
  double period{0};
};
class PublisherBase
{
public:
  virtual ~PublisherBase() {}
  std::string topic;
};
template<class M> class Publisher : public PublisherBase
{
public:
  typedef std::shared_ptr<Publisher<M>> SharedPtr;
  std::vector<M> sent;
  void publish(const M & m) {sent.push_back(m);}
  void publish(std::unique_ptr<M> m) {sent.push_back(*m);}
};
class SubscriptionBase
{
public:
  virtual ~SubscriptionBase() {}
  std::string topic;
};
template<class M> class Subscription : public SubscriptionBase
{
public:
  typedef std::shared_ptr<Subscription<M>> SharedPtr;
  std::function<void(std::shared_ptr<M>)> call;
};
class QoS
{
public:
  QoS(size_t) {}
};

// What the test sees
struct World
{
  std::map<std::string, ParameterValue> overrides;
  std::vector<std::weak_ptr<PublisherBase>> publishers;
  std::vector<std::weak_ptr<SubscriptionBase>> subscriptions;
  std::vector<std::weak_ptr<TimerBase>> timers;
  struct Line {int severity; std::string logger, text;};  // 1 debug to 5 fatal
  std::vector<Line> log;
  std::function<void(std::shared_ptr<class Node>)> spin;
  int inits{0}, shutdowns{0};
};
inline World & TheWorld() {static World w; return w;}

struct SetParametersResult {bool successful{true}; std::string reason;};

class Node
{
public:
  typedef std::shared_ptr<Node> SharedPtr;
  explicit Node(const std::string & name) : m_name(name) {}
  virtual ~Node() {}
  const char * get_name() const {return m_name.c_str();}
  Logger get_logger() const {return Logger(m_name);}
  template<class T> ParameterValue declare_parameter(const std::string & name, const T & value)
  {
    if (m_parameters.count(name)) {throw exceptions::ParameterAlreadyDeclaredException(name);}
    ParameterValue v(value);
    auto o = TheWorld().overrides.find(name);
    if (o != TheWorld().overrides.end()) {
      if (o->second.t != v.t) {throw exceptions::InvalidParameterTypeException("parameter '" + name + "' has invalid type");}
      v = o->second;
    }
    m_parameters[name] = v;
    return v;
  }
  bool has_parameter(const std::string & name) const {return m_parameters.count(name) != 0;}
  Parameter get_parameter(const std::string & name) const
  {
    auto i = m_parameters.find(name);
    if (i == m_parameters.end()) {throw exceptions::ParameterNotDeclaredException(name);}
    return Parameter(name, i->second);
  }
  SetParametersResult set_parameter(const Parameter & p)
  {
    auto i = m_parameters.find(p.get_name());
    if (i == m_parameters.end()) {throw exceptions::ParameterNotDeclaredException(p.get_name());}
    SetParametersResult r;
    if (i->second.t != p.get_type()) {r.successful = false; return r;}
    i->second = p.get_parameter_value();
    return r;
  }
  template<class M, class Q> typename Publisher<M>::SharedPtr create_publisher(const std::string & topic, const Q &)
  {
    auto p = std::make_shared<Publisher<M>>();
    p->topic = topic;
    TheWorld().publishers.push_back(p);
    return p;
  }
  template<class M, class Q, class F>
  typename Subscription<M>::SharedPtr create_subscription(const std::string & topic, const Q &, F f)
  {
    // ROS 2 rejects an empty topic
    if (topic.empty()) {throw std::runtime_error("topic name must not be empty string");}
    auto p = std::make_shared<Subscription<M>>();
    p->topic = topic;
    p->call = f;
    TheWorld().subscriptions.push_back(p);
    return p;
  }
  template<class R, class P, class F> TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> period, F f)
  {
    auto t = std::make_shared<TimerBase>();
    t->call = f;
    t->period = std::chrono::duration<double>(period).count();
    TheWorld().timers.push_back(t);
    return t;
  }

private:
  std::string m_name;
  std::map<std::string, ParameterValue> m_parameters;
};

inline void init(int, const char * const *) {TheWorld().inits++;}
inline bool shutdown() {TheWorld().shutdowns++; return true;}
inline bool ok() {return true;}
inline void spin(std::shared_ptr<Node> n) {TheWorld().spin(n);}

inline void LogLine(int severity, const Logger & l, const char * format, ...) __attribute__((format(printf, 3, 4)));
inline void LogLine(int severity, const Logger & l, const char * format, ...)
{
  va_list a, b;
  va_start(a, format);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, format, a);
  std::string s(n > 0 ? n + 1 : 1, 0);
  vsnprintf(&s[0], s.size(), format, b);
  s.resize(n > 0 ? n : 0);
  va_end(a);
  va_end(b);
  TheWorld().log.push_back({severity, l.name, s});
}
}  // namespace rclcpp

#define RCLCPP_DEBUG(logger, ...) rclcpp::LogLine(1, logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) rclcpp::LogLine(2, logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) rclcpp::LogLine(3, logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) rclcpp::LogLine(4, logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) rclcpp::LogLine(5, logger, __VA_ARGS__)
#define RCLCPP_LOG_STREAM(n, logger, args) do {std::ostringstream o_; o_ << args; rclcpp::LogLine(n, logger, "%s", o_.str().c_str());} while (0)
#define RCLCPP_DEBUG_STREAM(logger, args) RCLCPP_LOG_STREAM(1, logger, args)
#define RCLCPP_INFO_STREAM(logger, args) RCLCPP_LOG_STREAM(2, logger, args)
#define RCLCPP_WARN_STREAM(logger, args) RCLCPP_LOG_STREAM(3, logger, args)
#define RCLCPP_ERROR_STREAM(logger, args) RCLCPP_LOG_STREAM(4, logger, args)
#define RCLCPP_FATAL_STREAM(logger, args) RCLCPP_LOG_STREAM(5, logger, args)
