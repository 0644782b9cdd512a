#ifndef SIM_NODELET_H
#define SIM_NODELET_H
#include <sim/simros.h>
namespace nodelet {
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;
class Nodelet {
 public:
  Nodelet() {}
  virtual ~Nodelet() {}
  const std::string& getName() const { return name_; }
  const V_string& getMyArgv() const { return argv_; }
  ros::NodeHandle& getNodeHandle() const { return *nh_; }
  ros::NodeHandle& getPrivateNodeHandle() const { return *pnh_; }
  ros::NodeHandle& getMTNodeHandle() const { return *nh_; }
  ros::NodeHandle& getMTPrivateNodeHandle() const { return *pnh_; }
  ros::CallbackQueueInterface& getSTCallbackQueue() const { return *q_; }
  ros::CallbackQueueInterface& getMTCallbackQueue() const { return *q_; }
  std::string getSuffixedName(const std::string& s) const { return name_ + "." + s; }
  void init(const std::string& name, const M_string&, const V_string& argv, ros::CallbackQueueInterface* q = nullptr,
            ros::CallbackQueueInterface* = nullptr) {
    name_ = name;
    argv_ = argv;
    q_ = q;
    nh_.reset(new ros::NodeHandle(""));
    pnh_.reset(new ros::NodeHandle("~"));
    if (q) { nh_->setCallbackQueue(q); pnh_->setCallbackQueue(q); }
    this->onInit();
  }

 protected:
  virtual void onInit() = 0;

 private:
  std::string name_;
  V_string argv_;
  ros::CallbackQueueInterface* q_ = nullptr;
  boost::shared_ptr<ros::NodeHandle> nh_, pnh_;
};
typedef boost::shared_ptr<Nodelet> NodeletPtr;
}  // namespace nodelet
#define NODELET_DEBUG(...) ROS_DEBUG(__VA_ARGS__)
#define NODELET_INFO(...) ROS_INFO(__VA_ARGS__)
#define NODELET_WARN(...) ROS_WARN(__VA_ARGS__)
#define NODELET_ERROR(...) ROS_ERROR(__VA_ARGS__)
#define NODELET_FATAL(...) ROS_FATAL(__VA_ARGS__)
#define NODELET_DEBUG_STREAM(a) ROS_DEBUG_STREAM(a)
#define NODELET_INFO_STREAM(a) ROS_INFO_STREAM(a)
#define NODELET_WARN_STREAM(a) ROS_WARN_STREAM(a)
#define NODELET_ERROR_STREAM(a) ROS_ERROR_STREAM(a)
#endif
