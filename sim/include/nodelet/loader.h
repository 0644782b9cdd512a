#ifndef SIM_NODELET_LOADER_H
#define SIM_NODELET_LOADER_H
#include <nodelet/nodelet.h>
namespace nodelet {
class Loader {
 public:
  explicit Loader(bool provide_ros_api = true);
  ~Loader();
  bool load(const std::string& name, const std::string& type, const M_string& remap, const V_string& argv);
  bool unload(const std::string& name);
  bool clear();
  std::vector<std::string> listLoadedNodelets() { return std::vector<std::string>(); }
  struct Impl;
 private:
  Impl* impl_;
};
Nodelet* create_registered(const std::string& type);
struct Registrar { Registrar(const char* type, Nodelet* (*mk)()); };
}
#endif
