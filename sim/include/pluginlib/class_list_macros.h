#ifndef SIM_PLUGINLIB_H
#define SIM_PLUGINLIB_H
#include <nodelet/loader.h>
#define SIM_PL_CAT2(a, b) a##b
#define SIM_PL_CAT(a, b) SIM_PL_CAT2(a, b)
#define PLUGINLIB_EXPORT_CLASS(cls, base) \
  namespace { base* SIM_PL_CAT(sim_mk_, __LINE__)() { return new cls(); } \
  ::nodelet::Registrar SIM_PL_CAT(sim_reg_, __LINE__)(#cls, &SIM_PL_CAT(sim_mk_, __LINE__)); }
#endif
