#ifndef VH_ABSL_LOG_INITIALIZE_H_
#define VH_ABSL_LOG_INITIALIZE_H_
namespace absl { inline void InitializeLog() {} }
#endif
