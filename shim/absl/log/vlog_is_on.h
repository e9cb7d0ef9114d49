#ifndef VH_ABSL_LOG_VLOG_IS_ON_H_
#define VH_ABSL_LOG_VLOG_IS_ON_H_
#include "absl/log/log.h"
#define VLOG_IS_ON(n) (::vh_log::VLogLevel() >= (n))
#endif
