// Stand-in for absl/log/log.h (the sandbox's Abseil predates absl/log).
// It implements the documented semantics of the macros Ceres uses; where the
// real library prints, this one prints only when VH_LOG is set, and a fatal
// message goes through vh_log::Fatal, which prints one line and aborts.
#ifndef VH_ABSL_LOG_LOG_H_
#define VH_ABSL_LOG_LOG_H_

#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>

#include "absl/base/log_severity.h"

namespace vh_log {

enum Sev { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3 };

inline bool Verbose() {
  static const bool v = std::getenv("VH_LOG") != nullptr;
  return v;
}

inline int VLogLevel() {
  static const int v = [] {
    const char* e = std::getenv("VH_VLOG");
    return e != nullptr ? std::atoi(e) : 0;
  }();
  return v;
}

[[noreturn]] inline void Fatal(const char* file, int line, const std::string& m) {
  std::fprintf(stderr, "VH-FATAL %s:%d %s\n", file, line, m.c_str());
  std::fflush(stderr);
  std::abort();
}

class Message {
 public:
  Message(const char* file, int line, int sev) : file_(file), line_(line), sev_(sev) {}
  Message(const Message&) = delete;
  std::ostream& stream() { return os_; }
  ~Message() {
    if (sev_ == FATAL) Fatal(file_, line_, os_.str());
    if (Verbose()) {
      std::fprintf(stderr, "LOG[%d] %s:%d %s\n", sev_, file_, line_, os_.str().c_str());
    }
  }

 private:
  const char* file_;
  int line_;
  int sev_;
  std::ostringstream os_;
};

class FatalMessage {
 public:
  FatalMessage(const char* file, int line) : file_(file), line_(line) {}
  std::ostream& stream() { return os_; }
  [[noreturn]] ~FatalMessage() { Fatal(file_, line_, os_.str()); }

 private:
  const char* file_;
  int line_;
  std::ostringstream os_;
};

struct Voidify {
  void operator&(std::ostream&) const {}
};

}  // namespace vh_log

#define VH_LOG_STREAM_INFO ::vh_log::Message(__FILE__, __LINE__, ::vh_log::INFO).stream()
#define VH_LOG_STREAM_WARNING ::vh_log::Message(__FILE__, __LINE__, ::vh_log::WARNING).stream()
#define VH_LOG_STREAM_ERROR ::vh_log::Message(__FILE__, __LINE__, ::vh_log::ERROR).stream()
#define VH_LOG_STREAM_FATAL ::vh_log::FatalMessage(__FILE__, __LINE__).stream()
#define VH_LOG_STREAM_QFATAL VH_LOG_STREAM_FATAL
#ifdef NDEBUG
#define VH_LOG_STREAM_DFATAL VH_LOG_STREAM_ERROR
#else
#define VH_LOG_STREAM_DFATAL VH_LOG_STREAM_FATAL
#endif

#define LOG(severity) VH_LOG_STREAM_##severity
#define LOG_IF(severity, cond) \
  !(cond) ? (void)0 : ::vh_log::Voidify() & VH_LOG_STREAM_##severity
#define LOG_FIRST_N(severity, n) LOG(severity)
#define LOG_EVERY_N(severity, n) LOG(severity)
#ifdef NDEBUG
#define DLOG(severity) true ? (void)0 : ::vh_log::Voidify() & VH_LOG_STREAM_##severity
#else
#define DLOG(severity) VH_LOG_STREAM_##severity
#endif

#include "absl/log/vlog_is_on.h"

#define VLOG(n) \
  !VLOG_IS_ON(n) ? (void)0 : ::vh_log::Voidify() & VH_LOG_STREAM_INFO
#define VLOG_IF(n, cond) \
  !(VLOG_IS_ON(n) && (cond)) ? (void)0 : ::vh_log::Voidify() & VH_LOG_STREAM_INFO

#endif
