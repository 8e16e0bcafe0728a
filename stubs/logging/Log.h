// Verification stub: logging has an empty body and its arguments are not evaluated.
#pragma once
#include <string>
#include <fmt/format.h>
namespace vrs {
using std::string;
namespace logging {
enum class Level { Error = 0, Warning = 1, Info = 2, Debug = 3 };
}
}
#define VS_LOG_NOP(...) do { } while (false)
#define XR_LOGD(...) VS_LOG_NOP()
#define XR_LOGI(...) VS_LOG_NOP()
#define XR_LOGW(...) VS_LOG_NOP()
#define XR_LOGE(...) VS_LOG_NOP()
#define XR_LOGD_EVERY_N_SEC(...) VS_LOG_NOP()
#define XR_LOGI_EVERY_N_SEC(...) VS_LOG_NOP()
#define XR_LOGW_EVERY_N_SEC(...) VS_LOG_NOP()
#define XR_LOGE_EVERY_N_SEC(...) VS_LOG_NOP()
#define XR_LOGCD(...) VS_LOG_NOP()
#define XR_LOGCI(...) VS_LOG_NOP()
#define XR_LOGCW(...) VS_LOG_NOP()
#define XR_LOGCE(...) VS_LOG_NOP()
