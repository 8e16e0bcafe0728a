// Verification stub: a failed XR_VERIFY evaluates to 0 like the real one, without printing.
#pragma once
#include <fmt/format.h>
#define XR_VERIFY_C(channel_, condition_, ...) ((condition_) ? 1 : 0)
#define XR_VERIFY(cond, ...) ((cond) ? 1 : 0)
