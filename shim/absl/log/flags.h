#pragma once
#include "absl/log/check.h"
