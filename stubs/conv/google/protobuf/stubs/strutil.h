#pragma once
#include "google/protobuf/stubs/common.h"
