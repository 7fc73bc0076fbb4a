#include "google/protobuf/util/converter/shim_all.h"
