#include "fakeclang.h"
