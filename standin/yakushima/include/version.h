#pragma once
#include "yakushima/include/kvs.h"
