#pragma once
#include <limestone/api/datastore.h>
