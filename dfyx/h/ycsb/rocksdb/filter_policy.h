#include "table.h"
