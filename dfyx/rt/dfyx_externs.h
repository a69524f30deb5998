#pragma once
#include "Framework.h"
