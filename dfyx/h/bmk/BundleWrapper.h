#pragma once
#include "DafnyRuntime.h"
namespace UI_Compile { struct RangeStart {}; struct SuccResultList {}; }
struct Variables {};
