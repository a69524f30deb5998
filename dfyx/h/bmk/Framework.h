#pragma once
#include "BundleWrapper.h"
namespace MainDiskIOHandler_Compile { struct DiskIOHandler {}; }
void Mkfs(std::string filename);
