// Stand-in for the empty submodule include/threadsafe (assumed contract, see DESIGN.md).
#pragma once
class AIReadWriteMutex { };
