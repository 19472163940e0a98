// not used by the code under check
#pragma once
#include <sstream>
#include <string>
