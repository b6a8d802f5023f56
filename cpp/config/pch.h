#include "nzbget.h"
