#include "interval.h"
