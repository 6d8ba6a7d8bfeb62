// Stand-in for the parts of bitsery 5.2 that simfil uses (bitsery is not installed in this sandbox).
#pragma once
#include "details/all.h"
