#pragma once
#include "details/all.h"
