#pragma once
#include "_all.h"
