#pragma once
#include "symengine/_all.h"
