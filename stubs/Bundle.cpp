#pragma once
#include "Bundle.i.h"
