#pragma once
#include <photospline/splinetable.h>
