#pragma once
#define _STREAMBUF_ITERATOR_H 1
#include "../vfstreams.h"
