// Stand-in: nothing of it is needed beyond the data structures themselves.
#pragma once
#include <ginkgo/ginkgo.hpp>
