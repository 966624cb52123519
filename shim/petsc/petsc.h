#pragma once
#include "petsc_standin.hpp"
