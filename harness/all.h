// Every public header of the library.
#pragma once
#include <cml/cml.h>
#include <cml/mathlib/mathlib.h>
#include <cml/matrix/hadamard_product.h>
#include <cml/matrix/lu.h>
#include <cml/vector/hadamard_product.h>
#include <cml/util/vector_hash.h>
